package xmssmt

// Properties whose proofs use contracts that are verified for other ones:
//
//gvc:depends C02 C08 C09
//gvc:depends C05 C02 C08 C09
//gvc:depends C11 C08 C09
//gvc:depends C01 C02 C08 C09
//gvc:depends C03 C04
//gvc:depends C15 C04

// Intrinsics of the specification language.  The verifier (/verif/gvc)
// interprets calls to these functions; the bodies below are what they mean
// when a harness is executed concretely, to replay a counterexample or to
// test a contract that could not be decided.

import (
	"bytes"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"math/rand"
	"strconv"
	"sync"
	"unsafe"

	"golang.org/x/crypto/sha3"
)

// gvcErr is the type of errors made by modelled libraries.
type gvcErr struct{ msg string }

func (e *gvcErr) Error() string { return e.msg }

type gvcStopped struct{}

type gvcFailed struct{ kind, label string }

// gvcRun is a concrete execution of a harness.
type gvcRun struct {
	Words   map[string]uint64
	Bytes   map[string]map[string]string // offset -> hex
	Choices map[string]int
	Rand    *rand.Rand
	Edge    bool
	used    map[string]int
	Log     []string
	watch   [][]byte
	snaps   [][][]byte
	Known   []string
}

var gvcCur *gvcRun

var gvcMux sync.Mutex

func gvcIn(name string) string {
	gvcMux.Lock()
	defer gvcMux.Unlock()
	k := gvcCur.used[name]
	gvcCur.used[name] = k + 1
	if k == 0 {
		return name
	}
	return name + "!" + strconv.Itoa(k)
}

func gvcWord(name string, bits uint) uint64 {
	name = gvcIn(name)
	v, ok := gvcCur.Words[name]
	if !ok && gvcCur.Rand != nil {
		v = gvcCur.Rand.Uint64()
		switch gvcCur.Rand.Intn(4) {
		case 0:
			v = uint64(gvcCur.Rand.Intn(8))
		case 1:
			v = ^uint64(0) - uint64(gvcCur.Rand.Intn(8))
		case 2:
			v >>= uint(gvcCur.Rand.Intn(64))
		}
	}
	if bits < 64 {
		v &= 1<<bits - 1
	}
	gvcCur.Log = append(gvcCur.Log, fmt.Sprintf("%s=%d", name, v))
	return v
}

func gvcSymbolic() bool { return false }

// gvcOpaque: use the abstractions of spec.go (not when contracts are ignored)
func gvcOpaque() bool   { return false }
func gvcThorough() bool { return false }

// gvcChoose: a configuration; every value is a separate proof job.
func gvcChoose(name string, n int) int {
	k, ok := gvcCur.Choices[name]
	if !ok && gvcCur.Rand != nil {
		k = gvcCur.Rand.Intn(n)
	}
	if k >= n {
		k = 0
	}
	gvcCur.Log = append(gvcCur.Log, fmt.Sprintf("%s=%d", name, k))
	return k
}

// gvcFork: like gvcChoose, but within the same job.
func gvcFork(name string, n int) int {
	name = gvcIn(name)
	k, ok := gvcCur.Words[name]
	if !ok && gvcCur.Rand != nil {
		k = uint64(gvcCur.Rand.Intn(n))
	}
	if k >= uint64(n) {
		k = 0
	}
	gvcCur.Log = append(gvcCur.Log, fmt.Sprintf("%s=%d", name, k))
	return int(k)
}

func gvcU8(name string) uint8   { return uint8(gvcWord(name, 8)) }
func gvcU16(name string) uint16 { return uint16(gvcWord(name, 16)) }
func gvcU32(name string) uint32 { return uint32(gvcWord(name, 32)) }

// gvcNumber: a number as text, also if it is unknown.
func gvcNumber(v int64) string { return strconv.FormatInt(v, 10) }

func gvcU64(name string) uint64 { return gvcWord(name, 64) }
func gvcInt(name string) int    { return int(gvcWord(name, 64)) }
func gvcBool(name string) bool  { return gvcWord(name, 1) == 1 }

// gvcRange: any value from lo to hi.
func gvcRange(name string, lo, hi uint64) uint64 {
	if lo > hi {
		panic(gvcStopped{})
	}
	name = gvcIn(name)
	v, ok := gvcCur.Words[name]
	if !ok && gvcCur.Rand != nil {
		d := hi - lo + 1
		r := gvcCur.Rand.Uint64()
		switch gvcCur.Rand.Intn(4) {
		case 0:
			r = uint64(gvcCur.Rand.Intn(3))
		case 1:
			r = ^uint64(0)
			if d != 0 {
				r = d - 1 - uint64(gvcCur.Rand.Intn(3))%d
			}
		}
		if d != 0 {
			r %= d
		}
		v = lo + r
	}
	if v < lo || v > hi {
		v = lo
	}
	gvcCur.Log = append(gvcCur.Log, fmt.Sprintf("%s=%d", name, v))
	return v
}

// gvcBytes: n unknown bytes.
func gvcBytes(name string, n int) []byte {
	name = gvcIn(name)
	b := make([]byte, n)
	if gvcCur.Rand != nil {
		gvcCur.Rand.Read(b)
		if gvcCur.Rand.Intn(8) == 0 {
			for i := range b {
				b[i] = 0
			}
		}
	}
	for off, h := range gvcCur.Bytes[name] {
		o, _ := strconv.Atoi(off)
		d, _ := hex.DecodeString(h)
		if o < n {
			copy(b[o:], d)
		}
	}
	if n <= 256 {
		gvcCur.Log = append(gvcCur.Log, fmt.Sprintf("%s=%x", name, b))
	} else {
		gvcCur.Log = append(gvcCur.Log, fmt.Sprintf("%s=%x...(%d bytes)", name, b[:64], n))
	}
	return b
}

// gvcString: an unknown string of unknown length.
func gvcString(name string) string {
	name = gvcIn(name)
	n := 0
	if gvcCur.Rand != nil {
		n = gvcCur.Rand.Intn(100)
	} else {
		n = 7
	}
	b := make([]byte, n)
	if gvcCur.Rand != nil {
		gvcCur.Rand.Read(b)
	}
	gvcCur.Log = append(gvcCur.Log, fmt.Sprintf("%s=%x", name, b))
	return string(b)
}

func gvcAssume(c bool) {
	if !c {
		panic(gvcStopped{})
	}
}

func gvcAssert(c bool, label string) {
	if !c {
		panic(gvcFailed{"ensures", label})
	}
}

func gvcRequire(c bool, label string) {
	if !c {
		panic(gvcFailed{"requires", label})
	}
}

// gvcReach: this point must be reachable (guards against vacuous proofs).
func gvcReach(label string) {}

func gvcStop() { panic(gvcStopped{}) }

// gvcApply is a primitive of the specification: uninterpreted for the
// verifier, the real function when executed.
func gvcApply(name string, n int, parts ...string) string {
	in := ""
	for _, p := range parts {
		in += p
	}
	switch name {
	case "sha256":
		h := sha256.Sum256([]byte(in))
		return string(h[:])
	case "sha512":
		h := sha512.Sum512([]byte(in))
		return string(h[:])
	case "shake128", "shake256":
		out := make([]byte, n)
		if name == "shake128" {
			sha3.ShakeSum128(out, []byte(in))
		} else {
			sha3.ShakeSum256(out, []byte(in))
		}
		return string(out)
	case "keccakf":
		var a [25]uint64
		for i := range a {
			a[i] = binary.LittleEndian.Uint64([]byte(in[8*i : 8*i+8]))
		}
		gvcKeccakF(&a)
		out := make([]byte, 200)
		for i := range a {
			binary.LittleEndian.PutUint64(out[8*i:], a[i])
		}
		return string(out)
	}
	// a function chosen by the proof: any function will do
	out := make([]byte, n)
	sha3.ShakeSum256(out, []byte(name+"|"+in))
	return string(out)
}

// gvcUnapply: if s is gvcApply(name, ..., x) by construction, then x.
func gvcUnapply(name, s string) (string, bool) { return "", false }

// gvcConst: the value of x, if it is the same for all inputs.
func gvcConst(x uint64) (uint64, bool) { return x, true }

// gvcAsm runs an assembly function of the repository on the two pointers.
func gvcAsm(file, fn string, p *uint64, q *[24]uint64) {}

// gvcCut is x under a name of its own, see gvc/asm.go.
func gvcCut(x uint64) uint64 { return x }

// gvcWords: the n words from p on.
func gvcWords(p *uint64, n int) []uint64 {
	return (*[1 << 20]uint64)(unsafe.Pointer(p))[:n:n]
}

func gvcApplyU64(name string, parts ...string) uint64 {
	return binary.BigEndian.Uint64([]byte(gvcApply(name, 8, parts...)))
}

func gvcApplyBool(name string, parts ...string) bool {
	return gvcApply(name, 1, parts...)[0]&1 == 1
}

// FIPS 202, section 3.
func gvcKeccakF(a *[25]uint64) {
	lfsr := func(t int) uint64 {
		r := 1
		for i := 0; i < t%255; i++ {
			r <<= 1
			if r&0x100 != 0 {
				r ^= 0x171
			}
		}
		return uint64(r & 1)
	}
	rot := func(x uint64, n int) uint64 {
		n %= 64
		return x<<uint(n) | x>>uint((64-n)%64)
	}
	for round := 0; round < 24; round++ {
		var c [5]uint64
		for x := 0; x < 5; x++ {
			c[x] = a[x] ^ a[x+5] ^ a[x+10] ^ a[x+15] ^ a[x+20]
		}
		for x := 0; x < 5; x++ {
			d := c[(x+4)%5] ^ rot(c[(x+1)%5], 1)
			for y := 0; y < 5; y++ {
				a[x+5*y] ^= d
			}
		}
		var b [25]uint64
		b[0] = a[0]
		x, y := 1, 0
		for t := 0; t < 24; t++ {
			b[x+5*y] = rot(a[x+5*y], (t+1)*(t+2)/2)
			x, y = y, (2*x+3*y)%5
		}
		var p [25]uint64
		for x := 0; x < 5; x++ {
			for y := 0; y < 5; y++ {
				p[x+5*y] = b[(x+3*y)%5+5*x]
			}
		}
		for x := 0; x < 5; x++ {
			for y := 0; y < 5; y++ {
				a[x+5*y] = p[x+5*y] ^ (^p[(x+1)%5+5*y] & p[(x+2)%5+5*y])
			}
		}
		for j := uint(0); j <= 6; j++ {
			a[0] ^= lfsr(int(j)+7*round) << ((uint(1) << j) - 1)
		}
	}
}

func gvcXor(a, b string) string {
	r := make([]byte, len(a))
	for i := range r {
		r[i] = a[i] ^ b[i]
	}
	return string(r)
}

// gvcBE: toByte(x, n) of RFC 8391.
func gvcBE(x uint64, n int) string {
	b := make([]byte, n)
	for i := n - 1; i >= 0; i-- {
		b[i] = byte(x)
		x >>= 8
	}
	return string(b)
}

func gvcU64of(s string) (r uint64) {
	for i := 0; i < len(s); i++ {
		r = r<<8 | uint64(s[i])
	}
	return
}

// gvcHavoc: afterwards b may contain anything.
func gvcHavoc(b []byte) {
	for i := range b {
		b[i] = 0xa5 ^ byte(i)
	}
	if gvcCur != nil && gvcCur.Rand != nil {
		gvcCur.Rand.Read(b)
	}
}

func gvcHavocU64() uint64 {
	if gvcCur != nil && gvcCur.Rand != nil {
		return gvcCur.Rand.Uint64()
	}
	return 0xdead
}

// gvcWatch: memory that concrete snapshots cover (the verifier's cover the
// whole heap).
func gvcWatch(b []byte) { gvcCur.watch = append(gvcCur.watch, b) }

func gvcSnapshot() int {
	var s [][]byte
	for _, b := range gvcCur.watch {
		s = append(s, append([]byte(nil), b...))
	}
	gvcCur.snaps = append(gvcCur.snaps, s)
	return len(gvcCur.snaps) - 1
}

// gvcUnchanged: nothing but the listed byte slices and objects changed since
// the snapshot.
func gvcUnchanged(snap int, label string, allowed ...interface{}) {
	for i, old := range gvcCur.snaps[snap] {
		now := gvcCur.watch[i]
		for k := range old {
			if old[k] == now[k] {
				continue
			}
			p := uintptr(unsafe.Pointer(&now[k]))
			ok := false
			for _, x := range allowed {
				a, _ := x.([]byte)
				if len(a) > 0 && p >= uintptr(unsafe.Pointer(&a[0])) && p <= uintptr(unsafe.Pointer(&a[len(a)-1])) {
					ok = true
				}
			}
			if !ok {
				panic(gvcFailed{"frame", label})
			}
		}
	}
}

// gvcDisjoint: the slices share no byte.
func gvcDisjoint(a, b []byte) bool {
	if len(a) == 0 || len(b) == 0 {
		return true
	}
	p, q := uintptr(unsafe.Pointer(&a[0])), uintptr(unsafe.Pointer(&b[0]))
	return p+uintptr(len(a)) <= q || q+uintptr(len(b)) <= p
}

func gvcRunThreads() {}

// gvcPending: the number of goroutines started that have not run.
func gvcPending() int { return 0 }

// gvcHeld: is the mutex locked?
func gvcHeld(m *sync.Mutex) bool {
	if m.TryLock() {
		m.Unlock()
		return false
	}
	return true
}

// gvcExec runs a harness concretely.  The result is "" if it passed,
// "skip" if its assumptions do not hold for these inputs.
func gvcExec(f func(), r *gvcRun) (res string) {
	r.used = map[string]int{}
	r.Log = nil
	r.watch, r.snaps = nil, nil
	gvcCur = r
	defer func() {
		x := recover()
		switch y := x.(type) {
		case nil:
		case gvcStopped:
			res = "skip"
		case gvcFailed:
			res = y.kind + ": " + y.label
		default:
			res = fmt.Sprintf("no panic: %v", x)
		}
	}()
	f()
	return ""
}

func gvcFnv(s string) string { return strconv.Quote(s) }

// gvcAbstractU32 forgets everything about x: for the verifier the result is
// an unknown.  (What is assumed of it afterwards must have been asserted.)
func gvcAbstractU32(x uint32) uint32 { return x }
func gvcAbstractU64(x uint64) uint64 { return x }

// gvcEncode, gvcDecode, gvcBinSize: encoding/binary on values of fixed size.
func gvcEncode(littleEndian bool, x interface{}) string {
	var b bytes.Buffer
	var o binary.ByteOrder = binary.BigEndian
	if littleEndian {
		o = binary.LittleEndian
	}
	if err := binary.Write(&b, o, x); err != nil {
		panic(err)
	}
	return b.String()
}

func gvcDecode(littleEndian bool, s string, x interface{}) {
	var o binary.ByteOrder = binary.BigEndian
	if littleEndian {
		o = binary.LittleEndian
	}
	if err := binary.Read(bytes.NewReader([]byte(s)), o, x); err != nil {
		panic(err)
	}
}

func gvcBinSize(x interface{}) int { return binary.Size(x) }

// Loop invariants (//gvc:loop); see gvc/loop.go.
func gvcLoopVar(xs ...interface{}) {}

func gvcInv(c bool, label string) {}

func gvcSplit(name string, x uint32, lo, hi int) {}
