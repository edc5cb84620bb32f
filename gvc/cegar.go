package main

// Satisfiability of formulas with uninterpreted functions by refinement: an
// application is a fresh unknown at first; whenever the model found gives two
// applications of the same function to the same arguments different values,
// their congruence is added and the query repeated.  Both answers are exact: a
// model is accepted only after evaluating the whole formula under it.

import (
	"hash/fnv"
	"math/big"
	"os"
	"strconv"
	"sync"
	"time"
)

// evaluation of terms under a model
type evaluator struct {
	tb   *TB
	seed string
	vals map[string]*big.Int // smt names
	app  map[int]*big.Int    // applications with a prescribed value
	mem  map[string]map[int]byte
	memo map[int]*big.Int
	tab  map[string]*big.Int // function#args -> value
	tabT map[string]*Term
	// leaves given a value here
	vars map[string]*big.Int
	dis  [2]*Term // two applications that break congruence
	bad  bool
}

func hashBits(s string, w int) *big.Int {
	v := new(big.Int)
	for i := 0; v.BitLen() < w+64; i++ {
		h := fnv.New64a()
		h.Write([]byte(s))
		h.Write([]byte{'#', byte(i), byte(i >> 8)})
		x := h.Sum64()
		x ^= x >> 31
		x *= 0x9e3779b97f4a7c15
		x ^= x >> 29
		v.Lsh(v, 64)
		v.Or(v, new(big.Int).SetUint64(x|1<<63))
		if i > w/64+2 {
			break
		}
	}
	m := new(big.Int).Lsh(big.NewInt(1), uint(w))
	return v.Mod(v.Rsh(v, 7), m)
}

func wmask(w int) *big.Int {
	m := new(big.Int).Lsh(big.NewInt(1), uint(w))
	return m.Sub(m, big.NewInt(1))
}

var big0, big1 = big.NewInt(0), big.NewInt(1)

func bbool(b bool) *big.Int {
	if b {
		return big1
	}
	return big0
}

func toSigned(v *big.Int, w int) *big.Int {
	if w > 0 && v.Bit(w-1) == 1 {
		return new(big.Int).Sub(v, new(big.Int).Lsh(big1, uint(w)))
	}
	return v
}

func (ev *evaluator) byteAt(base string, off int) byte {
	m := ev.mem[base]
	if m == nil {
		m = map[int]byte{}
		ev.mem[base] = m
	}
	b, ok := m[off]
	if !ok {
		b = byte(hashBits(ev.seed+base+"@"+strconv.Itoa(off), 8).Uint64())
		m[off] = b
	}
	return b
}

func (ev *evaluator) eval(t *Term) *big.Int {
	if v, ok := ev.memo[t.id]; ok {
		return v
	}
	v := ev.eval1(t)
	ev.memo[t.id] = v
	return v
}

func (ev *evaluator) trunc(v *big.Int, w int) *big.Int { return new(big.Int).And(v, wmask(w)) }

func (ev *evaluator) eval1(t *Term) *big.Int {
	switch t.op {
	case OpConst:
		if t.w == 0 {
			return new(big.Int).SetUint64(t.k)
		}
		return t.bigVal()
	case OpVar:
		n := quoteSym(t.name)
		if v, ok := ev.vals[n]; ok {
			return v
		}
		if v, ok := ev.vars[n]; ok {
			return v
		}
		w := t.w
		if w == 0 {
			w = 1
		}
		v := hashBits(ev.seed+t.name, w)
		if t.w > 0 && t.w <= 64 && (t.rlo != 0 || t.rhi != mask(t.w)) {
			x := v.Uint64()
			if d := t.rhi - t.rlo + 1; d != 0 {
				x = t.rlo + x%d
			}
			v = new(big.Int).SetUint64(x)
		}
		ev.vars[n] = v
		return v
	case OpMem:
		off := ev.eval(t.args[0])
		o := int(int64(off.Uint64()))
		b := make([]byte, t.w/8)
		for i := range b {
			b[i] = ev.byteAt(t.name, o+i)
		}
		return new(big.Int).SetBytes(b)
	case OpApp:
		key := t.name + ">" + strconv.Itoa(t.w)
		for _, a := range t.args {
			key += "," + strconv.Itoa(a.w) + ":" + ev.eval(a).Text(36)
		}
		want, fixed := ev.app[t.id]
		v, ok := ev.tab[key]
		if !fixed {
			if ok {
				return v
			}
			w := t.w
			if w == 0 {
				w = 1
			}
			want = hashBits(ev.seed+key, w)
		} else if ok && v.Cmp(want) != 0 {
			if ev.dis[0] == nil {
				ev.dis = [2]*Term{ev.tabT[key], t}
			}
			return want
		}
		ev.tab[key] = want
		ev.tabT[key] = t
		return want
	case OpIte:
		if ev.eval(t.args[0]).Sign() != 0 {
			return ev.eval(t.args[1])
		}
		return ev.eval(t.args[2])
	case OpNot:
		return bbool(ev.eval(t.args[0]).Sign() == 0)
	case OpAnd:
		r := true
		for _, a := range t.args {
			if ev.eval(a).Sign() == 0 {
				r = false
			}
		}
		return bbool(r)
	case OpOr:
		r := false
		for _, a := range t.args {
			if ev.eval(a).Sign() != 0 {
				r = true
			}
		}
		return bbool(r)
	}
	var as []*big.Int
	for _, a := range t.args {
		as = append(as, ev.eval(a))
	}
	w := t.w
	switch t.op {
	case OpEq:
		return bbool(as[0].Cmp(as[1]) == 0)
	case OpUlt:
		return bbool(as[0].Cmp(as[1]) < 0)
	case OpUle:
		return bbool(as[0].Cmp(as[1]) <= 0)
	case OpSlt:
		return bbool(toSigned(as[0], t.args[0].w).Cmp(toSigned(as[1], t.args[1].w)) < 0)
	case OpSle:
		return bbool(toSigned(as[0], t.args[0].w).Cmp(toSigned(as[1], t.args[1].w)) <= 0)
	case OpLin:
		r := new(big.Int).SetUint64(t.k)
		for i, a := range as {
			r.Add(r, new(big.Int).Mul(a, new(big.Int).SetUint64(t.coefs[i])))
		}
		return ev.trunc(r, w)
	case OpMul:
		r := big1
		for _, a := range as {
			r = new(big.Int).Mul(r, a)
		}
		return ev.trunc(r, w)
	case OpUdiv:
		if as[1].Sign() == 0 {
			return wmask(w)
		}
		return new(big.Int).Div(as[0], as[1])
	case OpUrem:
		if as[1].Sign() == 0 {
			return as[0]
		}
		return new(big.Int).Mod(as[0], as[1])
	case OpSdiv:
		a, b := toSigned(as[0], w), toSigned(as[1], w)
		if b.Sign() == 0 {
			if a.Sign() < 0 {
				return big1
			}
			return wmask(w)
		}
		return ev.trunc(new(big.Int).Quo(a, b), w)
	case OpSrem:
		a, b := toSigned(as[0], w), toSigned(as[1], w)
		if b.Sign() == 0 {
			return as[0]
		}
		return ev.trunc(new(big.Int).Rem(a, b), w)
	case OpBAnd:
		r := as[0]
		for _, a := range as[1:] {
			r = new(big.Int).And(r, a)
		}
		return r
	case OpBOr:
		r := as[0]
		for _, a := range as[1:] {
			r = new(big.Int).Or(r, a)
		}
		return r
	case OpBXor:
		r := as[0]
		for _, a := range as[1:] {
			r = new(big.Int).Xor(r, a)
		}
		return r
	case OpShl:
		if as[1].BitLen() > 20 || as[1].Int64() >= int64(w) {
			return big0
		}
		return ev.trunc(new(big.Int).Lsh(as[0], uint(as[1].Int64())), w)
	case OpLshr:
		if as[1].BitLen() > 20 || as[1].Int64() >= int64(w) {
			return big0
		}
		return new(big.Int).Rsh(as[0], uint(as[1].Int64()))
	case OpAshr:
		n := uint(w - 1)
		if as[1].BitLen() <= 20 && as[1].Int64() < int64(w) {
			n = uint(as[1].Int64())
		}
		return ev.trunc(new(big.Int).Rsh(toSigned(as[0], w), n), w)
	case OpConcat:
		r := new(big.Int)
		for i, a := range as {
			r.Lsh(r, uint(t.args[i].w))
			r.Or(r, a)
		}
		return r
	case OpExtract:
		return ev.trunc(new(big.Int).Rsh(as[0], uint(t.lo)), w)
	case OpSext:
		return ev.trunc(toSigned(as[0], t.args[0].w), w)
	}
	ev.bad = true
	return big0
}

// Cegar decides the conjunction; Unknown when it runs out of rounds or time.
func (s *Solver) Cegar(tb *TB, conj []*Term, timeout time.Duration) (SatResult, *Model) {
	if tb.And(conj...).isFalse() {
		return Unsat, nil
	}
	var lemmas []*Term
	end := time.Now().Add(timeout)
	for round := 0; round < 60; round++ {
		left := time.Until(end)
		if left <= 0 {
			return Unknown, nil
		}
		p := newPrinter(tb)
		p.abs = true
		c := tb.And(append(append([]*Term(nil), conj...), lemmas...)...)
		if c.isFalse() {
			return Unsat, nil
		}
		body := p.query(c)
		t0 := time.Now()
		r, vals := s.run(body, p, left, true, true)
		s.queries++
		s.elapsed += time.Since(t0)
		s.byRes[s.bin+":"+r.String()]++
		if os.Getenv("GVC_SLOW") != "" && time.Since(t0) > slowQ {
			println("slow cegar query", time.Since(t0).String(), r.String(), len(body), "round", round)
		}
		if r != Sat {
			return r, nil
		}
		ev := &evaluator{tb: tb, seed: strconv.Itoa(round) + "!", vals: vals, app: map[int]*big.Int{}, mem: map[string]map[int]byte{},
			memo: map[int]*big.Int{}, tab: map[string]*big.Int{}, tabT: map[string]*Term{}, vars: map[string]*big.Int{}}
		for n, a := range p.atoms {
			v, ok := vals[n]
			if !ok {
				continue
			}
			base, off, k := a[0].(string), a[1].(int), a[2].(int)
			if ev.mem[base] == nil {
				ev.mem[base] = map[int]byte{}
			}
			b := v.FillBytes(make([]byte, k))
			for i := range b {
				ev.mem[base][off+i] = b[i]
			}
		}
		var apps []*Term
		for n, t := range p.leafT {
			if t.op == OpApp {
				if v, ok := vals[n]; ok {
					ev.app[t.id] = v
					apps = append(apps, t)
				}
			}
		}
		ok := true
		for _, x := range conj {
			if ev.eval(x).Sign() == 0 {
				ok = false
			}
		}
		for _, a := range apps {
			ev.eval(a)
			for _, x := range a.args {
				ev.eval(x)
			}
		}
		if ev.dis[0] != nil {
			a, b := ev.dis[0], ev.dis[1]
			eq := []*Term{}
			for i := range a.args {
				eq = append(eq, tb.Eq(a.args[i], b.args[i]))
			}
			lemmas = append(lemmas, tb.Implies(tb.And(eq...), tb.Eq(a, b)))
			continue
		}
		if !ok || ev.bad {
			return Unknown, nil
		}
		m := map[string]*big.Int{}
		for k, v := range vals {
			m[k] = v
		}
		for k, v := range ev.vars {
			m[k] = v
		}
		for base, bs := range ev.mem {
			for off, b := range bs {
				m[quoteSym(base+"@"+strconv.Itoa(off)+"_1")] = big.NewInt(int64(b))
			}
		}
		return Sat, &Model{m, p}
	}
	return Unknown, nil
}

// harnessStat is shared by the jobs of one harness: once obligations have
// failed, the remaining work is cut short.
type harnessStat struct {
	mu     sync.Mutex
	ref    map[string]int
	unk    map[string]int
	nunk   int
	cutoff time.Time
}

func newHarnessStat() *harnessStat {
	return &harnessStat{ref: map[string]int{}, unk: map[string]int{}}
}

func (h *harnessStat) skip(name string) bool {
	if h == nil {
		return false
	}
	h.mu.Lock()
	defer h.mu.Unlock()
	return h.ref[name] >= 3 || h.unk[name] >= 6
}

func (h *harnessStat) refuted(name string) {
	if h == nil {
		return
	}
	h.mu.Lock()
	defer h.mu.Unlock()
	h.ref[name]++
	h.cut(30 * time.Second)
}

func (h *harnessStat) unknown(name string) {
	if h == nil {
		return
	}
	h.mu.Lock()
	defer h.mu.Unlock()
	h.unk[name]++
	h.nunk++
	if h.nunk >= 6 {
		h.cut(90 * time.Second)
	}
}

// exhausted: a job ran out of time or memory.
func (h *harnessStat) exhausted() {
	if h == nil {
		return
	}
	h.mu.Lock()
	defer h.mu.Unlock()
	h.cut(5 * time.Second)
}

func (h *harnessStat) cut(d time.Duration) {
	t := time.Now().Add(d)
	if h.cutoff.IsZero() || t.Before(h.cutoff) {
		h.cutoff = t
	}
}

func (h *harnessStat) over() bool {
	if h == nil {
		return false
	}
	h.mu.Lock()
	defer h.mu.Unlock()
	return !h.cutoff.IsZero() && time.Now().After(h.cutoff)
}
