package xmssmt

// Executed only: random histories on real files, compared with what the
// properties say.  They prove nothing (for the verifier there are no
// paths through them); they turn failures of obligations about the file system
// or about interleavings into inputs that can be replayed.

import (
	"io/ioutil"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
)

type gvcRunState struct {
	prop string
	dir  string
	file int
	keep []func()
}

func (r *gvcRunState) is(prop string, c bool, label string) {
	if prop == r.prop {
		gvcAssert(c, label)
	}
}

func (r *gvcRunState) path() string { return filepath.Join(r.dir, "k"+strconv.Itoa(r.file)) }

// crash: continue with what is in the files now.
func (r *gvcRunState) crash() {
	old := r.path()
	r.file++
	for _, s := range []string{"", ".cache"} {
		b, err := ioutil.ReadFile(old + s)
		if err == nil {
			ioutil.WriteFile(r.path()+s, b, 0600)
		}
	}
}

func gvcStart(prop string) *gvcRunState {
	if gvcSymbolic() {
		return nil
	}
	dir, err := ioutil.TempDir("", "gvc")
	if err != nil {
		return nil
	}
	return &gvcRunState{prop: prop, dir: dir}
}

func (r *gvcRunState) end() {
	for _, f := range r.keep {
		f()
	}
	os.RemoveAll(r.dir)
}

func gvcRunContainer(prop string) {
	r := gvcStart(prop)
	if r == nil {
		return
	}
	defer r.end()
	var ctr PrivateKeyContainer
	var err Error
	open := func() {
		ctr, err = OpenFSPrivateKeyContainer(r.path())
		r.is("C15", err == nil, "a container can be opened again")
		if err != nil {
			gvcStop()
		}
		c := ctr
		r.keep = append(r.keep, func() { c.Close() })
	}
	open()
	var p Params
	var priv []byte
	var seq uint64
	var bor uint32
	live := map[SubTreeAddress][]byte{}
	same := func() {
		if priv == nil {
			r.is("C15", ctr.Initialized() == nil, "a new container is empty")
			return
		}
		q := ctr.Initialized()
		b, err := ctr.GetPrivateKey()
		r.is("C15", q != nil && *q == p && err == nil && string(b) == string(priv), "parameters and private key are found again")
		s, l, err := ctr.GetSeqNo()
		r.is("C15", err == nil && uint64(s) == seq, "the sequence number is found again")
		r.is("C04", err == nil && uint64(s) == seq && l == bor, "what was recorded last is found again")
		r.is("C20", err == nil && l == bor, "the number of borrowed sequence numbers is found again")
		if !ctr.CacheInitialized() {
			r.is("C12", false, "the cache is found again")
			gvcStop()
		}
		ts, err := ctr.ListSubTrees()
		r.is("C12", err == nil && len(ts) == len(live), "the subtrees listed are those present")
		for a, want := range live {
			r.is("C12", ctr.HasSubTree(a), "a subtree is present until it is dropped")
			b, ok, err := ctr.GetSubTree(a)
			r.is("C12", err == nil && ok && string(b) == string(want), "a cached subtree keeps its content")
		}
	}
	same()
	for i := gvcRange("operations", 1, 14); i > 0; i-- {
		op := gvcFork("operation", 13)
		if priv == nil {
			op = 11
		}
		switch op {
		case 0:
			n := gvcU32("amount") >> 8
			s, err := ctr.BorrowSeqNos(n)
			r.is("C20", err == nil && uint64(s) == seq, "the numbers borrowed start at the first unused one")
			seq += uint64(n)
			bor += n
		case 1:
			seq = gvcU64("seqNo") >> 4
			bor = 0
			err := ctr.SetSeqNo(SignatureSeqNo(seq))
			r.is("C04", err == nil, "the sequence number is recorded")
		case 2, 3, 4, 5:
			a := SubTreeAddress{Layer: uint32(gvcFork("layer", 3)), Tree: uint64(gvcFork("tree", 3)) << 31}
			b, ok, err := ctr.GetSubTree(a)
			_, had := live[a]
			r.is("C12", err == nil && ok == had && len(b) == p.CachedSubTreeSize(), "a subtree is found or allocated")
			if err == nil {
				copy(b, gvcBytes("content", 40))
				live[a] = append([]byte{}, b...)
			}
		case 6, 7:
			a := SubTreeAddress{Layer: uint32(gvcFork("layer", 3)), Tree: uint64(gvcFork("tree", 3)) << 31}
			err := ctr.DropSubTree(a)
			r.is("C12", err == nil && !ctr.HasSubTree(a), "a subtree is dropped")
			delete(live, a)
		case 8:
			r.crash()
			open()
		case 9:
			err := ctr.Close()
			r.is("C15", err == nil, "the container is closed")
			open()
		case 10:
			err := ctr.ResetCache()
			r.is("C12", err == nil, "the cache is reset")
			live = map[SubTreeAddress][]byte{}
		case 12:
			// the new key file cannot be written
			os.Mkdir(r.path()+".tmp", 0700)
			n := gvcU32("amount") >> 8
			if gvcFork("method", 2) == 0 {
				_, err := ctr.BorrowSeqNos(n)
				if err == nil {
					seq += uint64(n)
					bor += n
				}
			} else {
				err := ctr.SetSeqNo(SignatureSeqNo(n))
				if err == nil {
					seq, bor = uint64(n), 0
				}
			}
			os.Remove(r.path() + ".tmp")
		case 11:
			p = Params{Func: SHAKE, N: 32, WotsW: 16, FullHeight: 10, D: 1, Prf: RFC}
			if gvcFork("parameters", 2) == 1 {
				p = Params{Func: SHA2, N: 16, WotsW: 256, FullHeight: 20, D: 4, Prf: NIST}
			}
			priv = gvcBytes("private key", p.PrivateKeySize())
			err := ctr.Reset(priv, p)
			r.is("C15", err == nil, "a key is stored")
			if err != nil {
				gvcStop()
			}
			seq, bor = 0, 0
			live = map[SubTreeAddress][]byte{}
		}
		same()
	}
}

//gvc:harness C04 executed bounded="executed only: random histories of at most 14 operations on real files"
func hRunC04() { gvcRunContainer("C04") }

//gvc:harness C12 executed bounded="executed only: random histories of at most 14 operations on real files"
func hRunC12() { gvcRunContainer("C12") }

//gvc:harness C15 executed bounded="executed only: random histories of at most 14 operations on real files"
func hRunC15() { gvcRunContainer("C15") }

//gvc:harness C20 executed bounded="executed only: random histories of at most 14 operations on real files"
func hRunC20() { gvcRunContainer("C20") }

func gvcRunKey(prop string) {
	r := gvcStart(prop)
	if r == nil {
		return
	}
	defer r.end()
	p := Params{Func: SHA2, N: 16, WotsW: 16, FullHeight: 6, D: 3, Prf: NIST}
	if gvcFork("parameters", 2) == 1 {
		p = Params{Func: SHAKE, N: 16, WotsW: 16, FullHeight: 4, D: 2, Prf: RFC}
	}
	ctx, err := NewContext(p)
	if err != nil {
		gvcStop()
	}
	ctx.Threads = gvcFork("threads", 3)
	sk, pk, err := ctx.Derive(r.path(), gvcBytes("pubSeed", 16), gvcBytes("skSeed", 16), gvcBytes("skPrf", 16))
	r.is("C15", err == nil, "a key is derived")
	if err != nil {
		gvcStop()
	}
	first := pk
	max := p.MaxSignatureSeqNo()
	used := map[SignatureSeqNo]bool{}
	next, bor := uint64(0), uint32(0)
	fresh, pre := true, false
	rec := uint32(0) // the reservation recorded; also what was used of it until the next number is recorded
	load := func(lostWant uint32) {
		var lost uint32
		sk, pk, lost, err = LoadPrivateKey(r.path())
		r.is("C15", err == nil, "a key is loaded")
		if err != nil {
			gvcStop()
		}
		k := sk
		r.keep = append(r.keep, func() { k.Close() })
		a, _ := first.MarshalBinary()
		b, _ := pk.MarshalBinary()
		r.is("C15", string(a) == string(b), "a key is loaded with the same public key")
		next += uint64(lostWant)
		r.is("C20", lost >= lostWant, "no less signatures are reported lost than were")
		r.is("C20", lost <= rec, "no more signatures are reported lost than were reserved")
		rec = lost
		r.is("C20", uint64(sk.SeqNo()) == next, "signing continues after the numbers lost")
		r.is("C03", uint64(sk.SeqNo()) >= next-uint64(lostWant), "no number is used again")
		bor, fresh, pre = 0, false, false
	}
	{
		k := sk
		r.keep = append(r.keep, func() { k.Close() })
	}
	for i := gvcRange("operations", 1, 10); i > 0; i-- {
		switch gvcFork("operation", 10) {
		case 0, 1, 2, 3:
			n := 1 + gvcFork("signers", 4)
			sigs := make([]*Signature, n)
			errs := make([]Error, n)
			var wg sync.WaitGroup
			for j := 0; j < n; j++ {
				wg.Add(1)
				go func(j int) {
					defer wg.Done()
					sigs[j], errs[j] = sk.Sign([]byte{1, byte(j)})
				}(j)
			}
			wg.Wait()
			left := max - next
			ok := 0
			for j := 0; j < n; j++ {
				if errs[j] != nil {
					continue
				}
				ok++
				r.is("C03", !used[sigs[j].SeqNo()], "no sequence number is used twice")
				r.is("C19", uint64(sigs[j].SeqNo()) < max, "only the numbers of the key are used")
				used[sigs[j].SeqNo()] = true
				v, err := first.Verify(sigs[j], []byte{1, byte(j)})
				r.is("C01", v && err == nil, "signatures verify")
				r.is("C13", v && err == nil, "signatures verify, whatever the cache contained")
				r.is("C11", v && err == nil, "signatures verify")
				b, err2 := sigs[j].MarshalBinary()
				var s Signature
				if err2 == nil && s.UnmarshalBinary(b) == nil {
					v, _ = first.Verify(&s, []byte{1, byte(j)})
					r.is("C01", v, "signatures verify after encoding and decoding")
					b[len(b)-1] ^= 1
					s.UnmarshalBinary(b)
					v, _ = first.Verify(&s, []byte{1, byte(j)})
					r.is("C02", !v, "changed signatures do not verify")
				}
				v, _ = first.Verify(sigs[j], []byte{1, byte(j), 0})
				r.is("C02", !v, "signatures do not verify for other messages")
			}
			r.is("C19", uint64(ok) == left || ok == n, "every number of the key can be used")
			r.is("C19", uint64(ok) <= left, "no more signatures than the key has")
			next += uint64(ok)
			if uint32(ok) > bor {
				rec = 0
			}
			if uint32(ok) >= bor {
				bor = 0
			} else {
				bor -= uint32(ok)
			}
			r.is("C14", sk.UnretiredSeqNos() == 0, "when no Sign is running, every number is retired")
			r.is("C14", !fresh || pre || sk.CachedSubTrees() <= int(p.D), "subtrees that are no longer needed are dropped")
		case 4:
			m := max - next
			if m > 6 {
				m = 6
			}
			n := uint32(gvcRange("amount", 0, m))
			err := sk.BorrowExactly(n)
			r.is("C20", err == nil && sk.BorrowedSeqNos() == n, "numbers are borrowed")
			if n > bor {
				rec += n - bor
			} else if n < bor {
				rec = n
			}
			bor = n
		case 5:
			r.crash()
			load(bor)
		case 6:
			err := sk.Close()
			r.is("C20", err == nil, "closing returns the numbers that are borrowed")
			rec = 0
			load(0)
		case 7:
			if sk.Close() != nil {
				gvcStop()
			}
			rec = 0
			b, err := ioutil.ReadFile(r.path() + ".cache")
			if err == nil && len(b) > 4096 {
				for k := gvcFork("changed bytes", 4); k > 0; k-- {
					slot := gvcRange("slot", 1, uint64(len(b)/4096))
					o := slot*4096 + 13 + gvcRange("position", 0, uint64(p.CachedSubTreeSize()-1))
					if o < uint64(len(b)) {
						b[o] ^= byte(gvcRange("difference", 1, 255))
					}
				}
				ioutil.WriteFile(r.path()+".cache", b, 0600)
			}
			load(0)
		case 9:
			// the new key file cannot be written
			os.Mkdir(r.path()+".tmp", 0700)
			sig, err := sk.Sign([]byte{2})
			os.Remove(r.path() + ".tmp")
			if err == nil {
				r.is("C03", !used[sig.SeqNo()], "no sequence number is used twice")
				used[sig.SeqNo()] = true
				if bor == 0 {
					rec = 0
				}
			}
			next, bor = uint64(sk.SeqNo()), sk.BorrowedSeqNos()
			r.is("C14", sk.UnretiredSeqNos() == 0, "when no Sign is running, every number is retired")
		case 8:
			sk.EnableSubTreePrecomputation()
			pre = true
		}
	}
}

//gvc:harness C01 executed bounded="executed only: random histories of at most 10 operations on real files"
func hRunC01() { gvcRunKey("C01") }

//gvc:harness C02 executed bounded="executed only: random histories of at most 10 operations on real files"
func hRunC02() { gvcRunKey("C02") }

//gvc:harness C03 executed bounded="executed only: random histories of at most 10 operations on real files"
func hRunC03() { gvcRunKey("C03") }

//gvc:harness C11 executed bounded="executed only: random histories of at most 10 operations on real files"
func hRunC11() { gvcRunKey("C11") }

//gvc:harness C13 executed bounded="executed only: random histories of at most 10 operations on real files"
func hRunC13() { gvcRunKey("C13") }

//gvc:harness C14 executed bounded="executed only: random histories of at most 10 operations on real files"
func hRunC14() { gvcRunKey("C14") }

//gvc:harness C15 executed bounded="executed only: random histories of at most 10 operations on real files"
func hRunKeyC15() { gvcRunKey("C15") }

//gvc:harness C19 executed bounded="executed only: random histories of at most 10 operations on real files"
func hRunC19() { gvcRunKey("C19") }

//gvc:harness C20 executed bounded="executed only: random histories of at most 10 operations on real files"
func hRunKeyC20() { gvcRunKey("C20") }

// held: the files in the directory that say this process holds a lock.
func (r *gvcRunState) held() []string {
	var ret []string
	fs, _ := ioutil.ReadDir(r.dir)
	for _, f := range fs {
		b, err := ioutil.ReadFile(filepath.Join(r.dir, f.Name()))
		if err == nil && strings.TrimSpace(string(b)) == strconv.Itoa(os.Getpid()) {
			ret = append(ret, filepath.Join(r.dir, f.Name()))
		}
	}
	return ret
}

//gvc:harness C17 executed bounded="executed only: random histories of at most 10 operations on real files"
func hRunC17() {
	r := gvcStart("C17")
	if r == nil {
		return
	}
	defer r.end()
	ctx, err := NewContext(Params{Func: SHAKE, N: 16, WotsW: 16, FullHeight: 4, D: 2, Prf: RFC})
	if err != nil {
		gvcStop()
	}
	sk, _, err := ctx.Derive(r.path(), gvcBytes("pubSeed", 16), gvcBytes("skSeed", 16), gvcBytes("skPrf", 16))
	if err != nil {
		gvcStop()
	}
	held := r.held()
	if len(held) != 1 {
		gvcStop() // locked in some other way
	}
	lock := held[0]
	gvcAssert(sk.Close() == nil, "the key is closed")
	gvcAssert(len(r.held()) == 0, "closing releases the lock")
	for i := gvcRange("operations", 1, 10); i > 0; i-- {
		switch gvcFork("operation", 7) {
		case 0:
			ctr, err := OpenFSPrivateKeyContainer(r.path())
			gvcAssert(err == nil && ctr != nil && len(r.held()) == 1, "an open container is locked")
			switch gvcFork("method", 5) {
			case 0:
				ctr.BorrowSeqNos(1)
			case 1:
				ctr.SetSeqNo(1)
			case 2:
				ctr.ResetCache()
			case 3:
				priv, _ := ctr.GetPrivateKey()
				ctr.Reset(append([]byte{}, priv...), *ctr.Initialized())
			}
			gvcAssert(len(r.held()) == 1, "an open container stays locked")
			gvcAssert(ctr.Close() == nil && len(r.held()) == 0, "closing releases the lock")
		case 1:
			ioutil.WriteFile(lock, []byte(strconv.Itoa(os.Getppid())+"\n"), 0600)
			ctr, err := OpenFSPrivateKeyContainer(r.path())
			gvcAssert(err != nil && ctr == nil && err.Locked(), "a container locked by another process cannot be opened")
			sk, _, _, err := LoadPrivateKey(r.path())
			gvcAssert(err != nil && sk == nil && err.Locked(), "a key locked by another process cannot be loaded")
			b, _ := ioutil.ReadFile(lock)
			gvcAssert(strings.TrimSpace(string(b)) == strconv.Itoa(os.Getppid()), "the lock of another process is left alone")
			os.Remove(lock)
		case 2:
			old, _ := ioutil.ReadFile(r.path())
			b := append([]byte{}, old...)
			b[gvcRange("position", 0, 12)] ^= 255
			if gvcFork("short", 2) == 1 {
				b = old[:gvcRange("length", 0, uint64(len(old)-1))]
			}
			ioutil.WriteFile(r.path(), b, 0600)
			ctr, err := OpenFSPrivateKeyContainer(r.path())
			if err == nil {
				ctr.Close()
			}
			gvcAssert(len(r.held()) == 0, "the lock is released if opening fails")
			ioutil.WriteFile(r.path(), old, 0600)
		case 3:
			os.Mkdir(r.path()+".tmp", 0700)
			sk, _, err := ctx.Derive(r.path(), gvcBytes("pubSeed", 16), gvcBytes("skSeed", 16), gvcBytes("skPrf", 16))
			os.Remove(r.path() + ".tmp")
			if err == nil {
				sk.Close()
			}
			gvcAssert(len(r.held()) == 0, "the lock is released if creating a key fails")
		case 4:
			Sign(r.path(), []byte{1})
			gvcAssert(len(r.held()) == 0, "the lock is released after signing")
		case 5:
			os.Mkdir(lock, 0700)
			ctr, err := OpenFSPrivateKeyContainer(r.path())
			gvcAssert(err != nil && ctr == nil && !err.Locked(), "a container that cannot be locked cannot be opened")
			os.Remove(lock)
		case 6:
			sk, _, _, err := LoadPrivateKey(r.path())
			if err != nil {
				gvcAssert(len(r.held()) == 0, "the lock is released if loading fails")
				break
			}
			sk.BorrowExactly(2)
			os.Mkdir(r.path()+".tmp", 0700)
			sk.Close()
			os.Remove(r.path() + ".tmp")
			gvcAssert(len(r.held()) == 0, "closing releases the lock, also if something else fails")
		}
	}
}
