package main

import (
	"fmt"
	"go/token"
	"sort"
	"strings"
)

// Goroutines that are waited for with a WaitGroup run in an order that is
// chosen at every acquisition of a lock; every order is explored.  That this
// is enough follows from the absence of data races, which is checked for the
// accesses of each pair of goroutines: of two that overlap, one of them a
// write, both are made holding a common lock.

type access struct {
	lo, hi uint64
	thread int
	write  bool
	locks  string
	where  string
}

type raceLog struct {
	last int // objects up to this one existed when the goroutines started
	acc  map[int][]access
}

func (e *Exec) heldLocks(st *State) string {
	var l []string
	for k, v := range st.ghost {
		if v == st.thread+1 && strings.HasPrefix(k, "l") {
			l = append(l, k)
		}
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

func (e *Exec) noteAccess(st *State, obj int, lo, hi uint64, write bool) {
	r := e.races
	if r == nil || e.pure > 0 || obj > r.last || st.thread == 0 {
		return
	}
	a := access{lo, hi, st.thread, write, e.heldLocks(st), ""}
	l := r.acc[obj]
	for i := len(l) - 1; i >= 0 && i >= len(l)-6; i-- {
		b := &l[i]
		if b.thread == a.thread && b.write == a.write && b.locks == a.locks && b.lo <= a.hi && a.lo <= b.hi {
			if a.lo < b.lo {
				b.lo = a.lo
			}
			if a.hi > b.hi {
				b.hi = a.hi
			}
			return
		}
	}
	if e.curFn != nil {
		a.where = fnName(e.curFn.fn)
	}
	r.acc[obj] = append(l, a)
}

func (e *Exec) notePtr(st *State, p Ptr, write bool) {
	if e.races == nil {
		return
	}
	if len(p.path) == 0 {
		e.noteAccess(st, p.obj, 0, 1<<62, write)
	} else if x := p.path[0]; x.t == nil {
		e.noteAccess(st, p.obj, uint64(x.f), uint64(x.f)+1, write)
	} else if x.t.isConst() {
		e.noteAccess(st, p.obj, x.t.k, x.t.k+1, write)
	} else {
		e.noteAccess(st, p.obj, 0, 1<<62, write)
	}
}

func (e *Exec) noteBytes(st *State, obj int, off *Term, n int, write bool) {
	if e.races == nil {
		return
	}
	if off = st.subst1(off); off.isConst() {
		e.noteAccess(st, obj, off.k, off.k+uint64(n), write)
	} else {
		e.noteAccess(st, obj, 0, 1<<62, write)
	}
}

func commonLock(a, b string) bool {
	for _, x := range strings.Fields(a) {
		for _, y := range strings.Fields(b) {
			if x == y {
				return true
			}
		}
	}
	return false
}

func (r *raceLog) conflict() string {
	for _, l := range r.acc {
		for i := range l {
			for j := range l[:i] {
				a, b := &l[i], &l[j]
				if a.thread != b.thread && (a.write || b.write) && a.lo < b.hi && b.lo < a.hi && !commonLock(a.locks, b.locks) {
					return fmt.Sprintf("%s and %s", a.where, b.where)
				}
			}
		}
	}
	return ""
}

type coro struct {
	th      *threadRec
	resume  chan *State // nil: give up
	yield   chan coYield
	blocked string // the lock it waits for
	done    bool
}

type coYield struct {
	st  *State
	err interface{}
	fin bool
}

// coLock: the running goroutine is about to take a lock.
func (e *Exec) coLock(st *State, k string) *State {
	c := e.co
	if c == nil {
		return st
	}
	c.blocked = k
	fn, pos, pure := e.curFn, e.curPos, e.pure
	c.yield <- coYield{st: st}
	s := <-c.resume
	if s == nil {
		panic(pathEnd{})
	}
	s.thread = c.th.id
	e.co, e.curFn, e.curPos, e.pure = c, fn, pos, pure
	return s
}

// runThreads runs the pending goroutines in some order.
func (e *Exec) runThreads(st *State, fr *Frame, pos token.Pos) *State {
	if e.co != nil {
		unsupported("goroutines wait for goroutines")
	}
	old := st.thread
	e.races = &raceLog{e.nobj, map[int][]access{}}
	clones := e.clones
	var cs []*coro
	for _, th := range st.pend {
		cs = append(cs, &coro{th: th, resume: make(chan *State), yield: make(chan coYield)})
	}
	st.pend = nil
	defer func() {
		e.co, e.races = nil, nil
		for _, c := range cs {
			if !c.done && c.blocked != "" {
				c.resume <- nil
				<-c.yield
			}
		}
	}()
	step := func(c *coro) {
		y := <-c.yield
		e.co = nil
		if y.fin {
			c.done = true
		}
		if y.err != nil {
			panic(y.err)
		}
		st = y.st
		if e.clones != clones {
			unsupported("case distinction in a goroutine")
		}
		if len(st.pend) != 0 {
			unsupported("goroutines that start goroutines")
		}
	}
	for _, c := range cs {
		c := c
		st.thread = c.th.id
		e.co = c
		go func(st *State) {
			var y coYield
			y.fin = true
			defer func() {
				if x := recover(); x != nil {
					y = coYield{nil, x, true}
				}
				c.yield <- y
			}()
			outs := e.callFunc(st, fr, c.th.fn, c.th.args, c.th.call, pos)
			if len(outs) != 1 {
				unsupported("case distinction in a goroutine")
			}
			y.st = outs[0].st
		}(st)
		step(c)
	}
	for {
		var run []*coro
		left := 0
		for _, c := range cs {
			if !c.done {
				left++
				if st.ghost[c.blocked] == 0 {
					run = append(run, c)
				}
			}
		}
		if left == 0 {
			break
		}
		if len(run) == 0 {
			e.check(st, e.tb.F, "no deadlock", "the goroutines started by "+fnName(fr.fn)+" do not block each other", pos)
			panic(pathEnd{})
		}
		k := 0
		if len(run) > 1 {
			k = e.choose("next goroutine", len(run))
		}
		c := run[k]
		c.resume <- st
		step(c)
	}
	st.thread = old
	x := e.races.conflict()
	e.races = nil
	e.check(st, e.tb.Bool(x == ""), "no data race", "between the goroutines started by "+fnName(fr.fn), pos)
	if x != "" {
		panic(pathEnd{})
	}
	return st
}

func init() {
	at := func(name string, f func(e *Exec, st *State, p Ptr, args []*Term) Value) {
		intrinsics["sync/atomic."+name] = func(c *callCtx) []Out {
			e := c.e
			p := e.force(c.st, c.args[0]).(Ptr)
			e.nilCheck(c.st, p, "atomic", c.pos)
			c.st = e.coLock(c.st, "atomic")
			var args []*Term
			for _, a := range c.args[1:] {
				args = append(args, e.force(c.st, a).(*Term))
			}
			c.st.setGhost("latomic", c.st.thread+1)
			v := f(e, c.st, p, args)
			c.st.setGhost("latomic", 0)
			if v == nil {
				return c.ret()
			}
			return c.ret(v)
		}
	}
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr"} {
		at("Load"+t, func(e *Exec, st *State, p Ptr, a []*Term) Value { return e.load(st, p) })
		at("Store"+t, func(e *Exec, st *State, p Ptr, a []*Term) Value { e.store(st, p, a[0]); return nil })
		at("Add"+t, func(e *Exec, st *State, p Ptr, a []*Term) Value {
			v := e.tb.Add(e.force(st, e.load(st, p)).(*Term), a[0])
			e.store(st, p, v)
			return v
		})
		at("Swap"+t, func(e *Exec, st *State, p Ptr, a []*Term) Value {
			v := e.load(st, p)
			e.store(st, p, a[0])
			return v
		})
		at("CompareAndSwap"+t, func(e *Exec, st *State, p Ptr, a []*Term) Value {
			v := e.force(st, e.load(st, p)).(*Term)
			c := st.simp(e.tb.Eq(v, a[0]))
			e.store(st, p, e.tb.Ite(c, a[1], v))
			return c
		})
	}
}
