package main

import (
	"math/bits"

	"os"

	"encoding/hex"
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type callCtx struct {
	e    *Exec
	st   *State
	fr   *Frame
	fn   *ssa.Function
	args []Value
	c    *ssa.CallCommon
	pos  token.Pos
}

func (c *callCtx) ret(v ...Value) []Out { return []Out{{c.st, v}} }

func (c *callCtx) str(i int) string {
	s, ok := c.e.strConst(c.e.force(c.st, c.args[i]))
	if !ok {
		unsupported("%s: argument %d is not a known string", c.fn.Name(), i)
	}
	return s
}

func (c *callCtx) int(i int) int {
	return c.e.constInt(c.st, c.term(i), c.fn.Name()+" argument")
}

func (c *callCtx) term(i int) *Term {
	t, ok := c.e.force(c.st, c.args[i]).(*Term)
	if !ok {
		unsupported("%s: argument %d is not a scalar", c.fn.Name(), i)
	}
	return t
}

func (c *callCtx) slice(i int) Slice { return c.e.force(c.st, c.args[i]).(Slice) }

// elements of a variadic slice
func (c *callCtx) elems(i int) []Value {
	s := c.slice(i)
	if s.obj == 0 {
		return nil
	}
	n := c.e.constInt(c.st, s.len, "argument count")
	var out []Value
	for k := 0; k < n; k++ {
		out = append(out, c.e.force(c.st, c.e.load(c.st, c.e.elemPtr(s, c.e.tb.Const(64, uint64(k))))))
	}
	return out
}

var intrinsics = map[string]func(*callCtx) []Out{}

func gvc(name string, f func(*callCtx) []Out) { intrinsics[modPath+"."+name] = f }

func inScalar(w int) func(*callCtx) []Out {
	return func(c *callCtx) []Out {
		n := c.st.inName(c.str(0))
		t := c.e.tb.Var("in."+n, w)
		c.e.input(inputRec{name: n, w: w, t: t})
		return c.ret(t)
	}
}

func (e *Exec) input(r inputRec) {
	for _, x := range e.inputs {
		if x.name == r.name && x.kind == r.kind && x.w == r.w {
			return
		}
	}
	e.inputs = append(e.inputs, r)
}

// apply an uninterpreted function to strings
func (e *Exec) applyTerm(name string, w int, args []Value) *Term {
	var s Str
	for _, a := range args {
		x, ok := a.(Str)
		if !ok {
			unsupported("gvcApply argument %T", a)
		}
		s = e.strCat(s, x)
	}
	return e.applyStr(name, w, s)
}

func (e *Exec) applyStr(name string, w int, s Str) *Term {
	shape := ""
	for _, p := range s.p {
		if p.t != nil {
			shape += "b"
		} else {
			shape += "o"
		}
	}
	if shape != "b" {
		name += ":" + shape
	}
	return e.tb.App(name, w, e.strKey(s)...)
}

// For debugging: GVC_ONLY="n=1,d=3" explores only those choices.
func onlyChoice(name string) int {
	for _, s := range strings.Split(os.Getenv("GVC_ONLY"), ",") {
		if strings.HasPrefix(s, name+"=") {
			k, _ := strconv.Atoi(s[len(name)+1:])
			return k
		}
	}
	return -1
}

// choose: one job for each of the n possibilities
func (e *Exec) choose(name string, n int) int {
	var k int
	if len(e.taken) < len(e.prefix) {
		k = e.prefix[len(e.taken)]
	} else {
		only := onlyChoice(name)
		if only > 0 && only < n {
			k = only
		}
		for j := 1; j < n && only < 0; j++ {
			e.spawned = append(e.spawned, append(append([]int(nil), e.taken...), j))
		}
	}
	e.taken = append(e.taken, k)
	e.choices = append(e.choices, fmt.Sprintf("%s=%d", name, k))
	return k
}

func init() {
	gvc("gvcSymbolic", func(c *callCtx) []Out { return c.ret(c.e.tb.T) })
	gvc("gvcOpaque", func(c *callCtx) []Out { return c.ret(c.e.tb.Bool(!c.e.noContr)) })
	gvc("gvcThorough", func(c *callCtx) []Out { return c.ret(c.e.tb.Bool(c.e.thorough)) })
	gvc("gvcChoose", func(c *callCtx) []Out {
		return c.ret(c.e.tb.Const(64, uint64(c.e.choose(c.str(0), c.int(1)))))
	})
	gvc("gvcFork", func(c *callCtx) []Out {
		e := c.e
		n := c.int(1)
		name := c.st.inName(c.str(0))
		t := e.tb.RangeVar("in."+name, 64, 0, uint64(n-1))
		e.input(inputRec{name: name, w: 64, t: t})
		var outs []Out
		for k := 0; k < n; k++ {
			s := c.st
			if k < n-1 {
				s = c.st.clone()
			}
			s.assume(e.tb.Eq(t, e.tb.Const(64, uint64(k))))
			if !s.dead {
				outs = append(outs, Out{s, []Value{e.tb.Const(64, uint64(k))}})
			}
		}
		return outs
	})
	gvc("gvcU8", inScalar(8))
	gvc("gvcU16", inScalar(16))
	gvc("gvcU32", inScalar(32))
	gvc("gvcU64", inScalar(64))
	gvc("gvcInt", inScalar(64))
	gvc("gvcBool", inScalar(0))
	gvc("gvcRange", func(c *callCtx) []Out {
		e := c.e
		n := c.st.inName(c.str(0))
		lo, hi := c.st.subst1(c.term(1)), c.st.subst1(c.term(2))
		var t *Term
		if lo.isConst() && hi.isConst() {
			if lo.k > hi.k {
				return []Out{}
			}
			if lo.k == hi.k {
				t = lo
			} else {
				// no more bits than needed
				v := e.tb.RangeVar("in."+n, bits.Len64(hi.k), lo.k, hi.k)
				e.input(inputRec{name: n, w: 64, t: v})
				return c.ret(e.tb.Zext(v, 64))
			}
		} else {
			t = e.tb.Var("in."+n, 64)
			c.st.assume(e.tb.And(e.tb.Ule(lo, t), e.tb.Ule(t, hi)))
			if c.st.dead {
				return []Out{}
			}
		}
		e.input(inputRec{name: n, w: 64, t: t})
		return c.ret(t)
	})
	gvc("gvcBytes", func(c *callCtx) []Out {
		e := c.e
		n := c.st.inName(c.str(0))
		sz := c.st.subst1(c.term(1))
		s := e.newBytes(c.st, sz, "in."+n)
		c.st.get(s.obj).bytes.base = "in." + n
		e.input(inputRec{name: n, kind: "bytes", base: "in." + n, size: sz})
		return c.ret(s)
	})
	gvc("gvcString", func(c *callCtx) []Out {
		e := c.e
		n := c.st.inName(c.str(0))
		op := e.tb.Var("in."+n, 64)
		ln := e.tb.RangeVar("in."+n+".len", 64, 0, 1<<40)
		e.input(inputRec{name: n, kind: "string", t: op})
		return c.ret(Str{[]Piece{{op: op, ln: ln}}})
	})
	gvc("gvcAssume", func(c *callCtx) []Out {
		t := c.term(0)
		if !c.e.feasible(c.st, t) {
			return []Out{}
		}
		c.st.assume(t)
		if c.st.dead {
			return []Out{}
		}
		return c.ret()
	})
	gvc("gvcAssert", func(c *callCtx) []Out {
		e := c.e
		t := c.args[0]
		label := c.str(1)
		e.check(c.st, c.term(0), "ensures", label, c.pos)
		_ = t
		return c.ret()
	})
	gvc("gvcRequire", func(c *callCtx) []Out {
		c.e.check(c.st, c.term(0), "requires", c.str(1), c.pos)
		return c.ret()
	})
	gvc("gvcReach", func(c *callCtx) []Out {
		e := c.e
		l := c.str(0)
		if e.reach[l] == 0 {
			e.reach[l] = 0
			ok := true
			if len(c.st.pc) > 0 {
				r, _ := e.sol.Check(e.tb, c.st.pc, e.timeout, false)
				ok = r == Sat
			}
			if ok {
				e.reach[l] = 1
			}
		}
		return c.ret()
	})
	gvc("gvcStop", func(c *callCtx) []Out { return []Out{} })
	gvc("gvcApply", func(c *callCtx) []Out {
		n := c.int(1)
		return c.ret(c.e.strOfTerm(c.e.applyTerm(c.str(0), 8*n, c.elems(2))))
	})
	gvc("gvcUnapply", func(c *callCtx) []Out {
		e := c.e
		x := e.force(c.st, c.args[1]).(Str)
		if len(x.p) == 1 && x.p[0].t != nil && x.p[0].t.op == OpApp && x.p[0].t.name == c.str(0) && len(x.p[0].t.args) == 1 {
			return c.ret(e.strOfTerm(x.p[0].t.args[0]), e.tb.T)
		}
		return c.ret(Str{}, e.tb.F)
	})
	gvc("gvcConst", func(c *callCtx) []Out {
		t := c.st.subst1(c.term(0))
		if t.isConst() {
			return c.ret(t, c.e.tb.T)
		}
		return c.ret(c.e.tb.Const(64, 0), c.e.tb.F)
	})
	gvc("gvcWords", func(c *callCtx) []Out {
		p, ok := c.args[0].(Ptr)
		if !ok || len(p.path) == 0 {
			unsupported("gvcWords of %T", c.args[0])
		}
		n := len(p.path) - 1
		off := p.path[n].t
		if off == nil {
			off = c.e.tb.Const(64, uint64(p.path[n].f))
		}
		ln := c.e.tb.Const(64, uint64(c.int(1)))
		return c.ret(Slice{p.obj, p.path[:n:n], off, ln, ln})
	})
	gvc("gvcAsm", func(c *callCtx) []Out {
		p, ok := c.e.force(c.st, c.args[2]).(Ptr)
		q, ok2 := c.e.force(c.st, c.args[3]).(Ptr)
		if !ok || !ok2 {
			unsupported("gvcAsm of %T, %T", c.args[2], c.args[3])
		}
		q.path = append(q.path[:len(q.path):len(q.path)], PathElem{})
		c.e.runAsm(c.st, c.e.ld.dir+"/"+c.str(0), c.str(1), []Ptr{p, q})
		return c.ret()
	})
	gvc("gvcCut", func(c *callCtx) []Out { return c.ret(c.e.tb.cut(c.st.subst1(c.term(0)))) })
	gvc("gvcApplyU64", func(c *callCtx) []Out { return c.ret(c.e.applyTerm(c.str(0), 64, c.elems(1))) })
	gvc("gvcApplyBool", func(c *callCtx) []Out { return c.ret(c.e.applyTerm(c.str(0), 0, c.elems(1))) })
	gvc("gvcXor", func(c *callCtx) []Out {
		e := c.e
		a, b := e.force(c.st, c.args[0]).(Str), e.force(c.st, c.args[1]).(Str)
		if len(a.p) == 0 && len(b.p) == 0 {
			return c.ret(Str{})
		}
		if len(a.p) != 1 || len(b.p) != 1 || a.p[0].t == nil || b.p[0].t == nil || a.p[0].t.w != b.p[0].t.w {
			unsupported("gvcXor of strings of different shape")
		}
		return c.ret(e.strOfTerm(e.tb.BXor(a.p[0].t, b.p[0].t)))
	})
	gvc("gvcBE", func(c *callCtx) []Out {
		e := c.e
		n := c.int(1)
		if n == 0 {
			return c.ret(Str{})
		}
		t := c.term(0)
		if 8*n > 64 {
			t = e.tb.Zext(t, 8*n)
		} else {
			t = e.tb.Extract(t, 0, 8*n)
		}
		return c.ret(e.strOfTerm(t))
	})
	gvc("gvcU64of", func(c *callCtx) []Out {
		e := c.e
		s := e.force(c.st, c.args[0]).(Str)
		if len(s.p) == 0 {
			return c.ret(e.tb.Const(64, 0))
		}
		if len(s.p) != 1 || s.p[0].t == nil {
			unsupported("gvcU64of")
		}
		t := s.p[0].t
		if t.w > 64 {
			return c.ret(e.tb.Extract(t, 0, 64))
		}
		return c.ret(e.tb.Zext(t, 64))
	})
	gvc("gvcHavoc", func(c *callCtx) []Out {
		e := c.e
		s := c.slice(0)
		if s.obj == 0 {
			return c.ret()
		}
		n := e.constInt(c.st, s.len, "havoc length")
		if n > 0 {
			e.writeBytes(c.st, s, e.tb.Const(64, 0), n, e.tb.Mem(e.tb.FreshName("havoc"), e.tb.Const(64, 0), n))
		}
		return c.ret()
	})
	gvc("gvcHavocU64", func(c *callCtx) []Out { return c.ret(c.e.tb.Fresh("havocw", 64)) })
	gvc("gvcAbstractU32", func(c *callCtx) []Out { return c.ret(c.e.tb.Fresh("abstract", 32)) })
	gvc("gvcAbstractU64", func(c *callCtx) []Out { return c.ret(c.e.tb.Fresh("abstract", 64)) })
	gvc("gvcSnapshot", func(c *callCtx) []Out {
		e := c.e
		h := map[int]*Obj{}
		for k, v := range c.st.heap {
			h[k] = v
		}
		e.nobj++
		id := e.nobj
		c.st.heap[id] = &Obj{id: id, name: "snapshot", val: Opaque{"snapshot"}}
		e.snaps[id] = h
		return c.ret(e.tb.Const(64, uint64(id)))
	})
	gvc("gvcUnchanged", func(c *callCtx) []Out { return c.e.unchanged(c) })
	gvc("gvcWatch", func(c *callCtx) []Out { return c.ret() })
	gvc("gvcDisjoint", func(c *callCtx) []Out {
		e := c.e
		r := e.overIte(c.st, c.args[0], func(st *State, x Value) Value {
			return e.overIte(st, c.args[1], func(st *State, y Value) Value {
				a, b := x.(Slice), y.(Slice)
				if a.obj == 0 || b.obj == 0 || a.obj != b.obj {
					return e.tb.T
				}
				z := e.tb.Const(64, 0)
				return e.tb.Or(e.tb.Eq(a.len, z), e.tb.Eq(b.len, z), e.tb.Ule(e.tb.Add(a.off, a.len), b.off), e.tb.Ule(e.tb.Add(b.off, b.len), a.off))
			})
		})
		return c.ret(r.(*Term))
	})
	gvc("gvcRunThreads", func(c *callCtx) []Out {
		return c.e.runPending(c.st, c.fr, c.pos)
	})
	gvc("gvcPending", func(c *callCtx) []Out { return c.ret(c.e.tb.Const(64, uint64(len(c.st.pend)))) })
	gvc("gvcHeld", func(c *callCtx) []Out {
		p := c.e.force(c.st, c.args[0])
		if i, ok := p.(Iface); ok {
			p = i.v
		}
		return c.ret(c.e.tb.Bool(c.st.ghost[lockKey(p.(Ptr))] != 0))
	})
	// gvcNumber: how an unknown number is written.  The parsers of strconv
	// understand it; for everything else it is a piece of text.
	gvc("gvcNumber", func(c *callCtx) []Out {
		t := c.st.subst1(c.term(0))
		if t.isConst() {
			return c.ret(c.e.strLit(strconv.FormatInt(int64(t.k), 10)))
		}
		c.e.numbers = append(c.e.numbers, t)
		return c.ret(c.e.strLit("\x01" + string(rune('A'+len(c.e.numbers)-1))))
	})
	gvc("gvcConcreteStr", func(c *callCtx) []Out {
		_, ok := c.e.strConst(c.e.force(c.st, c.args[0]))
		return c.ret(c.e.tb.Bool(ok))
	})

	// ---- synchronisation
	intrinsics["(*sync.Mutex).Lock"] = func(c *callCtx) []Out { return c.e.lock(c, c.args[0]) }
	intrinsics["(*sync.Mutex).Unlock"] = func(c *callCtx) []Out { return c.e.unlock(c, c.args[0]) }
	intrinsics["(*sync.RWMutex).Lock"] = intrinsics["(*sync.Mutex).Lock"]
	intrinsics["(*sync.RWMutex).Unlock"] = intrinsics["(*sync.Mutex).Unlock"]
	intrinsics["(*sync.RWMutex).RLock"] = intrinsics["(*sync.Mutex).Lock"]
	intrinsics["(*sync.RWMutex).RUnlock"] = intrinsics["(*sync.Mutex).Unlock"]
	intrinsics["sync.NewCond"] = func(c *callCtx) []Out {
		e := c.e
		t := c.fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()
		p := e.alloc(c.st, t, "cond")
		s := t.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == "L" {
				e.store(c.st, Ptr{p.obj, []PathElem{{f: i}}}, c.args[0])
			}
		}
		return c.ret(p)
	}
	intrinsics["(*sync.Cond).Signal"] = func(c *callCtx) []Out { return c.ret() }
	intrinsics["(*sync.Cond).Wait"] = func(c *callCtx) []Out { return c.e.condWait(c) }
	intrinsics["(*sync.WaitGroup).Add"] = func(c *callCtx) []Out {
		p := c.e.force(c.st, c.args[0]).(Ptr)
		k := "wg" + lockKey(p)
		c.st.setGhost(k, c.st.ghost[k]+c.int(1))
		return c.ret()
	}
	intrinsics["(*sync.WaitGroup).Done"] = func(c *callCtx) []Out {
		p := c.e.force(c.st, c.args[0]).(Ptr)
		k := "wg" + lockKey(p)
		if c.st.ghost[k] <= 0 {
			c.e.check(c.st, c.e.tb.F, "no panic", "negative WaitGroup counter in "+fnName(c.fr.fn), c.pos)
			return []Out{}
		}
		c.st.setGhost(k, c.st.ghost[k]-1)
		return c.ret()
	}
	intrinsics["(*sync.WaitGroup).Wait"] = func(c *callCtx) []Out {
		e := c.e
		p := e.force(c.st, c.args[0]).(Ptr)
		k := "wg" + lockKey(p)
		if c.st.ghost[k] == 0 {
			return c.ret()
		}
		if e.sched && len(c.st.pend) > 1 && e.co == nil {
			st := e.runThreads(c.st, c.fr, c.pos)
			e.check(st, e.tb.Bool(st.ghost[k] == 0), "no deadlock", "WaitGroup.Wait in "+fnName(c.fr.fn)+" returns", c.pos)
			if st.ghost[k] != 0 {
				return []Out{}
			}
			return []Out{{st, nil}}
		}
		var outs []Out
		for _, o := range e.runPending(c.st, c.fr, c.pos) {
			e.check(o.st, e.tb.Bool(o.st.ghost[k] == 0), "no deadlock", "WaitGroup.Wait in "+fnName(c.fr.fn)+" returns", c.pos)
			if !o.st.dead {
				outs = append(outs, o)
			}
		}
		return outs
	}
	intrinsics["runtime.NumCPU"] = func(c *callCtx) []Out {
		return c.ret(c.e.tb.Const(64, 4))
	}
	intrinsics["runtime.GOMAXPROCS"] = intrinsics["runtime.NumCPU"]
	intrinsics["sort.Slice"] = func(c *callCtx) []Out { return c.e.sortSlice(c) }
	intrinsics["sort.SliceStable"] = intrinsics["sort.Slice"]
	intrinsics["sort.Ints"] = nil
	delete(intrinsics, "sort.Ints")

	// ---- reflect, as far as the hash precomputation uses it
	intrinsics["reflect.ValueOf"] = func(c *callCtx) []Out {
		i, ok := c.e.force(c.st, c.args[0]).(Iface)
		if !ok {
			unsupported("reflect.ValueOf")
		}
		return c.ret(Reflect{v: i.v, typ: i.typ})
	}
	intrinsics["(reflect.Value).Elem"] = func(c *callCtx) []Out {
		r := c.e.force(c.st, c.args[0]).(Reflect)
		p, ok := c.e.force(c.st, r.v).(Ptr)
		if !ok || r.typ == nil {
			unsupported("reflect.Value.Elem")
		}
		c.e.nilCheck(c.st, p, "reflect Elem", c.pos)
		return c.ret(Reflect{ptr: &p, typ: r.typ.Underlying().(*types.Pointer).Elem()})
	}
	intrinsics["(reflect.Value).Set"] = func(c *callCtx) []Out {
		d := c.e.force(c.st, c.args[0]).(Reflect)
		s := c.e.force(c.st, c.args[1]).(Reflect)
		if d.ptr == nil || s.ptr == nil || !types.Identical(d.typ, s.typ) {
			c.e.check(c.st, c.e.tb.F, "no panic", "reflect.Value.Set in "+fnName(c.fr.fn), c.pos)
			return []Out{}
		}
		c.e.store(c.st, *d.ptr, c.e.load(c.st, *s.ptr))
		return c.ret()
	}
	intrinsics["reflect.DeepEqual"] = func(c *callCtx) []Out {
		a, b := c.e.force(c.st, c.args[0]).(Iface), c.e.force(c.st, c.args[1]).(Iface)
		return c.ret(c.e.deepEq(c.st, a, b))
	}
	intrinsics["reflect.TypeOf"] = func(c *callCtx) []Out { return c.ret(Opaque{"reflect.Type"}) }
}

func lockKey(p Ptr) string {
	k := fmt.Sprint("l", p.obj)
	for _, x := range p.path {
		if x.t != nil {
			k += fmt.Sprint("[", x.t.id, "]")
		} else {
			k += fmt.Sprint(".", x.f)
		}
	}
	return k
}

func (e *Exec) lock(c *callCtx, a Value) []Out {
	p := e.force(c.st, a).(Ptr)
	e.nilCheck(c.st, p, "mutex", c.pos)
	k := lockKey(p)
	c.st = e.coLock(c.st, k)
	if h := c.st.ghost[k]; h != 0 {
		e.check(c.st, e.tb.F, "no deadlock", "mutex is free when "+fnName(c.fr.fn)+" locks it", c.pos)
		return []Out{}
	}
	c.st.setGhost(k, c.st.thread+1)
	return e.monitor(c, c.st, p, false)
}

func (e *Exec) unlock(c *callCtx, a Value) []Out {
	p := e.force(c.st, a).(Ptr)
	e.nilCheck(c.st, p, "mutex", c.pos)
	k := lockKey(p)
	if c.st.ghost[k] == 0 {
		e.check(c.st, e.tb.F, "no panic", "unlock of a locked mutex in "+fnName(c.fr.fn), c.pos)
		return []Out{}
	}
	outs := e.monitor(c, c.st, p, true)
	for _, o := range outs {
		o.st.setGhost(k, 0)
	}
	return outs
}

func (e *Exec) condWait(c *callCtx) []Out {
	p := e.force(c.st, c.args[0]).(Ptr)
	// release the lock, let everybody else run, take it again
	t := c.fn.Signature.Recv().Type().(*types.Pointer).Elem().Underlying().(*types.Struct)
	var l Value
	for i := 0; i < t.NumFields(); i++ {
		if t.Field(i).Name() == "L" {
			l = e.load(c.st, Ptr{p.obj, append(append([]PathElem(nil), p.path...), PathElem{f: i})})
		}
	}
	li, ok := e.force(c.st, l).(Iface)
	if !ok || li.typ == nil {
		unsupported("Cond without Locker")
	}
	k := lockKey(li.v.(Ptr))
	if c.st.ghost[k] == 0 {
		e.check(c.st, e.tb.F, "no panic", "Cond.Wait with the mutex held in "+fnName(c.fr.fn), c.pos)
		return []Out{}
	}
	lp := li.v.(Ptr)
	if c.st.ghost[fmt.Sprint("shared", lp.obj)] != 0 {
		// Others run: what the lock protects may change as the monitor says.
		// (That somebody wakes us up is an obligation of those who change
		// what we wait for.)
		var outs []Out
		c.st.setGhost("waiting", 1)
		for _, o := range e.monitor(c, c.st, lp, true) {
			o.st.setGhost("waiting", 0)
			outs = append(outs, e.monitor(c, o.st, lp, false)...)
		}
		return outs
	}
	if len(c.st.pend) == 0 {
		e.check(c.st, e.tb.F, "no deadlock", "somebody can wake "+fnName(c.fr.fn)+" from Cond.Wait", c.pos)
		return []Out{}
	}
	h := c.st.ghost[k]
	c.st.setGhost(k, 0)
	outs := e.runPending(c.st, c.fr, c.pos)
	for _, o := range outs {
		o.st.setGhost(k, h)
	}
	return outs
}

// runPending runs the goroutines started so far, to completion
func (e *Exec) runPending(st *State, fr *Frame, pos token.Pos) []Out {
	outs := []Out{{st, nil}}
	for guard := 0; ; guard++ {
		if guard > 1000 {
			unsupported("goroutines keep starting goroutines")
		}
		busy := false
		var next []Out
		for _, o := range outs {
			if len(o.st.pend) == 0 {
				next = append(next, o)
				continue
			}
			busy = true
			th := o.st.pend[0]
			o.st.pend = append([]*threadRec(nil), o.st.pend[1:]...)
			old := o.st.thread
			e.schedN++
			o.st.thread = th.id
			for _, q := range e.callFunc(o.st, fr, th.fn, th.args, th.call, pos) {
				q.st.thread = old
				next = append(next, Out{q.st, nil})
			}
		}
		outs = next
		if !busy {
			return outs
		}
	}
}

func (e *Exec) doGo(st *State, fr *Frame, fn Func, args []Value, c *ssa.CallCommon, pos token.Pos) []Out {
	if e.goHook != nil && e.goHook(st, fn, args) {
		return nil
	}
	e.threadN++
	th := &threadRec{fn: fn, args: args, call: c, id: e.threadN}
	st.pend = append(st.pend[:len(st.pend):len(st.pend)], th)
	return nil
}

func (e *Exec) sortSlice(c *callCtx) []Out {
	// insertion sort, with the comparison evaluated symbolically: only for
	// concrete outcomes
	i, ok := e.force(c.st, c.args[0]).(Iface)
	if !ok {
		unsupported("sort.Slice of %T", c.args[0])
	}
	s := e.force(c.st, i.v).(Slice)
	if s.obj == 0 {
		return c.ret()
	}
	n := e.constInt(c.st, s.len, "sort length")
	less := e.force(c.st, c.args[1]).(Func)
	st := c.st
	fail := false
	for a := 1; a < n && !fail; a++ {
		for b := a; b > 0; b-- {
			r := st.simp(e.evalPure(st, less, []Value{e.tb.Const(64, uint64(b)), e.tb.Const(64, uint64(b-1))}).(*Term))
			if r.isFalse() {
				break
			}
			if !r.isTrue() {
				// order depends on unknown data: any permutation is allowed;
				// leave as it is (callers must not rely on the order)
				fail = true
				break
			}
			p, q := e.elemPtr(s, e.tb.Const(64, uint64(b))), e.elemPtr(s, e.tb.Const(64, uint64(b-1)))
			x, y := e.load(st, p), e.load(st, q)
			e.store(st, p, y)
			e.store(st, q, x)
		}
	}
	if fail {
		e.note("sort.Slice with unknown order is left unsorted in " + fnName(c.fr.fn))
	}
	return c.ret()
}

func (e *Exec) note(s string) {
	if e.notes == nil {
		e.notes = map[string]bool{}
	}
	e.notes[s] = true
}

func (e *Exec) deepEq(st *State, a, b Iface) *Term {
	if a.typ == nil || b.typ == nil {
		return e.tb.Bool(a.typ == nil && b.typ == nil)
	}
	if !types.Identical(a.typ, b.typ) {
		return e.tb.F
	}
	switch a.typ.Underlying().(type) {
	case *types.Struct, *types.Basic, *types.Array:
		if hasPtr(a.typ) {
			unsupported("reflect.DeepEqual of %s", a.typ)
		}
		return e.valEq(st, a.v, b.v)
	}
	unsupported("reflect.DeepEqual of %s", a.typ)
	return nil
}

func hasPtr(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasPtr(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return hasPtr(u.Elem())
	}
	return true
}

// ---- frame conditions

func (e *Exec) unchanged(c *callCtx) []Out {
	id := int(c.term(0).k)
	label := c.str(1)
	snap, ok := e.snaps[id]
	if !ok {
		unsupported("unknown snapshot")
	}
	type rng struct{ lo, hi int }
	allow := map[int][]rng{}
	allowAll := map[int]bool{}
	for _, v := range c.elems(2) {
		if i, ok := v.(Iface); ok {
			if i.typ == nil {
				continue
			}
			v = e.force(c.st, i.v)
		}
		switch x := v.(type) {
		case Ptr:
			if x.obj != 0 {
				allowAll[x.obj] = true
			}
		case Slice:
			if x.obj == 0 {
				continue
			}
			o := c.st.get(x.obj)
			off, ln := c.st.subst1(x.off), c.st.subst1(x.len)
			if o.bytes == nil || !off.isConst() || !ln.isConst() {
				allowAll[x.obj] = true
				continue
			}
			allow[x.obj] = append(allow[x.obj], rng{int(off.k), int(off.k + ln.k)})
		}
	}
	for oid, old := range snap {
		now := c.st.heap[oid]
		if now == old || now == nil || allowAll[oid] {
			continue
		}
		name := old.name
		if now.bytes != nil && old.bytes != nil {
			if now.bytes == old.bytes {
				continue
			}
			if !now.bytes.size.isConst() {
				unsupported("frame of an object of unknown size")
			}
			n := int(now.bytes.size.k)
			// intervals not allowed to change
			mark := make([]bool, n+1)
			for _, r := range allow[oid] {
				for i := r.lo; i < r.hi && i < n; i++ {
					mark[i] = true
				}
			}
			for i := 0; i < n; {
				if mark[i] {
					i++
					continue
				}
				j := i
				for j < n && !mark[j] {
					j++
				}
				a := e.bytesRead(c.st, old, e.tb.Const(64, uint64(i)), j-i)
				b := e.bytesRead(c.st, now, e.tb.Const(64, uint64(i)), j-i)
				if a != b {
					e.check(c.st, e.tb.Eq(a, b), "frame", label+": writes outside the declared ranges of "+name, c.pos)
				}
				i = j
			}
			continue
		}
		if old.val != nil && now.val != nil {
			if sameValue(old.val, now.val) {
				continue
			}
			e.check(c.st, e.valEq(c.st, old.val, now.val), "frame", label+": modifies "+name, c.pos)
			continue
		}
		if old.m != nil && now.m != nil && old.m == now.m || old.arr != nil && old.arr == now.arr {
			continue
		}
		e.check(c.st, e.tb.F, "frame", label+": modifies "+name, c.pos)
	}
	// make sure the obligation exists even when nothing was written
	e.check(c.st, e.tb.T, "frame", label, c.pos)
	return c.ret()
}

// ---- natives: library functions on known arguments

func (e *Exec) opaqueStr(hint string) Str {
	op := e.tb.Fresh(hint, 64)
	ln := e.tb.RangeVar(op.name+".len", 64, 0, 1<<32)
	return Str{[]Piece{{op: op, ln: ln}}}
}

func (e *Exec) newErr(st *State, msg Value) Value {
	if e.ld.errType == nil {
		unsupported("no error type")
	}
	o := e.newObj(st, e.ld.errType, "error")
	o.val = Struct{[]Value{msg}}
	return Iface{types.NewPointer(e.ld.errType), Ptr{obj: o.id}}
}

func (c *callCtx) strs(n int) ([]string, bool) {
	var out []string
	for i := 0; i < n; i++ {
		s, ok := c.e.strConst(c.e.force(c.st, c.args[i]))
		if !ok {
			return nil, false
		}
		out = append(out, s)
	}
	return out, true
}

func (c *callCtx) strSliceVal(ss []string) Value {
	e := c.e
	t := types.NewSlice(types.Typ[types.String])
	o := e.newObj(c.st, t, "strings")
	var vs []Value
	for _, s := range ss {
		vs = append(vs, e.strLit(s))
	}
	o.val = Array{vs}
	n := e.tb.Const(64, uint64(len(ss)))
	return Slice{obj: o.id, off: e.tb.Const(64, 0), len: n, cap: n}
}

var natives = map[string]func(*callCtx) []Out{}

func (e *Exec) native(fn *ssa.Function) (func(*callCtx) []Out, bool) {
	name := fn.String()
	if h, ok := natives[name]; ok {
		if e.natives != nil {
			e.natives[name] = true
		}
		return h, true
	}
	if fn.Synthetic == "package initializer" && !e.ld.initialised(fn.Pkg) {
		return func(c *callCtx) []Out { return c.ret() }, true
	}
	return nil, false
}

func init() {
	bool2 := func(f func(a, b string) bool) func(*callCtx) []Out {
		return func(c *callCtx) []Out {
			s, ok := c.strs(2)
			if !ok {
				return c.ret(c.e.tb.Fresh("strtest", 0))
			}
			return c.ret(c.e.tb.Bool(f(s[0], s[1])))
		}
	}
	natives["strings.Contains"] = bool2(strings.Contains)
	natives["strings.HasPrefix"] = bool2(strings.HasPrefix)
	natives["strings.HasSuffix"] = bool2(strings.HasSuffix)
	natives["strings.EqualFold"] = bool2(strings.EqualFold)
	natives["strings.Index"] = func(c *callCtx) []Out {
		s, ok := c.strs(2)
		if !ok {
			unsupported("strings.Index of unknown string")
		}
		return c.ret(c.e.tb.Const(64, uint64(int64(strings.Index(s[0], s[1])))))
	}
	natives["strings.SplitN"] = func(c *callCtx) []Out {
		s, ok := c.strs(2)
		if !ok {
			unsupported("strings.SplitN of unknown string")
		}
		return c.ret(c.strSliceVal(strings.SplitN(s[0], s[1], c.int(2))))
	}
	natives["strings.Split"] = func(c *callCtx) []Out {
		s, ok := c.strs(2)
		if !ok {
			unsupported("strings.Split of unknown string")
		}
		return c.ret(c.strSliceVal(strings.Split(s[0], s[1])))
	}
	str1 := func(f func(a string) string) func(*callCtx) []Out {
		return func(c *callCtx) []Out {
			s, ok := c.strs(1)
			if !ok {
				return c.ret(c.e.opaqueStr("strfn"))
			}
			return c.ret(c.e.strLit(f(s[0])))
		}
	}
	natives["strings.ToLower"] = str1(strings.ToLower)
	natives["strings.ToUpper"] = str1(strings.ToUpper)
	natives["strings.TrimSpace"] = str1(strings.TrimSpace)
	str2 := func(f func(a, b string) string) func(*callCtx) []Out {
		return func(c *callCtx) []Out {
			s, ok := c.strs(2)
			if !ok {
				unsupported("string function of unknown string")
			}
			return c.ret(c.e.strLit(f(s[0], s[1])))
		}
	}
	natives["strings.TrimPrefix"] = str2(strings.TrimPrefix)
	natives["strings.TrimSuffix"] = str2(strings.TrimSuffix)
	natives["strconv.Itoa"] = func(c *callCtx) []Out {
		t := c.st.subst1(c.term(0))
		if !t.isConst() {
			return c.ret(c.e.opaqueStr("itoa"))
		}
		return c.ret(c.e.strLit(strconv.Itoa(int(int64(t.k)))))
	}
	natives["strconv.Atoi"] = func(c *callCtx) []Out {
		s, ok := c.strs(1)
		if !ok {
			// unknown text: an unknown number or an error
			v := c.e.tb.Fresh("atoi", 64)
			b := c.e.tb.Fresh("atoi.ok", 0)
			s2 := c.st.clone()
			c.st.assume(b)
			s2.assume(c.e.tb.Not(b))
			return []Out{{c.st, []Value{v, Iface{}}}, {s2, []Value{c.e.tb.Const(64, 0), c.e.newErr(s2, c.e.strLit("atoi"))}}}
		}
		if o := c.number(s[0], 64, true); o != nil {
			return o
		}
		n, err := strconv.Atoi(s[0])
		var ev Value = Iface{}
		if err != nil {
			ev = c.e.newErr(c.st, c.e.strLit(err.Error()))
		}
		return c.ret(c.e.tb.Const(64, uint64(int64(n))), ev)
	}
	parseU := func(signed bool) func(c *callCtx) []Out {
		return func(c *callCtx) []Out {
			s, ok := c.strs(1)
			if !ok {
				unsupported("strconv.Parse of unknown text")
			}
			base, bits := c.int(1), c.int(2)
			if o := c.number(s[0], bits, signed); o != nil && (base == 0 || base == 10) {
				return o
			}
			var u uint64
			var err error
			if signed {
				var i int64
				i, err = strconv.ParseInt(s[0], base, bits)
				u = uint64(i)
			} else {
				u, err = strconv.ParseUint(s[0], base, bits)
			}
			var ev Value = Iface{}
			if err != nil {
				ev = c.e.newErr(c.st, c.e.strLit(err.Error()))
			}
			return c.ret(c.e.tb.Const(64, u), ev)
		}
	}
	natives["strconv.ParseUint"] = parseU(false)
	natives["strconv.ParseInt"] = parseU(true)
	natives["encoding/hex.DecodeString"] = func(c *callCtx) []Out {
		s, ok := c.strs(1)
		if !ok {
			unsupported("hex.DecodeString of unknown text")
		}
		b, err := hex.DecodeString(s[0])
		var ev Value = Iface{}
		if err != nil {
			ev = c.e.newErr(c.st, c.e.strLit(err.Error()))
		}
		if len(b) == 0 {
			return c.ret(c.e.newBytes(c.st, c.e.tb.Const(64, 0), "hex"), ev)
		}
		return c.ret(c.e.bytesFromTerm(c.st, c.e.tb.BytesConst(b), "hex"), ev)
	}
	natives["encoding/hex.EncodeToString"] = func(c *callCtx) []Out {
		e := c.e
		s := e.sliceToStr(c.st, c.slice(0))
		if len(s.p) == 0 {
			return c.ret(Str{})
		}
		if len(s.p) != 1 || s.p[0].t == nil {
			unsupported("hex of opaque string")
		}
		t := s.p[0].t
		if t.isConst() {
			x, _ := e.strConst(s)
			return c.ret(e.strLit(hex.EncodeToString([]byte(x))))
		}
		// digit by digit
		var ps []*Term
		n := t.w / 4
		for i := 0; i < n; i++ {
			d := e.tb.Zext(e.tb.Extract(t, t.w-4*(i+1), 4), 8)
			ps = append(ps, e.tb.Ite(e.tb.Ult(d, e.tb.Const(8, 10)), e.tb.Add(d, e.tb.Const(8, '0')), e.tb.Add(d, e.tb.Const(8, 'a'-10))))
		}
		return c.ret(e.strOfTerm(e.tb.Concat(ps...)))
	}
	natives["fmt.Sprintf"] = func(c *callCtx) []Out {
		return c.ret(c.e.sprintf(c, 0))
	}
	natives["fmt.Sprint"] = func(c *callCtx) []Out { return c.ret(c.e.opaqueStr("sprint")) }
	natives["fmt.Errorf"] = func(c *callCtx) []Out {
		return c.ret(c.e.newErr(c.st, c.e.sprintf(c, 0)))
	}
	natives["errors.New"] = func(c *callCtx) []Out {
		return c.ret(c.e.newErr(c.st, c.args[0]))
	}
	natives["fmt.Printf"] = func(c *callCtx) []Out { return c.ret(c.e.tb.Const(64, 0), Iface{}) }
	natives["fmt.Println"] = natives["fmt.Printf"]
	natives["(*encoding/base64.Encoding).EncodeToString"] = func(c *callCtx) []Out { return c.ret(c.e.opaqueStr("b64")) }
}

// sprintf formats known arguments; anything unknown makes the text opaque
func (e *Exec) sprintf(c *callCtx, at int) Value {
	f, ok := e.strConst(e.force(c.st, c.args[at]))
	if !ok {
		return e.opaqueStr("fmt")
	}
	// the verb of each argument
	var verbs []byte
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		for i++; i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0; i++ {
		}
		if i < len(f) && (f[i] == '[' || f[i] == '*') {
			return e.opaqueStr("fmt")
		}
		if i < len(f) && f[i] != '%' {
			verbs = append(verbs, f[i])
		}
	}
	var as []interface{}
	for k, v := range c.elems(at + 1) {
		i, ok := v.(Iface)
		if !ok {
			return e.opaqueStr("fmt")
		}
		if i.typ == nil {
			as = append(as, nil)
			continue
		}
		// methods first
		done := false
		for _, m := range []string{"Error", "String"} {
			if k >= len(verbs) || strings.IndexByte("svqxX", verbs[k]) < 0 {
				break // formatted as a number or the like
			}
			sel := e.ld.prog.MethodSets.MethodSet(i.typ).Lookup(nil, m)
			if sel == nil {
				continue
			}
			fn := e.ld.prog.MethodValue(sel)
			if fn == nil || fn.Signature.Params().Len() != 0 {
				continue
			}
			if e.ld.inRepo(fn) || fn.Synthetic != "" {
				r, ok := e.tryPure(c.st, Func{fn: fn}, []Value{i.v})
				if !ok {
					return e.opaqueStr("fmt")
				}
				s, ok := e.strConst(r)
				if !ok {
					return e.opaqueStr("fmt")
				}
				as = append(as, s)
				done = true
				break
			}
			return e.opaqueStr("fmt")
		}
		if done {
			continue
		}
		switch x := e.force(c.st, i.v).(type) {
		case *Term:
			x = c.st.subst1(x)
			if !x.isConst() {
				return e.opaqueStr("fmt")
			}
			w, signed, _ := intWidth(i.typ)
			if w == 0 {
				as = append(as, x.k == 1)
			} else if signed {
				as = append(as, int64(new(big.Int).SetUint64(x.k<<(64-uint(w))).Uint64())>>(64-uint(w)))
			} else {
				as = append(as, x.k)
			}
		case Str:
			s, ok := e.strConst(x)
			if !ok {
				return e.opaqueStr("fmt")
			}
			as = append(as, s)
		default:
			return e.opaqueStr("fmt")
		}
	}
	return e.strLit(fmt.Sprintf(f, as...))
}

func (e *Exec) tryPure(st *State, f Func, args []Value) (v Value, ok bool) {
	defer func() {
		if x := recover(); x != nil {
			switch x.(type) {
			case unsupportedErr, pathEnd:
				v, ok = nil, false
			default:
				panic(x)
			}
		}
	}()
	p := e.pure
	defer func() { e.pure = p }()
	return e.evalPure(st, f, args), true
}

// number: the value of text made by gvcNumber, or an error if it does not fit.
func (c *callCtx) number(s string, bits int, signed bool) []Out {
	e := c.e
	if len(s) != 2 || s[0] != 1 || int(s[1]-'A') >= len(e.numbers) {
		return nil
	}
	t := e.numbers[s[1]-'A']
	if bits == 0 {
		bits = 64
	}
	tb := e.tb
	fits := tb.Bool(true)
	if !signed {
		fits = tb.Slt(t, tb.Const(64, 0))
		fits = tb.Not(fits)
		bits++
	}
	if bits < 64 {
		max := tb.Const(64, 1<<uint(bits-1))
		min := tb.Const(64, -(uint64(1) << uint(bits-1)))
		fits = tb.And(fits, tb.And(tb.Slt(t, max), tb.Not(tb.Slt(t, min))))
	}
	s2 := c.st.clone()
	c.st.assume(fits)
	s2.assume(tb.Not(fits))
	return []Out{{c.st, []Value{t, Iface{}}}, {s2, []Value{tb.Const(64, 0), e.newErr(s2, e.strLit("out of range"))}}}
}
