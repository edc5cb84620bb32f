package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Loop invariants.  A //gvc:loop function states, for the n-th loop (in source
// order) of a function, what the loop changes (gvcLoopVar) and what holds
// whenever its condition is evaluated (gvcInv).  Its parameters are bound to the
// variables of that function by name.  It is called
//
//   - when the loop is reached: gvcInv asserts;
//   - then gvcLoopVar replaces what the loop changes by arbitrary values and
//     gvcInv assumes: one execution of the body from here stands for all;
//   - after that body: gvcInv asserts, and nothing but what was
//     declared with gvcLoopVar may have changed.
//
// Used only by harnesses with the option "loops".  If the function has changed
// such that the invariant does not apply or is not inductive, the harness is undecided.

const (
	loopEntry = 1 + iota
	loopHavoc
	loopBack
)

type cutRec struct {
	pre, cut map[int]*Obj
	ghost    map[string]int
	pend     int
	ranges   map[int][][2]int
}

func (e *Exec) loopCut(st *State, fr *Frame, nb, stop *ssa.BasicBlock) ([]Cont, bool) {
	if !e.loops || !fr.info.loop[nb.Index] {
		return nil, false
	}
	specs := e.ld.loopSpec[fr.fn]
	if len(specs) == 0 {
		return nil, false
	}
	n := loopOrdinal(fr.fn, fr.info, nb)
	var spec *ssa.Function
	for _, s := range specs {
		if s.n == n {
			spec = s.fn
		}
	}
	if spec == nil {
		return nil, false
	}
	if rec := fr.cuts[nb.Index]; rec != nil {
		for _, o := range e.loopCall(st, fr, nb, spec, loopBack, rec) {
			e.loopFrame(o.st, fr, rec, spec)
		}
		return nil, true
	}
	var conts []Cont
	for _, o := range e.loopCall(st, fr, nb, spec, loopEntry, nil) {
		rec := &cutRec{pre: map[int]*Obj{}, ranges: map[int][][2]int{}, ghost: o.st.ghost, pend: len(o.st.pend)}
		for k, v := range o.st.heap {
			rec.pre[k] = v
		}
		for _, h := range e.loopCall(o.st, o.fr, nb, spec, loopHavoc, rec) {
			r2 := *rec
			r2.cut = map[int]*Obj{}
			for k, v := range h.st.heap {
				r2.cut[k] = v
			}
			f := h.fr
			cuts := map[int]*cutRec{}
			for k, v := range f.cuts {
				cuts[k] = v
			}
			cuts[nb.Index] = &r2
			f.cuts = cuts
			conts = append(conts, e.run(h.st, f, nb, 0, stop)...)
		}
	}
	return conts, true
}

func loopOrdinal(fn *ssa.Function, info *fnInfo, nb *ssa.BasicBlock) int {
	pos := func(b *ssa.BasicBlock) token.Pos {
		// the condition, or the first instruction with a position
		for _, in := range b.Instrs {
			if i, ok := in.(*ssa.If); ok && i.Cond.Pos().IsValid() {
				return i.Cond.Pos()
			}
		}
		for _, in := range b.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
		return token.NoPos
	}
	n := 0
	for _, b := range fn.Blocks {
		if b != nb && info.loop[b.Index] && pos(b) < pos(nb) {
			n++
		}
	}
	return n
}

type loopOut struct {
	st *State
	fr *Frame
}

func (e *Exec) loopCall(st *State, fr *Frame, nb *ssa.BasicBlock, spec *ssa.Function, phase int, rec *cutRec) []loopOut {
	if e.loopPhase != 0 {
		unsupported("loop within a loop invariant")
	}
	cells := map[*ssa.Phi]int{}
	var args []Value
	for _, p := range spec.Params {
		v, ok := e.loopBind(st, fr, nb, p, cells)
		if !ok {
			unsupported("loop invariant %s: no variable %s %s in %s", spec.Name(), p.Name(), p.Type(), fr.fn)
		}
		args = append(args, v)
	}
	e.loopPhase, e.loopRec = phase, rec
	outs := func() []Out {
		defer func() { e.loopPhase, e.loopRec = 0, nil }()
		return e.callFn(st, spec, args, nil, fr.depth+1)
	}()
	var r []loopOut
	for i, o := range outs {
		f := fr
		if i+1 < len(outs) || phase == loopHavoc {
			f = fr.clone()
		}
		for phi, id := range cells {
			if phase == loopHavoc {
				f.set(phi, o.st.get(id).val)
			}
			delete(o.st.heap, id)
		}
		r = append(r, loopOut{o.st, f})
	}
	return r
}

func (e *Exec) loopBind(st *State, fr *Frame, nb *ssa.BasicBlock, p *ssa.Parameter, cells map[*ssa.Phi]int) (Value, bool) {
	for _, in := range nb.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if phi.Comment != p.Name() {
			continue
		}
		v := fr.regs[fr.info.idx[phi]]
		if types.Identical(p.Type(), phi.Type()) {
			return v, true
		}
		if pt, ok := p.Type().Underlying().(*types.Pointer); ok && types.Identical(pt.Elem(), phi.Type()) {
			o := e.newObj(st, phi.Type(), "loop variable "+phi.Comment)
			o.val = v
			cells[phi] = o.id
			return Ptr{obj: o.id}, true
		}
		return nil, false
	}
	for _, b := range fr.fn.Blocks {
		for _, in := range b.Instrs {
			a, ok := in.(*ssa.Alloc)
			if !ok || a.Comment != p.Name() || fr.regs[fr.info.idx[a]] == nil {
				continue
			}
			ptr := fr.regs[fr.info.idx[a]]
			if types.Identical(p.Type(), a.Type()) {
				return ptr, true
			}
			if types.Identical(p.Type(), a.Type().Underlying().(*types.Pointer).Elem()) {
				return e.load(st, ptr.(Ptr)), true
			}
		}
		// a variable of an enclosing loop
		for _, in := range b.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if b != nb && fr.info.loop[b.Index] && b.Dominates(nb) && phi.Comment == p.Name() && types.Identical(p.Type(), phi.Type()) {
				return fr.regs[fr.info.idx[phi]], true
			}
		}
	}
	for _, q := range fr.fn.Params {
		if q.Name() == p.Name() && types.Identical(p.Type(), q.Type()) {
			return e.get(st, fr, q), true
		}
	}
	return nil, false
}

// loopFrame: the body changed nothing but what the invariant function declared.
func (e *Exec) loopFrame(st *State, fr *Frame, rec *cutRec, spec *ssa.Function) {
	if len(st.pend) != rec.pend || len(st.ghost) != len(rec.ghost) {
		unsupported("loop with goroutines or locks")
	}
	for k, v := range rec.ghost {
		if st.ghost[k] != v {
			unsupported("loop with goroutines or locks")
		}
	}
	label := "loop of " + fnName(fr.fn) + " changes only what its invariant declares"
	bad := func(o *Obj) { e.check(st, e.tb.F, "loop frame", label+": "+o.name, spec.Pos()) }
	for id, cut := range rec.cut {
		now, pre := st.heap[id], rec.pre[id]
		if now == cut || now == nil || pre == nil {
			continue
		}
		switch {
		case cut.bytes != nil && now.bytes != nil:
			if cut.bytes == now.bytes {
				continue
			}
			if !now.bytes.size.isConst() {
				unsupported("frame of an object of unknown size")
			}
			n := int(now.bytes.size.k)
			rs := append([][2]int(nil), rec.ranges[id]...)
			sort.Slice(rs, func(i, j int) bool { return rs[i][0] < rs[j][0] })
			at := 0
			for _, r := range append(rs, [2]int{n, n}) {
				if at < r[0] {
					a := e.bytesRead(st, cut, e.tb.Const(64, uint64(at)), r[0]-at)
					b := e.bytesRead(st, now, e.tb.Const(64, uint64(at)), r[0]-at)
					if a != b {
						e.check(st, e.tb.Eq(a, b), "loop frame", label+": "+cut.name, spec.Pos())
					}
				}
				if r[1] > at {
					at = r[1]
				}
			}
		case cut.val != nil && now.val != nil && pre.val != nil:
			if c := e.loopValFrame(st, pre.val, cut.val, now.val); !c.isTrue() {
				e.check(st, c, "loop frame", label+": "+cut.name, spec.Pos())
			}
		case cut.m != nil && cut.m == now.m, cut.arr != nil && cut.arr == now.arr:
		default:
			bad(cut)
		}
	}
	e.check(st, e.tb.T, "loop frame", label, spec.Pos())
}

func (e *Exec) loopValFrame(st *State, pre, cut, now Value) *Term {
	if sameValue(pre, cut) {
		if sameValue(cut, now) {
			return e.tb.T
		}
		return e.valEq(st, cut, now)
	}
	if a, ok := pre.(Struct); ok {
		b, ok1 := cut.(Struct)
		c, ok2 := now.(Struct)
		if ok1 && ok2 {
			r := e.tb.T
			for i := range a.f {
				r = e.tb.And(r, e.loopValFrame(st, a.f[i], b.f[i], c.f[i]))
			}
			return r
		}
	}
	if a, ok := pre.(Array); ok {
		b, ok1 := cut.(Array)
		c, ok2 := now.(Array)
		if ok1 && ok2 {
			r := e.tb.T
			for i := range a.e {
				r = e.tb.And(r, e.loopValFrame(st, a.e[i], b.e[i], c.e[i]))
			}
			return r
		}
	}
	return e.tb.T // replaced by an arbitrary value
}

func (e *Exec) arbitrary(t types.Type) Value {
	if n, ok := isByteArray(t); ok && n > 0 {
		return BytesV{n, e.tb.Mem(e.tb.FreshName("loop"), e.tb.Const(64, 0), n)}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w, _, ok := intWidth(t); ok {
			if w == 0 {
				return e.tb.Eq(e.tb.Fresh("loop", 8), e.tb.Const(8, 0))
			}
			return e.tb.Fresh("loop", w)
		}
	case *types.Array:
		var es []Value
		for i := int64(0); i < u.Len(); i++ {
			es = append(es, e.arbitrary(u.Elem()))
		}
		return Array{es}
	}
	unsupported("gvcLoopVar of type %s", t)
	return nil
}

func init() {
	gvc("gvcLoopVar", func(c *callCtx) []Out {
		e := c.e
		if e.loopPhase != loopHavoc {
			return c.ret()
		}
		for _, v := range c.elems(0) {
			i, ok := v.(Iface)
			if !ok || i.typ == nil {
				continue
			}
			switch x := e.force(c.st, i.v).(type) {
			case Ptr:
				e.store(c.st, x, e.arbitrary(i.typ.Underlying().(*types.Pointer).Elem()))
			case Slice:
				if x.obj == 0 {
					continue
				}
				off, n := e.constInt(c.st, x.off, "gvcLoopVar offset"), e.constInt(c.st, x.len, "gvcLoopVar length")
				if o := c.st.get(x.obj); off == 0 && o.bytes != nil && o.bytes.size.isConst() && int(o.bytes.size.k) == n {
					o2 := o.clone()
					o2.bytes = &Bytes{size: o.bytes.size, base: e.tb.FreshName("loop")}
					c.st.heap[x.obj] = o2
				} else if n > 0 {
					e.writeBytes(c.st, x, e.tb.Const(64, 0), n, e.tb.Mem(e.tb.FreshName("loop"), e.tb.Const(64, 0), n))
				}
				e.loopRec.ranges[x.obj] = append(e.loopRec.ranges[x.obj], [2]int{off, off + n})
			default:
				unsupported("gvcLoopVar of %T", x)
			}
		}
		return c.ret()
	})
	gvc("gvcInv", func(c *callCtx) []Out {
		t := c.term(0)
		if c.e.loopPhase == loopHavoc {
			c.st.assume(t)
			if c.st.dead {
				return []Out{}
			}
			return c.ret()
		}
		k := "loop invariant"
		if c.e.loopPhase == loopEntry {
			k = "loop entry"
		}
		c.e.check(c.st, t, k, c.str(1), c.pos)
		return c.ret()
	})
	// gvcSplit: lo <= x <= hi is part of the invariant; the body is verified
	// for each value separately
	gvc("gvcSplit", func(c *callCtx) []Out {
		e := c.e
		x, lo, hi := c.term(1), c.int(2), c.int(3)
		w := x.w
		if e.loopPhase != loopHavoc {
			e.check(c.st, e.tb.And(e.tb.Ule(e.tb.Const(w, uint64(lo)), x), e.tb.Ule(x, e.tb.Const(w, uint64(hi)))), "loop entry", c.str(0)+" is in range", c.pos)
			return c.ret()
		}
		k := lo + e.choose(c.str(0), hi-lo+1)
		c.st.assume(e.tb.Eq(x, e.tb.Const(w, uint64(k))))
		if c.st.dead {
			return []Out{}
		}
		return c.ret()
	})
}

// Lock discipline.  gvcShare(x) makes the fields of *x that a //gvc:guarded
// directive lists accessible only with the mutex held.

type monitorSpec struct {
	typ, mux, lock, unlock string
}

func init() {
	gvc("gvcShare", func(c *callCtx) []Out {
		e := c.e
		v := e.force(c.st, c.args[0])
		if i, ok := v.(Iface); ok {
			v = e.force(c.st, i.v)
		}
		p := v.(Ptr)
		c.st.setGhost(fmt.Sprint("shared", p.obj), 1)
		// what the guarded fields refer to
		o := c.st.get(p.obj)
		s, ok := o.typ.Underlying().(*types.Struct)
		if !ok {
			unsupported("gvcShare of %s", o.typ)
		}
		for i := 0; i < s.NumFields(); i++ {
			if k, ok := e.guardKey(c.st, p.obj, i); ok {
				switch x := e.force(c.st, e.load(c.st, Ptr{p.obj, []PathElem{{f: i}}})).(type) {
				case MapRef:
					e.guardRef(c.st, x.obj, k)
				case Ptr:
					e.guardRef(c.st, x.obj, k)
				}
			}
		}
		return c.ret()
	})
	gvc("gvcBroadcasts", func(c *callCtx) []Out {
		v := c.e.force(c.st, c.args[0])
		if i, ok := v.(Iface); ok {
			v = c.e.force(c.st, i.v)
		}
		p := v.(Ptr)
		return c.ret(c.e.tb.Const(64, uint64(c.st.ghost["bcast"+lockKey(p)])))
	})
	gvc("gvcWaiting", func(c *callCtx) []Out { return c.ret(c.e.tb.Bool(c.st.ghost["waiting"] != 0)) })
	b := func(c *callCtx) []Out {
		p := c.e.force(c.st, c.args[0]).(Ptr)
		k := "bcast" + lockKey(p)
		c.st.setGhost(k, c.st.ghost[k]+1)
		return c.ret()
	}
	intrinsics["(*sync.Cond).Broadcast"] = b
}

func (e *Exec) guardRef(st *State, obj int, key string) {
	if obj != 0 {
		if e.guardRefs == nil {
			e.guardRefs = map[int]string{}
		}
		e.guardRefs[obj] = key
		st.setGhost(fmt.Sprint("shared", obj), 1)
	}
}

func typeName(t types.Type) string {
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

func fieldIndex(t types.Type, name string) int {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

// guardKey: the lock that guards field f of a shared object
func (e *Exec) guardKey(st *State, obj, f int) (string, bool) {
	o := st.get(obj)
	if o == nil || o.typ == nil {
		return "", false
	}
	tn := typeName(o.typ)
	for _, g := range e.ld.guarded {
		if g.typ == tn && fieldIndex(o.typ, g.field) == f {
			m := fieldIndex(o.typ, g.mux)
			if m < 0 {
				return "", false
			}
			return lockKey(Ptr{obj, []PathElem{{f: m}}}), true
		}
	}
	return "", false
}

// lockCheck: an access of what p points at
func (e *Exec) lockCheck(st *State, fr *Frame, p Ptr, what string, pos token.Pos) {
	if e.pure > 0 || p.obj == 0 || len(st.ghost) == 0 || st.ghost[fmt.Sprint("shared", p.obj)] == 0 || !e.ld.inRepo(fr.fn) {
		return
	}
	key, ok := e.guardRefs[p.obj]
	f := ""
	if !ok {
		if len(p.path) == 0 || p.path[0].t != nil {
			return
		}
		key, ok = e.guardKey(st, p.obj, p.path[0].f)
		if !ok {
			return
		}
		f = st.get(p.obj).typ.Underlying().(*types.Struct).Field(p.path[0].f).Name()
	}
	held := st.ghost[key] == st.thread+1
	if f == "" {
		f = st.get(p.obj).name
	}
	e.check(st, e.tb.Bool(held), "lock held", fmt.Sprintf("%s accesses %s with the lock held", fnName(fr.fn), f), pos)
	if !held {
		panic(pathEnd{})
	}
}

// monitor calls the function that stands for what happens when a lock is
// taken or released.
func (e *Exec) monitor(c *callCtx, st *State, p Ptr, unlock bool) []Out {
	if st.ghost[fmt.Sprint("shared", p.obj)] == 0 || len(p.path) == 0 || e.noContr {
		return []Out{{st, nil}}
	}
	o := st.get(p.obj)
	tn := typeName(o.typ)
	for _, m := range e.ld.monitors {
		if m.typ != tn || fieldIndex(o.typ, m.mux) != p.path[len(p.path)-1].f {
			continue
		}
		fn := e.ld.xm.Func(m.lock)
		if unlock {
			fn = e.ld.xm.Func(m.unlock)
		}
		if fn == nil {
			continue
		}
		outs := e.callFn(st, fn, []Value{Ptr{p.obj, p.path[:len(p.path)-1]}}, nil, c.fr.depth+1)
		for i := range outs {
			outs[i].ret = nil
		}
		return outs
	}
	return []Out{{st, nil}}
}
