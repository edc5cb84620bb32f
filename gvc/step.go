package main

import (
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (e *Exec) nilCheck(st *State, p Ptr, what string, pos token.Pos) {
	if p.obj == 0 {
		e.check(st, e.tb.F, "no panic", "nil dereference in "+fnName(e.curFn.fn)+" ("+what+")", pos)
		panic(pathEnd{})
	}
}

func (e *Exec) ptr(st *State, fr *Frame, v ssa.Value) Ptr {
	x := e.force(st, e.get(st, fr, v))
	p, ok := x.(Ptr)
	if !ok {
		unsupported("not a pointer: %T (%s)", x, v)
	}
	return p
}

func (e *Exec) bounds(st *State, c *Term, what string, pos token.Pos) {
	if c.isTrue() {
		return
	}
	e.check(st, c, "no panic", what+" in "+fnName(e.curFn.fn), pos)
}

// step executes a non-control instruction.  nil = done, otherwise outcomes
// whose results are to be bound to the instruction.
func (e *Exec) step(st *State, fr *Frame, in ssa.Instruction) []Out {
	tb := e.tb
	one := func(v Value) []Out { return []Out{{st, []Value{v}}} }
	switch x := in.(type) {
	case *ssa.Alloc:
		p := e.alloc(st, x.Type().Underlying().(*types.Pointer).Elem(), x.Comment)
		if !x.Heap {
			fr.locals = append(fr.locals, p.obj)
		}
		return one(p)
	case *ssa.Call:
		return e.doCall(st, fr, &x.Call, x.Pos())
	case *ssa.BinOp:
		return one(e.binop(st, x.Op, e.get(st, fr, x.X), e.get(st, fr, x.Y), x.X.Type(), x.Y.Type(), x.Pos()))
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			v := e.get(st, fr, x.X)
			if iv, ok := v.(IteV); ok {
				// a pointer that is one of several: merge the loads
				if r, ok := e.loadIte(st, iv); ok {
					return one(r)
				}
			}
			p := e.ptr(st, fr, x.X)
			e.nilCheck(st, p, "load", x.Pos())
			if e.ld.guarded != nil {
				e.lockCheck(st, fr, p, "load", x.Pos())
			}
			return one(e.load(st, p))
		case token.NOT:
			return one(tb.Not(e.term(st, fr, x.X)))
		case token.SUB:
			return one(tb.Neg(e.term(st, fr, x.X)))
		case token.XOR:
			return one(tb.BNot(e.term(st, fr, x.X)))
		}
		unsupported("unary %s", x.Op)
	case *ssa.Store:
		p := e.ptr(st, fr, x.Addr)
		e.nilCheck(st, p, "store", x.Pos())
		if e.ld.guarded != nil {
			e.lockCheck(st, fr, p, "store", x.Pos())
		}
		e.store(st, p, e.get(st, fr, x.Val))
		return nil
	case *ssa.FieldAddr:
		p := e.ptr(st, fr, x.X)
		e.nilCheck(st, p, "field "+fieldName(x.X.Type(), x.Field), x.Pos())
		np := Ptr{p.obj, append(append([]PathElem(nil), p.path...), PathElem{f: x.Field})}
		return one(np)
	case *ssa.Field:
		v := e.force(st, e.get(st, fr, x.X))
		s, ok := v.(Struct)
		if !ok {
			unsupported("field of %T", v)
		}
		return one(s.f[x.Field])
	case *ssa.IndexAddr:
		idx := e.idx64(st, fr, x.Index)
		v := e.get(st, fr, x.X)
		if iv, ok := v.(IteV); ok {
			if _, ok := iv.a.(Slice); ok {
				return one(e.overIte(st, v, func(st *State, v Value) Value {
					s := v.(Slice)
					e.bounds(st, tb.Ult(idx, s.len), "index in range", x.Pos())
					return e.elemPtr(s, idx)
				}))
			}
		}
		v = e.force(st, v)
		switch s := v.(type) {
		case Slice:
			e.bounds(st, tb.Ult(idx, s.len), "index in range", x.Pos())
			return one(e.elemPtr(s, idx))
		case Ptr:
			e.nilCheck(st, s, "index", x.Pos())
			at := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			e.bounds(st, tb.Ult(idx, tb.Const(64, uint64(at.Len()))), "index in range", x.Pos())
			pe := PathElem{t: idx}
			if idx.isConst() {
				pe = PathElem{f: int(idx.k)}
			}
			return one(Ptr{s.obj, append(append([]PathElem(nil), s.path...), pe)})
		}
		unsupported("IndexAddr of %T", v)
	case *ssa.Index:
		idx := e.idx64(st, fr, x.Index)
		v := e.force(st, e.get(st, fr, x.X))
		switch s := v.(type) {
		case Array:
			e.bounds(st, tb.Ult(idx, tb.Const(64, uint64(len(s.e)))), "index in range", x.Pos())
			return one(e.nav(st, s, []PathElem{{t: idx}}))
		case BytesV:
			e.bounds(st, tb.Ult(idx, tb.Const(64, uint64(s.n))), "index in range", x.Pos())
			return one(e.nav(st, s, []PathElem{{t: idx}}))
		case Str:
			return one(e.strIndex(st, s, idx, x.Pos()))
		}
		unsupported("Index of %T", v)
	case *ssa.Lookup:
		v := e.force(st, e.get(st, fr, x.X))
		if s, ok := v.(Str); ok {
			return one(e.strIndex(st, s, e.idx64(st, fr, x.Index), x.Pos()))
		}
		m, ok := v.(MapRef)
		if !ok {
			unsupported("lookup in %T", v)
		}
		mt := x.X.Type().Underlying().(*types.Map)
		e.lockCheck(st, fr, Ptr{obj: m.obj}, "lookup", x.Pos())
		val, present := e.mapGet(st, m, e.get(st, fr, x.Index), mt)
		if x.CommaOk {
			return one(Tuple{val, present})
		}
		return one(val)
	case *ssa.MapUpdate:
		m, ok := e.force(st, e.get(st, fr, x.Map)).(MapRef)
		if !ok || m.obj == 0 {
			e.check(st, tb.F, "no panic", "assignment to nil map in "+fnName(fr.fn), x.Pos())
			panic(pathEnd{})
		}
		e.lockCheck(st, fr, Ptr{obj: m.obj}, "update", x.Pos())
		e.mapPut(st, m, e.get(st, fr, x.Key), tb.T, e.get(st, fr, x.Value))
		return nil
	case *ssa.MakeMap:
		o := e.newObj(st, x.Type(), "map")
		o.m = &MapData{}
		e.noteWrite(st, o.id)
		return one(MapRef{o.id})
	case *ssa.MakeSlice:
		el := x.Type().Underlying().(*types.Slice).Elem()
		ln, cp := e.idx64(st, fr, x.Len), e.idx64(st, fr, x.Cap)
		e.bounds(st, tb.Ule(ln, cp), "makeslice length", x.Pos())
		e.bounds(st, tb.Ule(cp, tb.Const(64, 1<<40)), "makeslice size", x.Pos())
		return one(e.makeSlice(st, el, ln, cp, fnName(fr.fn)+".make"))
	case *ssa.MakeInterface:
		v := e.get(st, fr, x.X)
		return one(Iface{x.X.Type(), v})
	case *ssa.MakeClosure:
		var b []Value
		for _, y := range x.Bindings {
			b = append(b, e.get(st, fr, y))
		}
		return one(Func{fn: x.Fn.(*ssa.Function), binds: b})
	case *ssa.ChangeType:
		return one(e.get(st, fr, x.X))
	case *ssa.ChangeInterface:
		return one(e.get(st, fr, x.X))
	case *ssa.Convert:
		return one(e.convert(st, e.get(st, fr, x.X), x.X.Type(), x.Type(), x.Pos()))
	case *ssa.SliceToArrayPointer:
		s := e.force(st, e.get(st, fr, x.X)).(Slice)
		n := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		e.bounds(st, tb.Ule(tb.Const(64, uint64(n)), s.len), "slice to array conversion", x.Pos())
		unsupported("slice to array pointer conversion")
	case *ssa.Slice:
		return one(e.sliceOp(st, fr, x))
	case *ssa.TypeAssert:
		return one(e.typeAssert(st, e.force(st, e.get(st, fr, x.X)), x))
	case *ssa.Extract:
		v := e.force(st, e.get(st, fr, x.Tuple))
		t, ok := v.(Tuple)
		if !ok {
			unsupported("extract of %T", v)
		}
		return one(t[x.Index])
	case *ssa.Range:
		v := e.force(st, e.get(st, fr, x.X))
		switch s := v.(type) {
		case Str:
			return one(&RangeIter{isStr: true, str: s})
		case MapRef:
			e.lockCheck(st, fr, Ptr{obj: s.obj}, "range", x.Pos())
			return one(e.mapRange(st, s, x.X.Type().Underlying().(*types.Map)))
		}
		unsupported("range over %T", v)
	case *ssa.Next:
		it := e.get(st, fr, x.Iter).(*RangeIter)
		return e.next(st, fr, x, it)
	case *ssa.Defer:
		fn, args := e.callee(st, fr, &x.Call, x.Pos())
		fr.defers = append(fr.defers, deferred{fn, args, &x.Call})
		return nil
	case *ssa.RunDefers:
		outs := []Out{{st, nil}}
		ds := fr.defers
		fr.defers = nil
		for i := len(ds) - 1; i >= 0; i-- {
			var next []Out
			for _, o := range outs {
				for _, q := range e.callFunc(o.st, fr, ds[i].fn, ds[i].args, ds[i].call, x.Pos()) {
					next = append(next, Out{q.st, nil})
				}
			}
			outs = next
		}
		if len(outs) == 0 {
			return []Out{}
		}
		return outs
	case *ssa.Go:
		fn, args := e.callee(st, fr, &x.Call, x.Pos())
		return e.doGo(st, fr, fn, args, &x.Call, x.Pos())
	}
	unsupported("instruction %T: %s", in, in)
	return nil
}

func fieldName(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if s, ok := t.Underlying().(*types.Struct); ok {
		return s.Field(i).Name()
	}
	return "?"
}

func (e *Exec) loadIte(st *State, iv IteV) (Value, bool) {
	var leafs func(v Value) (Value, bool)
	leafs = func(v Value) (Value, bool) {
		v = e.resolve(st, v)
		switch p := v.(type) {
		case Ptr:
			if p.obj == 0 {
				return nil, false
			}
			return e.load(st, p), true
		case IteV:
			a, ok := leafs(p.a)
			if !ok {
				return nil, false
			}
			b, ok := leafs(p.b)
			if !ok {
				return nil, false
			}
			if !plainMerge(a, b) {
				return nil, false
			}
			return e.ite(p.c, a, b), true
		}
		return nil, false
	}
	return leafs(iv)
}

func (e *Exec) idx64(st *State, fr *Frame, v ssa.Value) *Term {
	t := e.term(st, fr, v)
	_, signed, _ := intWidth(v.Type())
	if t.w < 64 {
		if signed {
			t = e.tb.Sext(t, 64)
		} else {
			t = e.tb.Zext(t, 64)
		}
	}
	return st.subst1(t)
}

func (e *Exec) strIndex(st *State, s Str, idx *Term, pos token.Pos) *Term {
	e.bounds(st, e.tb.Ult(idx, e.strLen(s)), "string index in range", pos)
	idx = st.subst1(idx)
	if idx.isConst() {
		return e.strSlice(s, int(idx.k), int(idx.k)+1).p[0].t
	}
	if len(s.p) == 1 && s.p[0].t != nil {
		return e.nav(st, BytesV{s.p[0].t.w / 8, s.p[0].t}, []PathElem{{t: idx}}).(*Term)
	}
	unsupported("symbolic index into an opaque string")
	return nil
}

func (e *Exec) boolT(c bool) *Term { return e.tb.Bool(c) }

func (e *Exec) binop(st *State, op token.Token, a, b Value, ta, tb_ types.Type, pos token.Pos) Value {
	tb := e.tb
	switch op {
	case token.EQL:
		return e.valEq(st, a, b)
	case token.NEQ:
		return tb.Not(e.valEq(st, a, b))
	}
	a, b = e.force(st, a), e.force(st, b)
	if x, ok := a.(Str); ok {
		y := b.(Str)
		switch op {
		case token.ADD:
			return e.strCat(x, y)
		}
		sx, ok1 := e.strConst(x)
		sy, ok2 := e.strConst(y)
		if ok1 && ok2 {
			switch op {
			case token.LSS:
				return tb.Bool(sx < sy)
			case token.LEQ:
				return tb.Bool(sx <= sy)
			case token.GTR:
				return tb.Bool(sx > sy)
			case token.GEQ:
				return tb.Bool(sx >= sy)
			}
		}
		unsupported("string comparison %s", op)
	}
	x, ok1 := a.(*Term)
	y, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		unsupported("binary %s on %T, %T", op, a, b)
	}
	_, signed, _ := intWidth(ta)
	switch op {
	case token.ADD:
		return tb.Add(x, y)
	case token.SUB:
		return tb.Sub(x, y)
	case token.MUL:
		return tb.Mul(x, y)
	case token.QUO, token.REM:
		e.bounds(st, tb.Not(tb.Eq(y, tb.Const(y.w, 0))), "division by zero", pos)
		y = st.subst1(y)
		if signed {
			if op == token.QUO {
				return tb.Sdiv(x, y)
			}
			return tb.Srem(x, y)
		}
		if op == token.QUO {
			return tb.Udiv(x, y)
		}
		return tb.Urem(x, y)
	case token.AND:
		if x.w == 0 {
			return tb.And(x, y)
		}
		return tb.BAnd(x, y)
	case token.OR:
		if x.w == 0 {
			return tb.Or(x, y)
		}
		return tb.BOr(x, y)
	case token.XOR:
		return tb.BXor(x, y)
	case token.AND_NOT:
		return tb.BAnd(x, tb.BNot(y))
	case token.SHL, token.SHR:
		_, ys, _ := intWidth(tb_)
		if ys {
			e.bounds(st, tb.Sle(tb.Const(y.w, 0), y), "negative shift", pos)
		}
		y = st.subst1(y)
		w := x.w
		var sh *Term
		big := tb.F
		if y.w > w {
			big = tb.Ule(tb.Const(y.w, uint64(w)), y)
			sh = tb.Extract(y, 0, w)
		} else {
			sh = tb.Zext(y, w)
		}
		big = st.simp(big)
		var r, over *Term
		switch {
		case op == token.SHL:
			over = tb.Const(w, 0)
			if !big.isTrue() {
				r = tb.Shl(x, sh)
			}
		case signed:
			over = tb.Ashr(x, tb.Const(w, uint64(w-1)))
			if !big.isTrue() {
				r = tb.Ashr(x, sh)
			}
		default:
			over = tb.Const(w, 0)
			if !big.isTrue() {
				r = tb.Lshr(x, sh)
			}
		}
		if big.isTrue() {
			return over
		}
		return tb.Ite(big, over, r)
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if op == token.GTR || op == token.GEQ {
			x, y = y, x
		}
		if op == token.LSS || op == token.GTR {
			if signed {
				return tb.Slt(x, y)
			}
			return tb.Ult(x, y)
		}
		if signed {
			return tb.Sle(x, y)
		}
		return tb.Ule(x, y)
	}
	unsupported("binary %s", op)
	return nil
}

// equality of values as a boolean term
func (e *Exec) valEq(st *State, a, b Value) *Term {
	tb := e.tb
	a, b = e.resolve(st, a), e.resolve(st, b)
	if x, ok := a.(IteV); ok {
		return tb.Ite(x.c, e.valEq(st, x.a, b), e.valEq(st, x.b, b))
	}
	if y, ok := b.(IteV); ok {
		return tb.Ite(y.c, e.valEq(st, a, y.a), e.valEq(st, a, y.b))
	}
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok {
			unsupported("compare %T %T", a, b)
		}
		return st.simp(tb.Eq(x, y))
	case Ptr:
		y, ok := b.(Ptr)
		if !ok {
			unsupported("compare %T %T", a, b)
		}
		if x.obj != y.obj {
			return tb.F
		}
		if len(x.path) != len(y.path) {
			return tb.F
		}
		r := tb.T
		for i := range x.path {
			r = tb.And(r, tb.Eq(e.elemTerm(x.path[i]), e.elemTerm(y.path[i])))
		}
		return r
	case Slice: // only against nil
		y, ok := b.(Slice)
		if !ok {
			unsupported("compare slice with %T", b)
		}
		if y.obj == 0 {
			return tb.Bool(x.obj == 0)
		}
		if x.obj == 0 {
			return tb.Bool(y.obj == 0)
		}
		if sameValue(a, b) {
			return tb.T
		}
		unsupported("slice comparison")
	case Str:
		y, ok := b.(Str)
		if !ok {
			unsupported("compare %T %T", a, b)
		}
		return e.strEq(x, y)
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			unsupported("compare %T %T", a, b)
		}
		if x.typ == nil || y.typ == nil {
			return tb.Bool(x.typ == nil && y.typ == nil)
		}
		if !types.Identical(x.typ, y.typ) {
			return tb.F
		}
		return e.valEq(st, x.v, y.v)
	case Struct:
		y, ok := b.(Struct)
		if !ok || len(x.f) != len(y.f) {
			unsupported("compare struct %T", b)
		}
		r := tb.T
		for i := range x.f {
			r = tb.And(r, e.valEq(st, x.f[i], y.f[i]))
			if r.isFalse() {
				return r
			}
		}
		return r
	case Array:
		y := b.(Array)
		r := tb.T
		for i := range x.e {
			r = tb.And(r, e.valEq(st, x.e[i], y.e[i]))
		}
		return r
	case BytesV:
		y := b.(BytesV)
		if x.n == 0 {
			return tb.T
		}
		return st.simp(tb.Eq(x.t, y.t))
	case MapRef:
		y := b.(MapRef)
		return tb.Bool(x.obj == y.obj)
	case Func:
		y := b.(Func)
		nx, ny := x.fn == nil && x.bi == "", y.fn == nil && y.bi == ""
		if nx || ny {
			return tb.Bool(nx && ny)
		}
		return tb.Bool(sameValue(x, y))
	case Tuple:
		y := b.(Tuple)
		r := tb.T
		for i := range x {
			r = tb.And(r, e.valEq(st, x[i], y[i]))
		}
		return r
	case Opaque:
		return tb.Bool(sameValue(a, b))
	case UnsafePtr:
		return tb.Bool(sameValue(a, b))
	case Reflect:
		return tb.Bool(sameValue(a, b))
	}
	unsupported("compare %T", a)
	return nil
}

func (e *Exec) convert(st *State, v Value, from, to types.Type, pos token.Pos) Value {
	tb := e.tb
	wf, sf, okf := intWidth(from)
	wt, _, okt := intWidth(to)
	_ = wf
	if okf && okt {
		x := e.force(st, v).(*Term)
		if wt <= x.w {
			return tb.Zext(x, wt)
		}
		if sf {
			return tb.Sext(x, wt)
		}
		return tb.Zext(x, wt)
	}
	tu := to.Underlying()
	fu := from.Underlying()
	if b, ok := tu.(*types.Basic); ok && b.Info()&types.IsString != 0 {
		if s, ok := fu.(*types.Slice); ok && isByte(s.Elem()) {
			return e.overIte(st, v, func(st *State, v Value) Value { return e.sliceToStr(st, v.(Slice)) })
		}
		if okf {
			x := e.force(st, v).(*Term)
			if x.isConst() {
				return e.strLit(string(rune(x.k)))
			}
			unsupported("rune to string")
		}
		return v
	}
	if s, ok := tu.(*types.Slice); ok && isByte(s.Elem()) {
		if b, ok := fu.(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return e.strToSlice(st, e.force(st, v).(Str))
		}
	}
	if b, ok := tu.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		if up, ok := v.(UnsafePtr); ok {
			return up
		}
		if t, ok := v.(*Term); ok {
			return UnsafePtr{t}
		}
		return UnsafePtr{v}
	}
	if fb, ok := fu.(*types.Basic); ok && fb.Kind() == types.UnsafePointer {
		up, ok := v.(UnsafePtr)
		if !ok {
			unsupported("unsafe conversion of %T", v)
		}
		return e.fromUnsafe(st, up, to)
	}
	if _, ok := v.(Opaque); ok {
		return v
	}
	unsupported("conversion %s -> %s", from, to)
	return nil
}

func (e *Exec) fromUnsafe(st *State, up UnsafePtr, to types.Type) Value {
	if pt, ok := to.Underlying().(*types.Pointer); ok {
		if p, ok := up.p.(Ptr); ok {
			// *[n]uint64 at an element of a []uint64 or array: keep the pointer
			_ = pt
			return p
		}
		if up.p == nil {
			return Ptr{}
		}
	}
	if w, _, ok := intWidth(to); ok && w == 64 {
		if p, ok := up.p.(Ptr); ok {
			// the numeric address: an unknown word, 8-byte aligned; every
			// alignment within 32 bytes is a job of its own
			o := st.get(p.obj)
			off, ok := byteOffset(o.typ, p.path)
			if !ok {
				unsupported("address within an object of type %s", o.typ)
			}
			key := "align" + itoa(p.obj)
			al, ok := st.ghost[key]
			if !ok {
				al = e.choose("alignment", 4)
				st.setGhost(key, al)
			}
			return e.tb.Add(e.tb.Concat(e.tb.Var("addr"+itoa(p.obj), 59), e.tb.Const(5, uint64(8*al))), e.tb.Const(64, uint64(off)))
		}
	}
	unsupported("unsafe conversion to %s", to)
	return nil
}

// byteOffset is where path leads within a value of type t.
func byteOffset(t types.Type, path []PathElem) (off int64, ok bool) {
	sz := types.SizesFor("gc", "amd64")
	for _, p := range path {
		if p.t != nil || t == nil {
			return 0, false
		}
		switch u := t.Underlying().(type) {
		case *types.Struct:
			var fs []*types.Var
			for i := 0; i < u.NumFields(); i++ {
				fs = append(fs, u.Field(i))
			}
			off += sz.Offsetsof(fs)[p.f]
			t = u.Field(p.f).Type()
		case *types.Array:
			off += int64(p.f) * sz.Sizeof(u.Elem())
			t = u.Elem()
		default:
			return 0, false
		}
	}
	return off, true
}

func itoa(i int) string { return big.NewInt(int64(i)).String() }

func (e *Exec) sliceToStr(st *State, s Slice) Str {
	if s.obj == 0 {
		return Str{}
	}
	ln := st.subst1(s.len)
	if !ln.isConst() {
		// unknown length: an opaque string determined by content
		o := st.get(s.obj)
		if o.bytes != nil && o.bytes.base != "" && len(o.bytes.segs) == 0 && len(o.bytes.log) == 0 {
			op := e.tb.App("slice:"+o.bytes.base, 64, s.off, ln)
			return Str{[]Piece{{op: op, ln: ln}}}
		}
		n := e.constInt(st, ln, "string conversion length")
		ln = e.tb.Const(64, uint64(n))
	}
	if ln.k == 0 {
		return Str{}
	}
	if ln.k > 1<<22 {
		unsupported("string conversion of %d bytes", ln.k)
	}
	return e.strOfTerm(e.readBytes(st, s, e.tb.Const(64, 0), int(ln.k)))
}

func (e *Exec) strToSlice(st *State, s Str) Slice {
	if len(s.p) == 0 {
		return e.bytesFromTerm(st, nil, "bytes")
	}
	if len(s.p) == 1 && s.p[0].t != nil {
		return e.bytesFromTerm(st, s.p[0].t, "bytes")
	}
	// opaque content of unknown length
	var ks []*Term
	name := "strbytes"
	for _, k := range e.strKey(s) {
		ks = append(ks, k)
		name += "_" + itoa(k.id)
	}
	sl := e.newBytes(st, e.strLen(s), "bytes")
	st.get(sl.obj).bytes.base = name
	return sl
}

func (e *Exec) sliceOp(st *State, fr *Frame, x *ssa.Slice) Value {
	tb := e.tb
	v := e.get(st, fr, x.X)
	lo := tb.Const(64, 0)
	if x.Low != nil {
		lo = e.idx64(st, fr, x.Low)
	}
	var hi, mx *Term
	if x.High != nil {
		hi = e.idx64(st, fr, x.High)
	}
	if x.Max != nil {
		mx = e.idx64(st, fr, x.Max)
	}
	return e.overIte(st, v, func(st *State, v Value) Value { return e.sliceOp1(st, x, v, lo, hi, mx) })
}

// overIte computes a function without side effects of a value that may be
// one of several, without splitting the path.
func (e *Exec) overIte(st *State, v Value, f func(st *State, v Value) Value) Value {
	v = e.resolve(st, v)
	iv, ok := v.(IteV)
	if !ok {
		return f(st, v)
	}
	sa, sb := st.clone(), st.clone()
	sa.assume(iv.c)
	sb.assume(e.tb.Not(iv.c))
	switch {
	case sa.dead && sb.dead:
		panic(pathEnd{})
	case sa.dead:
		return e.overIte(st, iv.b, f)
	case sb.dead:
		return e.overIte(st, iv.a, f)
	}
	a := e.overIte(sa, iv.a, f)
	b := e.overIte(sb, iv.b, f)
	return e.ite(iv.c, a, b)
}

func (e *Exec) sliceOp1(st *State, x *ssa.Slice, v Value, lo, hi, mx *Term) Value {
	tb := e.tb
	switch s := v.(type) {
	case Str:
		n := e.strLen(s)
		if hi == nil {
			hi = n
		}
		e.bounds(st, tb.And(tb.Ule(lo, hi), tb.Ule(hi, n)), "string slice bounds", x.Pos())
		l, h := e.constInt(st, lo, "string slice bound"), 0
		if st.subst1(hi) == n && l == 0 {
			return s
		}
		h = e.constInt(st, hi, "string slice bound")
		return e.strSlice(s, l, h)
	case Slice:
		if hi == nil {
			hi = s.len
		}
		if mx == nil {
			mx = s.cap
		}
		e.bounds(st, tb.And(tb.Ule(lo, hi), tb.Ule(hi, mx), tb.Ule(mx, s.cap)), "slice bounds", x.Pos())
		return Slice{s.obj, s.path, tb.Add(s.off, lo), tb.Sub(hi, lo), tb.Sub(mx, lo)}
	case Ptr:
		e.nilCheck(st, s, "slice", x.Pos())
		at := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		n := tb.Const(64, uint64(at.Len()))
		if hi == nil {
			hi = n
		}
		if mx == nil {
			mx = n
		}
		e.bounds(st, tb.And(tb.Ule(lo, hi), tb.Ule(hi, mx), tb.Ule(mx, n)), "slice bounds", x.Pos())
		// pointer into the middle of an array of arrays keeps its path; the
		// pointer may also be an element pointer obtained by unsafe casts
		if k := len(s.path); k > 0 && e.isElemOf(st, s) {
			pe := s.path[k-1]
			return Slice{s.obj, s.path[:k-1], tb.Add(e.elemTerm(pe), lo), tb.Sub(hi, lo), tb.Sub(mx, lo)}
		}
		return Slice{s.obj, s.path, lo, tb.Sub(hi, lo), tb.Sub(mx, lo)}
	}
	unsupported("slicing %T", v)
	return nil
}

// p points to a scalar element of an array (and was cast to an array pointer)
func (e *Exec) isElemOf(st *State, p Ptr) bool {
	o := st.get(p.obj)
	if o.bytes != nil || o.arr != nil {
		return true
	}
	v := e.nav(st, o.val, p.path)
	_, ok := v.(*Term)
	return ok
}

func (e *Exec) typeAssert(st *State, v Value, x *ssa.TypeAssert) Value {
	i, ok := v.(Iface)
	if !ok {
		unsupported("type assertion on %T", v)
	}
	match := false
	if i.typ != nil {
		if it, ok := x.AssertedType.Underlying().(*types.Interface); ok {
			match = types.Implements(i.typ, it)
		} else {
			match = types.Identical(i.typ, x.AssertedType)
		}
	}
	var r Value
	if match {
		if types.IsInterface(x.AssertedType) {
			r = i
		} else {
			r = i.v
		}
	} else {
		if !x.CommaOk {
			e.check(st, e.tb.F, "no panic", "type assertion in "+fnName(e.curFn.fn), x.Pos())
			panic(pathEnd{})
		}
		r = e.zero(x.AssertedType)
	}
	if x.CommaOk {
		return Tuple{r, e.tb.Bool(match)}
	}
	return r
}

// ---- maps

func (e *Exec) mapGet(st *State, m MapRef, key Value, mt *types.Map) (Value, *Term) {
	z := e.zero(mt.Elem())
	if m.obj == 0 {
		return z, e.tb.F
	}
	d := st.get(m.obj).m
	type hit struct {
		c *Term
		w mapEntry
	}
	var hits []hit
	var val Value
	var pres *Term
	for i := len(d.log) - 1; i >= 0; i-- {
		w := d.log[i]
		g := st.simp(w.guard)
		if g.isFalse() {
			continue
		}
		c := st.simp(e.tb.And(g, e.valEq(st, key, w.key)))
		if c.isFalse() {
			continue
		}
		if c.isTrue() {
			val, pres = w.val, w.present
			break
		}
		if !e.feasible(st, c) {
			continue
		}
		if e.pure == 0 && !e.feasible(st, e.tb.Not(c)) {
			val, pres = w.val, w.present
			break
		}
		hits = append(hits, hit{c, w})
	}
	if pres == nil {
		if d.base != nil {
			r := e.evalPure(st, *d.base, []Value{key})
			if t, ok := r.(Tuple); ok {
				val, pres = t[0], t[1].(*Term)
			} else {
				pres = r.(*Term)
				val = z
				unsupported("map base result")
			}
		} else {
			val, pres = z, e.tb.F
		}
	}
	if pres.isFalse() {
		val = z
	}
	for i := len(hits) - 1; i >= 0; i-- {
		hv := hits[i].w.val
		if hits[i].w.present.isFalse() {
			hv = z
		}
		val = e.ite(hits[i].c, hv, val)
		pres = e.tb.Ite(hits[i].c, hits[i].w.present, pres)
	}
	if !pres.isTrue() && !pres.isFalse() && !sameValue(val, z) {
		val = e.ite(pres, val, z)
	}
	return val, st.simp(pres)
}

func (e *Exec) mapPut(st *State, m MapRef, key Value, present *Term, val Value) {
	o := st.get(m.obj).clone()
	d := &MapData{base: o.m.base}
	// drop older entries for exactly this key
	for _, w := range o.m.log {
		if w.guard.isTrue() && sameValue(w.key, key) {
			continue
		}
		d.log = append(d.log, w)
	}
	d.log = append(d.log, mapEntry{e.tb.T, key, present, val})
	o.m = d
	st.put(o)
}

func (e *Exec) mapLen(st *State, m MapRef) *Term {
	if m.obj == 0 {
		return e.tb.Const(64, 0)
	}
	d := st.get(m.obj).m
	if d.base != nil {
		unsupported("len of a symbolic map")
	}
	n := e.tb.Const(64, 0)
	keys := e.mapKeys(st, d)
	for _, k := range keys {
		_, p := e.mapGet(st, m, k, st.get(m.obj).typ.Underlying().(*types.Map))
		n = e.tb.Add(n, e.tb.Ite(p, e.tb.Const(64, 1), e.tb.Const(64, 0)))
	}
	return n
}

// distinct keys in insertion order
func (e *Exec) mapKeys(st *State, d *MapData) []Value {
	var keys []Value
outer:
	for _, w := range d.log {
		if st.simp(w.guard).isFalse() {
			continue
		}
		for _, k := range keys {
			c := e.valEq(st, k, w.key)
			if c.isTrue() {
				continue outer
			}
			if !c.isFalse() {
				if e.feasible(st, c) {
					if e.feasible(st, e.tb.Not(c)) {
						panic(forkReq{[]*Term{c, e.tb.Not(c)}})
					}
					continue outer
				}
			}
		}
		keys = append(keys, w.key)
	}
	return keys
}

func (e *Exec) mapRange(st *State, m MapRef, mt *types.Map) Value {
	it := &RangeIter{keys: mt.Key(), elem: mt.Elem()}
	if m.obj == 0 {
		return it
	}
	d := st.get(m.obj).m
	if d.base != nil {
		unsupported("ranging over a symbolic map")
	}
	nd := &MapData{}
	for _, k := range e.mapKeys(st, d) {
		v, p := e.mapGet(st, m, k, mt)
		if p.isFalse() {
			continue
		}
		nd.log = append(nd.log, mapEntry{e.tb.T, k, p, v})
	}
	it.m = nd
	it.idx = m.obj
	return it
}

func (e *Exec) next(st *State, fr *Frame, x *ssa.Next, it *RangeIter) []Out {
	tb := e.tb
	rebind := func(s *State, n *RangeIter) {
		fr.set(x.Iter, n)
	}
	if it.isStr {
		s, ok := e.strConst(it.str)
		if !ok {
			unsupported("range over a symbolic string")
		}
		if it.pos >= len(s) {
			return []Out{{st, []Value{Tuple{tb.F, tb.Const(64, 0), tb.Const(32, 0)}}}}
		}
		for i, r := range s[it.pos:] {
			_ = i
			n := *it
			n.pos += len(string(r))
			rebind(st, &n)
			return []Out{{st, []Value{Tuple{tb.T, tb.Const(64, uint64(it.pos)), tb.Const(32, uint64(r))}}}}
		}
	}
	z := func(t types.Type) Value {
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
			return Opaque{"invalid"}
		}
		return e.zero(t)
	}
	mt := x.Type().(*types.Tuple)
	if it.m == nil || it.pos >= len(it.m.log) {
		return []Out{{st, []Value{Tuple{tb.F, z(mt.At(1).Type()), z(mt.At(2).Type())}}}}
	}
	w := it.m.log[it.pos]
	// entries may have been removed during iteration
	p := w.present
	if o := st.heap[it.idx]; o != nil {
		_, p = e.mapGet(st, MapRef{it.idx}, w.key, o.typ.Underlying().(*types.Map))
	}
	n := *it
	n.pos++
	p = st.simp(p)
	if p.isFalse() {
		rebind(st, &n)
		return e.next(st, fr, x, &n)
	}
	if !p.isTrue() {
		if e.feasible(st, tb.Not(p)) {
			if e.feasible(st, p) {
				panic(forkReq{[]*Term{p, tb.Not(p)}})
			}
			rebind(st, &n)
			return e.next(st, fr, x, &n)
		}
	}
	rebind(st, &n)
	return []Out{{st, []Value{Tuple{tb.T, w.key, w.val}}}}
}

// ---- calls

func (e *Exec) callee(st *State, fr *Frame, c *ssa.CallCommon, pos token.Pos) (Func, []Value) {
	var args []Value
	if c.IsInvoke() {
		v := e.force(st, e.get(st, fr, c.Value))
		i, ok := v.(Iface)
		if !ok {
			unsupported("invoke on %T", v)
		}
		if i.typ == nil {
			e.check(st, e.tb.F, "no panic", "method call on nil interface in "+fnName(fr.fn), pos)
			panic(pathEnd{})
		}
		fn := e.ld.lookupMethod(i.typ, c.Method)
		if fn == nil {
			unsupported("no method %s on %s", c.Method.Name(), i.typ)
		}
		args = append(args, i.v)
		for _, a := range c.Args {
			args = append(args, e.get(st, fr, a))
		}
		return Func{fn: fn}, args
	}
	v := e.force(st, e.get(st, fr, c.Value))
	f, ok := v.(Func)
	if !ok {
		unsupported("call of %T", v)
	}
	if f.fn == nil && f.bi == "" {
		e.check(st, e.tb.F, "no panic", "call of a nil function in "+fnName(fr.fn), pos)
		panic(pathEnd{})
	}
	for _, a := range c.Args {
		args = append(args, e.get(st, fr, a))
	}
	return f, args
}

func (e *Exec) doCall(st *State, fr *Frame, c *ssa.CallCommon, pos token.Pos) []Out {
	f, args := e.callee(st, fr, c, pos)
	outs := e.callFunc(st, fr, f, args, c, pos)
	if outs == nil {
		return []Out{}
	}
	return outs
}

func (e *Exec) callFunc(st *State, fr *Frame, f Func, args []Value, c *ssa.CallCommon, pos token.Pos) []Out {
	if f.fn == nil {
		if strings.HasPrefix(f.bi, "builtin:") {
			return e.builtin(st, fr, f.bi[8:], args, c, pos)
		}
		unsupported("call of %s", f.bi)
	}
	fn := f.fn
	name := fn.String()
	if h, ok := intrinsics[name]; ok {
		return h(&callCtx{e, st, fr, fn, args, c, pos})
	}
	if m, ok := e.ld.models[name]; ok && m != fr.fn {
		if e.modelsU != nil {
			e.modelsU[name] = true
		}
		return e.callFn(st, m, args, nil, fr.depth+1)
	}
	if ct, ok := e.ld.contracts[fn]; ok && !e.isHarness(fr.fn) && !e.noContr && fr.fn != ct.fn {
		if ct.use == nil || ct.use(e) {
			if e.contrU != nil {
				e.contrU[fnName(fn)] = true
			}
			return e.callFn(st, ct.fn, args, nil, fr.depth+1)
		}
	}
	if h, ok := e.native(fn); ok {
		return h(&callCtx{e, st, fr, fn, args, c, pos})
	}
	if !e.ld.mayInline(fn) {
		unsupported("call of %s", name)
	}
	return e.callFn(st, fn, args, f.binds, fr.depth+1)
}

func (e *Exec) isHarness(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return e.ld.harnessFns[fn]
}

func (e *Exec) builtin(st *State, fr *Frame, name string, args []Value, c *ssa.CallCommon, pos token.Pos) []Out {
	tb := e.tb
	one := func(v Value) []Out { return []Out{{st, []Value{v}}} }
	switch name {
	case "len", "cap":
		v := e.resolve(st, args[0])
		var f func(v Value) *Term
		f = func(v Value) *Term {
			switch s := v.(type) {
			case IteV:
				return tb.Ite(s.c, f(s.a), f(s.b))
			case Slice:
				if name == "cap" {
					return s.cap
				}
				return s.len
			case Str:
				return e.strLen(s)
			case MapRef:
				return e.mapLen(st, s)
			case Array:
				return tb.Const(64, uint64(len(s.e)))
			case BytesV:
				return tb.Const(64, uint64(s.n))
			case Ptr:
				at := c.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
				return tb.Const(64, uint64(at.Len()))
			}
			unsupported("len of %T", v)
			return nil
		}
		return one(st.subst1(f(v)))
	case "copy":
		d := e.force(st, args[0]).(Slice)
		n := d.len
		src := e.resolve(st, args[1])
		if _, ok := src.(IteV); ok {
			// bytes from one of several places: merge what is read
			if n := e.overIte(st, src, func(st *State, v Value) Value {
				if s, ok := v.(Slice); ok {
					return st.subst1(s.len)
				}
				return tb.Var("unknown length", 64)
			}); e.isByteSlice(st, d) {
				if t, ok := n.(*Term); ok && t.isConst() && t.k > 0 {
					src = e.overIte(st, src, func(st *State, v Value) Value { return e.sliceToStr(st, v.(Slice)) })
				}
			}
			src = e.force(st, src)
		}
		var sl *Term
		var ss Str
		var s Slice
		isStr := false
		switch y := src.(type) {
		case Slice:
			s, sl = y, y.len
		case Str:
			ss, isStr = y, true
			sl = e.strLen(y)
		}
		dl := st.subst1(n)
		sl = st.subst1(sl)
		var cnt *Term
		lt := st.simp(tb.Ult(dl, sl))
		if lt.isTrue() {
			cnt = dl
		} else if lt.isFalse() {
			cnt = sl
		} else {
			cnt = tb.Ite(lt, dl, sl)
		}
		if !cnt.isConst() {
			if e.copySymbolic(st, d, s, cnt, isStr) {
				return one(cnt)
			}
			cnt = tb.Const(64, e.concretize(st, cnt, 80, "copy length"))
		}
		k := int(cnt.k)
		if k > 0 {
			if isStr {
				e.writeBytes(st, d, tb.Const(64, 0), k, e.strSlice(ss, 0, k).p[0].t)
			} else if e.isByteSlice(st, d) {
				e.writeBytes(st, d, tb.Const(64, 0), k, e.readBytes(st, s, tb.Const(64, 0), k))
			} else {
				var vs []Value
				for i := 0; i < k; i++ {
					vs = append(vs, e.load(st, e.elemPtr(s, tb.Const(64, uint64(i)))))
				}
				for i := 0; i < k; i++ {
					e.store(st, e.elemPtr(d, tb.Const(64, uint64(i))), vs[i])
				}
			}
		}
		return one(cnt)
	case "append":
		return one(e.appendOp(st, args, c))
	case "delete":
		m := e.force(st, args[0]).(MapRef)
		e.lockCheck(st, fr, Ptr{obj: m.obj}, "delete", pos)
		if m.obj != 0 {
			e.mapPut(st, m, args[1], tb.F, e.zero(c.Args[0].Type().Underlying().(*types.Map).Elem()))
		}
		return []Out{{st, nil}}
	case "print", "println":
		return []Out{{st, nil}}
	case "panic":
		e.check(st, tb.F, "no panic", fnName(fr.fn)+" reaches an explicit panic", pos)
		return []Out{}
	case "recover":
		return one(Iface{})
	case "ssa:wrapnilchk":
		p := e.force(st, args[0])
		if q, ok := p.(Ptr); ok {
			e.nilCheck(st, q, "method receiver", pos)
		}
		return one(p)
	case "min", "max":
		_, signed, _ := intWidth(c.Args[0].Type())
		r := e.force(st, args[0]).(*Term)
		for _, a := range args[1:] {
			y := e.force(st, a).(*Term)
			var lt *Term
			if signed {
				lt = tb.Slt(r, y)
			} else {
				lt = tb.Ult(r, y)
			}
			if name == "min" {
				r = tb.Ite(lt, r, y)
			} else {
				r = tb.Ite(lt, y, r)
			}
		}
		return one(r)
	}
	unsupported("builtin %s", name)
	return nil
}

// copy of an unknown number of bytes between untouched byte objects
func (e *Exec) copySymbolic(st *State, d, s Slice, cnt *Term, isStr bool) bool {
	return false
}

func (e *Exec) isByteSlice(st *State, s Slice) bool {
	if s.obj == 0 {
		return true
	}
	o := st.get(s.obj)
	if o.bytes != nil && len(s.path) == 0 {
		return true
	}
	if o.arr != nil {
		return false
	}
	_, ok := e.force(st, e.nav(st, o.val, s.path)).(BytesV)
	return ok
}

func (e *Exec) appendOp(st *State, args []Value, c *ssa.CallCommon) Value {
	tb := e.tb
	a := e.force(st, args[0]).(Slice)
	el := c.Args[0].Type().Underlying().(*types.Slice).Elem()
	var vals []Value
	var bt *Term
	k := 0
	if isByte(el) {
		switch y := e.force(st, args[1]).(type) {
		case Str:
			if len(y.p) > 0 {
				if len(y.p) != 1 || y.p[0].t == nil {
					unsupported("append of an opaque string")
				}
				bt = y.p[0].t
				k = bt.w / 8
			}
		case Slice:
			k = e.constInt(st, y.len, "append length")
			bt = e.readBytes(st, y, tb.Const(64, 0), k)
		}
	} else {
		y := e.force(st, args[1]).(Slice)
		k = e.constInt(st, y.len, "append length")
		for i := 0; i < k; i++ {
			vals = append(vals, e.load(st, e.elemPtr(y, tb.Const(64, uint64(i)))))
		}
	}
	if k == 0 {
		return a
	}
	nl := tb.Add(a.len, tb.Const(64, uint64(k)))
	fits := st.simp(tb.And(tb.Ule(nl, a.cap), tb.Ule(a.len, nl)))
	if a.obj != 0 && !fits.isFalse() {
		if !fits.isTrue() {
			if e.feasible(st, tb.Not(fits)) {
				if e.feasible(st, fits) {
					panic(forkReq{[]*Term{fits, tb.Not(fits)}})
				}
				fits = tb.F
			}
		}
		if !fits.isFalse() {
			if isByte(el) {
				e.writeBytes(st, a, a.len, k, bt)
			} else {
				for i := 0; i < k; i++ {
					e.store(st, e.elemPtr(a, tb.Add(a.len, tb.Const(64, uint64(i)))), vals[i])
				}
			}
			return Slice{a.obj, a.path, a.off, nl, a.cap}
		}
	}
	// grow: exact fit (the capacity after growth is unspecified; we model the
	// smallest one, so that every later append reallocates)
	n := e.constInt(st, a.len, "append base length")
	tot := tb.Const(64, uint64(n+k))
	r := e.makeSlice(st, el, tot, tot, "append")
	if isByte(el) {
		if n > 0 {
			e.writeBytes(st, r, tb.Const(64, 0), n, e.readBytes(st, a, tb.Const(64, 0), n))
		}
		e.writeBytes(st, r, tb.Const(64, uint64(n)), k, bt)
	} else {
		var all []Value
		for i := 0; i < n; i++ {
			all = append(all, e.load(st, e.elemPtr(a, tb.Const(64, uint64(i)))))
		}
		all = append(all, vals...)
		o := st.get(r.obj).clone()
		o.val = Array{all}
		o.arr = nil
		st.put(o)
	}
	return r
}
