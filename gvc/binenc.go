package main

// encoding/binary on typed values: gvcEncode, gvcDecode, gvcBinSize.

import (
	"go/types"
)

func (e *Exec) binSize(t types.Type) int {
	if w, _, ok := intWidth(t); ok {
		if b, ok := t.Underlying().(*types.Basic); ok && (b.Kind() == types.Int || b.Kind() == types.Uint || b.Kind() == types.Uintptr) {
			return -1
		}
		return w / 8
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Kind() == types.Bool {
			return 1
		}
	case *types.Array:
		if n := e.binSize(u.Elem()); n >= 0 {
			return n * int(u.Len())
		}
	case *types.Struct:
		sum := 0
		for i := 0; i < u.NumFields(); i++ {
			n := e.binSize(u.Field(i).Type())
			if n < 0 {
				return -1
			}
			sum += n
		}
		return sum
	}
	return -1
}

func (e *Exec) rev(t *Term) *Term {
	var ps []*Term
	for i := 0; i < t.w; i += 8 {
		ps = append(ps, e.tb.Extract(t, i, 8))
	}
	return e.tb.Concat(ps...)
}

func (e *Exec) binEncode(st *State, t types.Type, v Value, le bool) []*Term {
	v = e.force(st, v)
	switch u := t.Underlying().(type) {
	case *types.Array:
		switch x := v.(type) {
		case BytesV:
			if x.n == 0 {
				return nil
			}
			return []*Term{x.t}
		case Array:
			var r []*Term
			for _, y := range x.e {
				r = append(r, e.binEncode(st, u.Elem(), y, le)...)
			}
			return r
		}
	case *types.Struct:
		var r []*Term
		x := v.(Struct)
		for i := 0; i < u.NumFields(); i++ {
			r = append(r, e.binEncode(st, u.Field(i).Type(), x.f[i], le)...)
		}
		return r
	case *types.Basic:
		x := v.(*Term)
		if x.w == 0 {
			return []*Term{e.tb.Ite(x, e.tb.Const(8, 1), e.tb.Const(8, 0))}
		}
		if le {
			x = e.rev(x)
		}
		return []*Term{x}
	}
	unsupported("encoding/binary of %s", t)
	return nil
}

func (e *Exec) binDecode(st *State, t types.Type, b *Term, le bool) Value {
	tb := e.tb
	switch u := t.Underlying().(type) {
	case *types.Array:
		if isByte(u.Elem()) {
			return BytesV{int(u.Len()), b}
		}
		n := e.binSize(u.Elem())
		var a Array
		for i := 0; i < int(u.Len()); i++ {
			a.e = append(a.e, e.binDecode(st, u.Elem(), tb.Extract(b, b.w-8*n*(i+1), 8*n), le))
		}
		return a
	case *types.Struct:
		var s Struct
		off := 0
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			n := 8 * e.binSize(ft)
			off += n
			if n == 0 {
				s.f = append(s.f, e.zero(ft))
				continue
			}
			s.f = append(s.f, e.binDecode(st, ft, tb.Extract(b, b.w-off, n), le))
		}
		return s
	case *types.Basic:
		if u.Kind() == types.Bool {
			return tb.Not(tb.Eq(b, tb.Const(8, 0)))
		}
		if le {
			b = e.rev(b)
		}
		return b
	}
	unsupported("encoding/binary of %s", t)
	return nil
}

func (c *callCtx) binArg(i int) (Ptr, Value, types.Type, bool) {
	x, ok := c.e.force(c.st, c.args[i]).(Iface)
	if !ok || x.typ == nil {
		unsupported("encoding/binary of nil")
	}
	if p, ok := x.typ.Underlying().(*types.Pointer); ok {
		ptr, ok := c.e.force(c.st, x.v).(Ptr)
		if !ok || ptr.obj == 0 {
			unsupported("encoding/binary of nil pointer")
		}
		return ptr, nil, p.Elem(), true
	}
	return Ptr{}, x.v, x.typ, false
}

func init() {
	gvc("gvcBinSize", func(c *callCtx) []Out {
		_, _, t, _ := c.binArg(0)
		n := c.e.binSize(t)
		if n < 0 {
			unsupported("encoding/binary of %s", t)
		}
		return c.ret(c.e.tb.Const(64, uint64(n)))
	})
	gvc("gvcEncode", func(c *callCtx) []Out {
		e := c.e
		le := e.force(c.st, c.args[0]).(*Term)
		ptr, v, t, isPtr := c.binArg(1)
		if isPtr {
			v = e.load(c.st, ptr)
		}
		if e.binSize(t) < 0 {
			unsupported("encoding/binary of %s", t)
		}
		ps := e.binEncode(c.st, t, v, le.isTrue())
		if len(ps) == 0 {
			return c.ret(Str{})
		}
		return c.ret(e.strOfTerm(e.tb.Concat(ps...)))
	})
	gvc("gvcDecode", func(c *callCtx) []Out {
		e := c.e
		le := e.force(c.st, c.args[0]).(*Term)
		s := e.force(c.st, c.args[1]).(Str)
		ptr, _, t, isPtr := c.binArg(2)
		n := e.binSize(t)
		if !isPtr || n < 0 {
			unsupported("encoding/binary into %s", t)
		}
		if n == 0 {
			return c.ret()
		}
		if len(s.p) != 1 || s.p[0].t == nil || s.p[0].t.w != 8*n {
			unsupported("gvcDecode: length")
		}
		e.store(c.st, ptr, e.binDecode(c.st, t, s.p[0].t, le.isTrue()))
		return c.ret()
	})
}
