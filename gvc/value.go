package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// ---- values

type Value interface{}

type PathElem struct {
	f int   // field index or concrete array index
	t *Term // symbolic array index (then f is ignored)
}

type Ptr struct {
	obj  int // 0 = nil
	path []PathElem
}

type Slice struct {
	obj           int // 0 = nil slice
	path          []PathElem
	off, len, cap *Term // 64 bit
}

type Piece struct {
	t  *Term // bytes (width 8n), or nil:
	op *Term // opaque content identifier (64 bit)
	ln *Term // its length
}

type Str struct{ p []Piece }

type Iface struct {
	typ types.Type // nil = nil interface
	v   Value
}

type Struct struct{ f []Value }
type Array struct{ e []Value }
type BytesV struct {
	n int
	t *Term
} // value of type [n]byte
type MapRef struct{ obj int }
type Func struct {
	fn    *ssa.Function // nil = nil func
	binds []Value
	bi    string // builtin / native name
}
type Tuple []Value
type IteV struct {
	c    *Term
	a, b Value
}
type Reflect struct {
	ptr *Ptr  // addressable
	v   Value // otherwise
	typ types.Type
}
type RangeIter struct {
	isStr bool
	str   Str
	pos   int
	m     *MapData
	idx   int
	keys  types.Type
	elem  types.Type
}
type UnsafePtr struct{ p Value }
type Opaque struct{ name string } // something we cannot look into

// ---- objects

type seg struct {
	off, n int
	t      *Term
}

type symWrite struct {
	guard *Term
	off   *Term
	n     int
	t     *Term
}

type Bytes struct {
	size *Term
	base string // "" = zeros
	fn   *Func  // content given chunkwise by a closure
	fnN  int
	segs []seg
	log  []symWrite
}

type mapEntry struct {
	guard   *Term
	key     Value
	present *Term
	val     Value
}

type MapData struct {
	base *Func // nil = empty
	log  []mapEntry
	memo map[string]int
}

type arrWrite struct {
	guard *Term
	idx   *Term
	val   Value
}
type SymArr struct {
	size *Term
	zero Value
	base *Func // closure idx -> value
	log  []arrWrite
}

type Obj struct {
	id    int
	typ   types.Type // type of the content
	val   Value
	bytes *Bytes
	m     *MapData
	arr   *SymArr
	name  string
	guard bool // shared object subject to lock discipline
}

func (o *Obj) clone() *Obj { c := *o; return &c }

func (b *Bytes) clone() *Bytes {
	c := *b
	c.segs = append([]seg(nil), b.segs...)
	c.log = b.log[:len(b.log):len(b.log)]
	return &c
}

// ---- state

type State struct {
	e      *Exec
	heap   map[int]*Obj
	pc     []*Term
	facts  map[*Term]bool
	eqc    map[*Term]*Term // term -> constant known by pc
	dead   bool
	thread int
	inN    map[string]int // inputs created so far on this path, by name
	ghost  map[string]int // locks and wait groups
	pend   []*threadRec   // goroutines started but not yet run
}

func (st *State) clone() *State {
	st.e.clones++
	c := &State{e: st.e, heap: make(map[int]*Obj, len(st.heap)+8), facts: make(map[*Term]bool, len(st.facts)+8), eqc: make(map[*Term]*Term, len(st.eqc)+2), thread: st.thread}
	for k, v := range st.heap {
		c.heap[k] = v
	}
	for k, v := range st.facts {
		c.facts[k] = v
	}
	for k, v := range st.eqc {
		c.eqc[k] = v
	}
	c.pc = st.pc[:len(st.pc):len(st.pc)]
	c.inN, c.ghost = st.inN, st.ghost
	c.pend = st.pend[:len(st.pend):len(st.pend)]
	return c
}

func sameInts(a, b map[string]int) bool {
	for k, v := range a {
		if b[k] != v {
			return false
		}
	}
	for k, v := range b {
		if a[k] != v {
			return false
		}
	}
	return true
}

func (st *State) setGhost(k string, v int) {
	m := make(map[string]int, len(st.ghost)+1)
	for a, b := range st.ghost {
		m[a] = b
	}
	m[k] = v
	st.ghost = m
}

// inName makes the k-th use of an input name on this path unique
func (st *State) inName(name string) string {
	k := st.inN[name]
	m := make(map[string]int, len(st.inN)+1)
	for a, b := range st.inN {
		m[a] = b
	}
	m[name] = k + 1
	st.inN = m
	if k == 0 {
		return name
	}
	return name + "!" + itoa(k)
}

func (st *State) assume(c *Term) {
	tb := st.e.tb
	if c.isTrue() {
		return
	}
	if c.op == OpAnd {
		for _, a := range c.args {
			st.assume(a)
		}
		return
	}
	if c.isFalse() {
		st.dead = true
	}
	if v, ok := st.facts[c]; ok {
		if !v {
			st.dead = true
		}
		return
	}
	st.pc = append(st.pc, c)
	st.facts[c] = true
	st.facts[tb.Not(c)] = false
	if c.op == OpEq {
		if c.args[1].isConst() {
			st.eqc[c.args[0]] = c.args[1]
		} else if c.args[0].isConst() {
			st.eqc[c.args[1]] = c.args[0]
		}
	}
	// unit-propagate into disjunctions
	if c.op == OpOr {
		s := st.simp(c)
		if s != c {
			st.assume(s)
		}
	}
}

// simplify a boolean by the facts known on this path
func (st *State) simp(c *Term) *Term {
	if c.w != 0 {
		return c
	}
	if v, ok := st.facts[c]; ok {
		return st.e.tb.Bool(v)
	}
	switch c.op {
	case OpNot:
		return st.e.tb.Not(st.simp(c.args[0]))
	case OpAnd, OpOr:
		if len(c.args) > 200 {
			return c
		}
		as := make([]*Term, len(c.args))
		ch := false
		for i, a := range c.args {
			as[i] = st.simp(a)
			if as[i] != a {
				ch = true
			}
		}
		if !ch {
			return c
		}
		return st.e.tb.nary(c.op, as)
	case OpEq:
		if len(st.eqc) > 0 && c.args[0].w != 0 {
			a, b := st.subst1(c.args[0]), st.subst1(c.args[1])
			if a != c.args[0] || b != c.args[1] {
				return st.e.tb.Eq(a, b)
			}
		}
	case OpUlt, OpUle, OpSlt, OpSle:
		if len(st.eqc) > 0 {
			a, b := st.subst1(c.args[0]), st.subst1(c.args[1])
			if a != c.args[0] || b != c.args[1] {
				switch c.op {
				case OpUlt:
					return st.e.tb.Ult(a, b)
				case OpUle:
					return st.e.tb.Ule(a, b)
				case OpSlt:
					return st.e.tb.Slt(a, b)
				default:
					return st.e.tb.Sle(a, b)
				}
			}
		}
	}
	return c
}

// substitute terms known to equal constants (shallow: term itself, linear
// arguments, zero-extended words, ite conditions)
func (st *State) subst1(t *Term) *Term {
	tb := st.e.tb
	if k, ok := st.eqc[t]; ok {
		return k
	}
	switch t.op {
	case OpLin:
		ch := false
		as := make([]*Term, len(t.args))
		for i, a := range t.args {
			as[i] = st.subst1(a)
			if as[i] != a {
				ch = true
			}
		}
		if ch {
			return tb.mkLin(t.w, as, t.coefs, t.k)
		}
	case OpConcat:
		ch := false
		as := make([]*Term, len(t.args))
		if len(t.args) <= 4 {
			for i, a := range t.args {
				as[i] = st.subst1(a)
				if as[i] != a {
					ch = true
				}
			}
			if ch {
				return tb.Concat(as...)
			}
		}
	case OpExtract:
		a := st.subst1(t.args[0])
		if a != t.args[0] {
			return tb.Extract(a, t.lo, t.w)
		}
	case OpIte:
		c := st.simp(t.args[0])
		if c.isTrue() {
			return st.subst1(t.args[1])
		}
		if c.isFalse() {
			return st.subst1(t.args[2])
		}
	case OpShl, OpLshr, OpMul, OpUdiv, OpUrem:
		a, b := st.subst1(t.args[0]), st.subst1(t.args[1])
		if a != t.args[0] || b != t.args[1] {
			switch t.op {
			case OpShl:
				return tb.Shl(a, b)
			case OpLshr:
				return tb.Lshr(a, b)
			case OpMul:
				return tb.Mul(a, b)
			case OpUdiv:
				return tb.Udiv(a, b)
			case OpUrem:
				return tb.Urem(a, b)
			}
		}
	}
	return t
}

func (st *State) get(id int) *Obj {
	o := st.heap[id]
	if o == nil {
		unsupported("dangling object %d", id)
	}
	return o
}

func (st *State) put(o *Obj) {
	st.heap[o.id] = o
	st.e.noteWrite(st, o.id)
}

func (e *Exec) newObj(st *State, typ types.Type, name string) *Obj {
	e.nobj++
	o := &Obj{id: e.nobj, typ: typ, name: name}
	st.heap[o.id] = o
	return o
}

// ---- types

func isByteArray(t types.Type) (int, bool) {
	a, ok := t.Underlying().(*types.Array)
	if !ok {
		return 0, false
	}
	if isByte(a.Elem()) {
		return int(a.Len()), true
	}
	return 0, false
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func intWidth(t types.Type) (w int, signed bool, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false, true
	case types.Int8:
		return 8, true, true
	case types.Uint8:
		return 8, false, true
	case types.Int16:
		return 16, true, true
	case types.Uint16:
		return 16, false, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint32:
		return 32, false, true
	case types.Int64, types.Int, types.UntypedInt:
		return 64, true, true
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, false, true
	}
	return 0, false, false
}

func (e *Exec) zero(t types.Type) Value {
	tb := e.tb
	if n, ok := isByteArray(t); ok {
		if n == 0 {
			return BytesV{0, nil}
		}
		return BytesV{n, tb.BigConst(8*n, new(big.Int))}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w, _, ok := intWidth(t); ok {
			if w == 0 {
				return tb.F
			}
			return tb.Const(w, 0)
		}
		if u.Info()&types.IsString != 0 {
			return Str{}
		}
		if u.Kind() == types.UnsafePointer {
			return UnsafePtr{}
		}
		if u.Info()&types.IsFloat != 0 {
			return Opaque{"float"}
		}
		if u.Kind() == types.UntypedNil || u.Kind() == types.Invalid {
			return Opaque{"invalid"}
		}
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		z := tb.Const(64, 0)
		return Slice{off: z, len: z, cap: z}
	case *types.Interface:
		return Iface{}
	case *types.Map:
		return MapRef{}
	case *types.Signature:
		return Func{}
	case *types.Chan:
		return Opaque{"nilchan"}
	case *types.Struct:
		if isReflectValue(t) {
			return Reflect{}
		}
		fs := make([]Value, u.NumFields())
		for i := range fs {
			fs[i] = e.zero(u.Field(i).Type())
		}
		return Struct{fs}
	case *types.Array:
		if u.Len() > 1<<16 {
			unsupported("large array type %s", t)
		}
		es := make([]Value, u.Len())
		z := e.zero(u.Elem())
		for i := range es {
			es[i] = z
		}
		return Array{es}
	case *types.Tuple:
		var tv Tuple
		for i := 0; i < u.Len(); i++ {
			tv = append(tv, e.zero(u.At(i).Type()))
		}
		return tv
	}
	unsupported("zero value of %s", t)
	return nil
}

func isReflectValue(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "reflect" && n.Obj().Name() == "Value"
}

// ---- value-level ite

func (e *Exec) ite(c *Term, a, b Value) Value {
	if c.isTrue() {
		return a
	}
	if c.isFalse() {
		return b
	}
	tb := e.tb
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok && x.w == y.w {
			return tb.Ite(c, x, y)
		}
	case Struct:
		if y, ok := b.(Struct); ok && len(x.f) == len(y.f) {
			fs := make([]Value, len(x.f))
			for i := range fs {
				fs[i] = e.ite(c, x.f[i], y.f[i])
			}
			return Struct{fs}
		}
	case Array:
		if y, ok := b.(Array); ok && len(x.e) == len(y.e) {
			es := make([]Value, len(x.e))
			for i := range es {
				es[i] = e.ite(c, x.e[i], y.e[i])
			}
			return Array{es}
		}
	case Tuple:
		if y, ok := b.(Tuple); ok && len(x) == len(y) {
			es := make(Tuple, len(x))
			for i := range es {
				es[i] = e.ite(c, x[i], y[i])
			}
			return es
		}
	case BytesV:
		if y, ok := b.(BytesV); ok && x.n == y.n {
			if x.n == 0 {
				return x
			}
			return BytesV{x.n, tb.Ite(c, x.t, y.t)}
		}
	case Slice:
		if y, ok := b.(Slice); ok && x.obj == y.obj && pathEq(x.path, y.path) {
			return Slice{x.obj, x.path, tb.Ite(c, x.off, y.off), tb.Ite(c, x.len, y.len), tb.Ite(c, x.cap, y.cap)}
		}
	case Str:
		if y, ok := b.(Str); ok {
			if strSame(x, y) {
				return x
			}
			if len(x.p) == 1 && len(y.p) == 1 && x.p[0].t != nil && y.p[0].t != nil && x.p[0].t.w == y.p[0].t.w {
				return Str{[]Piece{{t: tb.Ite(c, x.p[0].t, y.p[0].t)}}}
			}
		}
	case Iface:
		if y, ok := b.(Iface); ok && x.typ != nil && y.typ != nil && types.Identical(x.typ, y.typ) {
			return Iface{x.typ, e.ite(c, x.v, y.v)}
		}
	}
	if sameValue(a, b) {
		return a
	}
	if x, ok := a.(IteV); ok && x.c == c {
		a = x.a
	}
	if y, ok := b.(IteV); ok && y.c == c {
		b = y.b
	}
	return IteV{c, a, b}
}

func strSame(a, b Str) bool {
	if len(a.p) != len(b.p) {
		return false
	}
	for i := range a.p {
		if a.p[i] != b.p[i] {
			return false
		}
	}
	return true
}

func pathEq(a, b []PathElem) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func sameValue(a, b Value) bool {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		return ok && x == y
	case Ptr:
		y, ok := b.(Ptr)
		return ok && x.obj == y.obj && pathEq(x.path, y.path)
	case Slice:
		y, ok := b.(Slice)
		return ok && x.obj == y.obj && pathEq(x.path, y.path) && x.off == y.off && x.len == y.len && x.cap == y.cap
	case Str:
		y, ok := b.(Str)
		return ok && strSame(x, y)
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			return false
		}
		if x.typ == nil || y.typ == nil {
			return x.typ == nil && y.typ == nil
		}
		return types.Identical(x.typ, y.typ) && sameValue(x.v, y.v)
	case Struct:
		y, ok := b.(Struct)
		if !ok || len(x.f) != len(y.f) {
			return false
		}
		for i := range x.f {
			if !sameValue(x.f[i], y.f[i]) {
				return false
			}
		}
		return true
	case Array:
		y, ok := b.(Array)
		if !ok || len(x.e) != len(y.e) {
			return false
		}
		if len(x.e) > 0 && &x.e[0] == &y.e[0] {
			return true
		}
		for i := range x.e {
			if !sameValue(x.e[i], y.e[i]) {
				return false
			}
		}
		return true
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameValue(x[i], y[i]) {
				return false
			}
		}
		return true
	case BytesV:
		y, ok := b.(BytesV)
		return ok && x == y
	case MapRef:
		y, ok := b.(MapRef)
		return ok && x == y
	case Func:
		y, ok := b.(Func)
		if !ok || x.fn != y.fn || x.bi != y.bi || len(x.binds) != len(y.binds) {
			return false
		}
		for i := range x.binds {
			if !sameValue(x.binds[i], y.binds[i]) {
				return false
			}
		}
		return true
	case IteV:
		y, ok := b.(IteV)
		return ok && x.c == y.c && sameValue(x.a, y.a) && sameValue(x.b, y.b)
	case Reflect:
		y, ok := b.(Reflect)
		if !ok {
			return false
		}
		if x.ptr != nil && y.ptr != nil {
			return sameValue(*x.ptr, *y.ptr)
		}
		return x.ptr == nil && y.ptr == nil && (x.v == nil && y.v == nil || x.v != nil && y.v != nil && sameValue(x.v, y.v))
	case Opaque:
		y, ok := b.(Opaque)
		return ok && x == y
	case UnsafePtr:
		y, ok := b.(UnsafePtr)
		return ok && (x.p == nil && y.p == nil || x.p != nil && y.p != nil && sameValue(x.p, y.p))
	case *RangeIter:
		y, ok := b.(*RangeIter)
		return ok && x == y
	case nil:
		return b == nil
	}
	return false
}

// ---- strings

func (e *Exec) strOfTerm(t *Term) Str { return Str{[]Piece{{t: t}}} }

func (e *Exec) strLit(s string) Str {
	if s == "" {
		return Str{}
	}
	return e.strOfTerm(e.tb.BytesConst([]byte(s)))
}

func (e *Exec) strCat(a, b Str) Str {
	if len(a.p) == 0 {
		return b
	}
	if len(b.p) == 0 {
		return a
	}
	out := append([]Piece(nil), a.p...)
	for _, q := range b.p {
		l := &out[len(out)-1]
		if q.t != nil && l.t != nil {
			*l = Piece{t: e.tb.Concat(l.t, q.t)}
		} else {
			out = append(out, q)
		}
	}
	return Str{out}
}

func (e *Exec) strLen(s Str) *Term {
	r := e.tb.Const(64, 0)
	for _, p := range s.p {
		if p.t != nil {
			r = e.tb.Add(r, e.tb.Const(64, uint64(p.t.w/8)))
		} else {
			r = e.tb.Add(r, p.ln)
		}
	}
	return r
}

// concrete string value, if it is one
func (e *Exec) strConst(v Value) (string, bool) {
	s, ok := v.(Str)
	if !ok {
		return "", false
	}
	if len(s.p) == 0 {
		return "", true
	}
	if len(s.p) != 1 || s.p[0].t == nil || !s.p[0].t.isConst() {
		return "", false
	}
	t := s.p[0].t
	b := t.bigVal().Bytes()
	out := make([]byte, t.w/8)
	copy(out[len(out)-len(b):], b)
	return string(out), true
}

func (e *Exec) strSlice(s Str, lo, hi int) Str {
	if lo == hi {
		return Str{}
	}
	// only within pure byte strings, or a prefix of byte pieces
	pos := 0
	var out Str
	for _, p := range s.p {
		if p.t == nil {
			unsupported("slicing an opaque string")
		}
		n := p.t.w / 8
		l, h := lo-pos, hi-pos
		if l < 0 {
			l = 0
		}
		if h > n {
			h = n
		}
		if l < h {
			out = e.strCat(out, e.strOfTerm(e.tb.Extract(p.t, 8*(n-h), 8*(h-l))))
		}
		pos += n
		if pos >= hi {
			break
		}
	}
	return out
}

func (e *Exec) strEq(a, b Str) *Term {
	tb := e.tb
	if strSame(a, b) {
		return tb.T
	}
	pure := func(s Str) (*Term, bool) {
		if len(s.p) == 0 {
			return nil, true
		}
		if len(s.p) == 1 && s.p[0].t != nil {
			return s.p[0].t, true
		}
		return nil, false
	}
	x, okx := pure(a)
	y, oky := pure(b)
	if okx && oky {
		if x == nil || y == nil {
			return tb.Bool(x == nil && y == nil)
		}
		if x.w != y.w {
			return tb.F
		}
		return tb.Eq(x, y)
	}
	// same shape: compare pieces
	if len(a.p) == len(b.p) {
		var cs []*Term
		ok := true
		for i := range a.p {
			p, q := a.p[i], b.p[i]
			switch {
			case p.t != nil && q.t != nil && p.t.w == q.t.w:
				cs = append(cs, tb.Eq(p.t, q.t))
			case p.t == nil && q.t == nil:
				cs = append(cs, tb.Eq(p.op, q.op))
			default:
				ok = false
			}
		}
		if ok {
			return tb.And(cs...)
		}
	}
	// uninterpreted, symmetric
	ka, kb := e.strKey(a), e.strKey(b)
	args := append(append([]*Term(nil), ka...), kb...)
	if len(ka) > 0 && len(kb) > 0 && kb[0].id < ka[0].id || len(ka) == 0 {
		args = append(append([]*Term(nil), kb...), ka...)
		return tb.App(fmt.Sprintf("streq%d_%d", len(kb), len(ka)), 0, args...)
	}
	return tb.App(fmt.Sprintf("streq%d_%d", len(ka), len(kb)), 0, args...)
}

func (e *Exec) strKey(s Str) []*Term {
	var out []*Term
	for _, p := range s.p {
		if p.t != nil {
			out = append(out, p.t)
		} else {
			out = append(out, p.op)
		}
	}
	return out
}

// ---- byte memory

func (e *Exec) bytesRead(st *State, o *Obj, off *Term, n int) *Term {
	e.noteBytes(st, o.id, off, n, false)
	return e.bytesReadLog(st, o.bytes, off, n, len(o.bytes.log))
}

func (e *Exec) bytesReadLog(st *State, b *Bytes, off *Term, n int, upto int) *Term {
	tb := e.tb
	off = st.subst1(off)
	for i := upto - 1; i >= 0; i-- {
		w := b.log[i]
		g := st.simp(w.guard)
		if g.isFalse() {
			continue
		}
		woff := st.subst1(w.off)
		d := st.subst1(tb.Sub(off, woff))
		if d.isConst() {
			dd := int64(d.k)
			if dd >= 0 && dd+int64(n) <= int64(w.n) {
				v := tb.Extract(w.t, 8*(w.n-int(dd)-n), 8*n)
				if g.isTrue() {
					return v
				}
				return tb.Ite(g, v, e.bytesReadLog(st, b, off, n, i))
			}
			if dd >= int64(w.n) || dd+int64(n) <= 0 {
				continue
			}
			// partial overlap: split the read
			if dd < 0 {
				k := int(-dd)
				return tb.Concat(e.bytesReadLog(st, b, off, k, i+1), e.bytesReadLog(st, b, tb.Add(off, tb.Const(64, uint64(k))), n-k, i+1))
			}
			k := w.n - int(dd)
			return tb.Concat(e.bytesReadLog(st, b, off, k, i+1), e.bytesReadLog(st, b, tb.Add(off, tb.Const(64, uint64(k))), n-k, i+1))
		}
		// ranges disjoint?
		if off.rhi+uint64(n) <= woff.rlo || woff.rhi+uint64(w.n) <= off.rlo {
			continue
		}
		if n == w.n && alignedDiff(d, uint64(n)) {
			c := st.simp(tb.Eq(off, woff))
			if c.isFalse() {
				continue
			}
			if !c.isTrue() {
				if !e.feasible(st, c) {
					continue
				}
				if !e.feasible(st, tb.Not(c)) {
					c = tb.T
				}
			}
			c = tb.And(g, c)
			if c.isTrue() {
				return w.t
			}
			return tb.Ite(c, w.t, e.bytesReadLog(st, b, off, n, i))
		}
		// ask the solver
		disj := tb.Or(tb.Ule(tb.Add(off, tb.Const(64, uint64(n))), woff), tb.Ule(tb.Add(woff, tb.Const(64, uint64(w.n))), off))
		if !e.feasible(st, tb.And(g, tb.Not(disj))) {
			continue
		}
		// contained at an unknown multiple of n inside the written range
		if n > 0 && w.n%n == 0 && w.n/n <= 4096 && alignedDiff(d, uint64(n)) {
			r := e.bytesReadLog(st, b, off, n, i)
			for j := w.n/n - 1; j >= 0; j-- {
				c := tb.And(g, tb.Eq(off, tb.Add(woff, tb.Const(64, uint64(j*n)))))
				if c = st.simp(c); c.isFalse() {
					continue
				}
				r = tb.Ite(c, tb.Extract(w.t, 8*(w.n-j*n-n), 8*n), r)
			}
			return r
		}
		unsupported("unresolved overlap: read [%s;%d) write [%s;%d)", off, n, woff, w.n)
	}
	return e.bytesReadBase(st, b, off, n)
}

func alignedDiff(d *Term, n uint64) bool {
	if n == 0 {
		return false
	}
	if d.op == OpConst {
		return d.k%n == 0
	}
	if d.op != OpLin {
		return n == 1
	}
	if n&(n-1) == 0 {
		return divisible(d, n)
	}
	for _, c := range d.coefs {
		if uint64(absI(int64(c)))%n != 0 {
			return false
		}
	}
	return uint64(absI(int64(d.k)))%n == 0
}

// divisible: t is a multiple of n, a power of two (arithmetic mod 2^w keeps that)
func divisible(t *Term, n uint64) bool {
	if n == 1 {
		return true
	}
	switch t.op {
	case OpConst:
		return t.big == nil && t.k%n == 0
	case OpLin:
		if t.k%n != 0 {
			return false
		}
		for i, c := range t.coefs {
			g := c & -c // power of two in c
			if g < n && !divisible(t.args[i], n/g) {
				return false
			}
		}
		return true
	case OpConcat:
		l := t.args[len(t.args)-1]
		return l.w < 64 && n < 1<<uint(l.w) && divisible(l, n)
	case OpIte:
		return divisible(t.args[1], n) && divisible(t.args[2], n)
	}
	return false
}

func absI(x int64) int64 {
	if x < 0 {
		return -x
	}
	return x
}

func (e *Exec) bytesReadBase(st *State, b *Bytes, off *Term, n int) *Term {
	tb := e.tb
	if !off.isConst() {
		if len(b.segs) > 0 {
			// treat overlapping segments as an ite chain
			r := e.baseContent(st, b, off, n)
			for _, s := range b.segs {
				d := tb.Sub(off, tb.Const(64, uint64(s.off)))
				if off.rhi+uint64(n) <= uint64(s.off) || uint64(s.off+s.n) <= off.rlo {
					continue
				}
				if s.n%n != 0 || !alignedDiff(d, uint64(n)) {
					unsupported("symbolic read [%s;%d) over concrete segment %d+%d", off, n, s.off, s.n)
				}
				for j := 0; j < s.n/n; j++ {
					c := st.simp(tb.Eq(off, tb.Const(64, uint64(s.off+j*n))))
					if c.isFalse() {
						continue
					}
					r = tb.Ite(c, tb.Extract(s.t, 8*(s.n-j*n-n), 8*n), r)
				}
			}
			return r
		}
		return e.baseContent(st, b, off, n)
	}
	lo := int(off.k)
	hi := lo + n
	// gather
	i := sort.Search(len(b.segs), func(i int) bool { return b.segs[i].off+b.segs[i].n > lo })
	var parts []*Term
	p := lo
	for p < hi {
		if i < len(b.segs) && b.segs[i].off <= p {
			s := b.segs[i]
			h := s.off + s.n
			if h > hi {
				h = hi
			}
			parts = append(parts, tb.Extract(s.t, 8*(s.off+s.n-h), 8*(h-p)))
			p = h
			i++
			continue
		}
		h := hi
		if i < len(b.segs) && b.segs[i].off < h {
			h = b.segs[i].off
		}
		parts = append(parts, e.baseContent(st, b, tb.Const(64, uint64(p)), h-p))
		p = h
	}
	return tb.Concat(parts...)
}

func (e *Exec) baseContent(st *State, b *Bytes, off *Term, n int) *Term {
	tb := e.tb
	if b.fn != nil {
		// content defined chunkwise
		k := uint64(b.fnN)
		q := tb.Udiv(off, tb.Const(64, k))
		r := tb.Urem(off, tb.Const(64, k))
		if !r.isConst() {
			unsupported("unaligned read of closure memory: %s", off)
		}
		if int(r.k)+n <= b.fnN {
			v := e.evalPure(st, *b.fn, []Value{q})
			s := v.(Str)
			full := s.p[0].t
			return tb.Extract(full, 8*(b.fnN-int(r.k)-n), 8*n)
		}
		m := b.fnN - int(r.k)
		return tb.Concat(e.baseContent(st, b, off, m), e.baseContent(st, b, tb.Add(off, tb.Const(64, uint64(m))), n-m))
	}
	if b.base == "" {
		return tb.BigConst(8*n, new(big.Int))
	}
	return tb.Mem(b.base, off, n)
}

func (e *Exec) bytesWrite(st *State, id int, off *Term, n int, t *Term) {
	if n == 0 {
		return
	}
	e.noteBytes(st, id, off, n, true)
	o := st.get(id).clone()
	b := o.bytes.clone()
	o.bytes = b
	off = st.subst1(off)
	if !off.isConst() || len(b.log) > 0 {
		b.log = append(b.log, symWrite{e.tb.T, off, n, t})
		st.put(o)
		return
	}
	lo := int(off.k)
	hi := lo + n
	tb := e.tb
	var out []seg
	ins := false
	for _, s := range b.segs {
		sh := s.off + s.n
		if sh <= lo {
			out = append(out, s)
			continue
		}
		if s.off >= hi {
			if !ins {
				out = append(out, seg{lo, n, t})
				ins = true
			}
			out = append(out, s)
			continue
		}
		if s.off < lo {
			out = append(out, seg{s.off, lo - s.off, tb.Extract(s.t, 8*(sh-lo), 8*(lo-s.off))})
		}
		if !ins {
			out = append(out, seg{lo, n, t})
			ins = true
		}
		if sh > hi {
			out = append(out, seg{hi, sh - hi, tb.Extract(s.t, 0, 8*(sh-hi))})
		}
	}
	if !ins {
		out = append(out, seg{lo, n, t})
	}
	b.segs = out
	st.put(o)
}
