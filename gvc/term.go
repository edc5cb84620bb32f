package main

// Terms: hash-consed, simplified-on-construction bit-vector / boolean DAG.

import (
	"fmt"
	"math/big"
	"math/bits"
	"sort"
	"strconv"
	"strings"
)

type Op uint8

const (
	OpConst Op = iota // bit-vector constant (k) or bool (w==0, k in {0,1})
	OpVar             // free variable, name
	OpMem             // bytes [off, off+w/8) of byte base `name`; args[0] = offset (64 bit)
	OpApp             // uninterpreted function `name` applied to args
	OpNot
	OpAnd // n-ary bool
	OpOr  // n-ary bool
	OpEq
	OpUlt
	OpUle
	OpSlt
	OpSle
	OpIte
	OpLin // sum coefs[i]*args[i] + k  (mod 2^w)
	OpMul
	OpUdiv
	OpUrem
	OpSdiv
	OpSrem
	OpBAnd
	OpBOr
	OpBXor
	OpShl
	OpLshr
	OpAshr
	OpConcat  // args MSB first
	OpExtract // bits [lo, lo+w) of args[0]
	OpSext
)

var opNames = map[Op]string{OpNot: "not", OpAnd: "and", OpOr: "or", OpEq: "=", OpUlt: "bvult", OpUle: "bvule",
	OpSlt: "bvslt", OpSle: "bvsle", OpIte: "ite", OpMul: "bvmul", OpUdiv: "bvudiv", OpUrem: "bvurem",
	OpSdiv: "bvsdiv", OpSrem: "bvsrem", OpBAnd: "bvand", OpBOr: "bvor", OpBXor: "bvxor", OpShl: "bvshl",
	OpLshr: "bvlshr", OpAshr: "bvashr", OpConcat: "concat"}

type Term struct {
	op    Op
	w     int // width in bits, 0 = Bool
	lo    int // OpExtract
	id    int
	args  []*Term
	coefs []uint64 // OpLin
	k     uint64   // OpConst (w<=64), OpLin constant
	big   *big.Int // OpConst w>64
	name  string
	// unsigned range (w in 1..64)
	rlo, rhi uint64
	depth    int32
}

// TB builds and interns terms.  Not safe for concurrent use.
type TB struct {
	small [256]*Term
	tab   map[string]*Term
	n     int
	fresh map[string]int
	T, F  *Term
	keyb  []byte
	subst map[int]*Term
	// injective functions: f(a)==f(b) iff a==b
	injective map[string]bool
	absCache  map[int]map[string]bool
	leafCache map[int]map[string]bool
	ring      *ringTab
}

func NewTB() *TB {
	tb := &TB{tab: map[string]*Term{}, fresh: map[string]int{}, injective: map[string]bool{}, absCache: map[int]map[string]bool{}, leafCache: map[int]map[string]bool{}}
	tb.F = tb.intern(&Term{op: OpConst, w: 0, k: 0})
	tb.T = tb.intern(&Term{op: OpConst, w: 0, k: 1})
	return tb
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func (tb *TB) intern(t *Term) *Term {
	b := tb.keyb[:0]
	b = append(b, byte(t.op))
	b = strconv.AppendInt(b, int64(t.w), 36)
	b = append(b, '|')
	if t.op == OpExtract {
		b = strconv.AppendInt(b, int64(t.lo), 36)
		b = append(b, '|')
	}
	if t.op == OpConst || t.op == OpLin {
		b = strconv.AppendUint(b, t.k, 36)
		b = append(b, '|')
	}
	if t.big != nil {
		b = t.big.Append(b, 36)
		b = append(b, '|')
	}
	if t.name != "" {
		b = append(b, t.name...)
		b = append(b, 0)
	}
	for i, a := range t.args {
		b = strconv.AppendInt(b, int64(a.id), 36)
		b = append(b, ',')
		if t.coefs != nil {
			b = strconv.AppendUint(b, t.coefs[i], 36)
			b = append(b, ';')
		}
	}
	tb.keyb = b
	if o, ok := tb.tab[string(b)]; ok {
		return o
	}
	tb.n++
	t.id = tb.n
	for _, a := range t.args {
		if a.depth >= t.depth {
			t.depth = a.depth + 1
		}
	}
	tb.setRange(t)
	tb.tab[string(b)] = t
	return t
}

func (tb *TB) setRange(t *Term) {
	if t.w == 0 || t.w > 64 {
		return
	}
	m := mask(t.w)
	t.rlo, t.rhi = 0, m
	switch t.op {
	case OpConst:
		t.rlo, t.rhi = t.k, t.k
	case OpIte:
		a, b := t.args[1], t.args[2]
		t.rlo, t.rhi = min64(a.rlo, b.rlo), max64(a.rhi, b.rhi)
	case OpConcat:
		var lo, hi uint64
		for _, a := range t.args {
			if a.w >= 64 {
				return
			}
			lo = lo<<uint(a.w) | a.rlo
			hi = hi<<uint(a.w) | a.rhi
		}
		t.rlo, t.rhi = lo, hi
	case OpExtract:
		a := t.args[0]
		if a.w <= 64 && a.rhi>>uint(t.lo) <= m {
			t.rlo, t.rhi = a.rlo>>uint(t.lo), a.rhi>>uint(t.lo)
		}
	case OpLin:
		lo, hi, ok := linRange(t)
		if ok {
			t.rlo, t.rhi = lo, hi
		}
	case OpUrem:
		b := t.args[1]
		if b.rlo > 0 {
			t.rhi = min64(b.rhi-1, t.args[0].rhi)
		}
	case OpUdiv:
		b := t.args[1]
		if b.rlo > 0 {
			t.rhi = t.args[0].rhi / b.rlo
			t.rlo = t.args[0].rlo / b.rhi
		}
	case OpMul:
		h, l := bits.Mul64(t.args[0].rhi, t.args[1].rhi)
		if h == 0 && l <= m {
			t.rhi = l
			t.rlo = t.args[0].rlo * t.args[1].rlo
		}
	case OpLshr:
		t.rhi = t.args[0].rhi
		if t.args[1].rlo < 64 {
			t.rhi >>= t.args[1].rlo
		} else {
			t.rhi = 0
		}
	case OpBAnd:
		t.rhi = min64(t.args[0].rhi, t.args[1].rhi)
	case OpBOr, OpBXor:
		n := bits.Len64(t.args[0].rhi | t.args[1].rhi)
		t.rhi = mask(n)
		if n == 0 {
			t.rhi = 0
		}
		if t.op == OpBOr {
			t.rlo = max64(t.args[0].rlo, t.args[1].rlo)
		}
	}
}

func min64(a, b uint64) uint64 {
	if a < b {
		return a
	}
	return b
}
func max64(a, b uint64) uint64 {
	if a > b {
		return a
	}
	return b
}

// exact (non-wrapping) range of a linear term, using signed interpretation of
// the coefficients; ok=false if it may wrap.
func linRange(t *Term) (uint64, uint64, bool) {
	if t.w > 64 {
		return 0, 0, false
	}
	lo, hi := new(big.Int), new(big.Int)
	lo.Set(signedBig(t.k, t.w))
	hi.Set(lo)
	for i, a := range t.args {
		c := signedBig(t.coefs[i], t.w)
		x := new(big.Int).Mul(c, new(big.Int).SetUint64(a.rlo))
		y := new(big.Int).Mul(c, new(big.Int).SetUint64(a.rhi))
		if c.Sign() < 0 {
			x, y = y, x
		}
		lo.Add(lo, x)
		hi.Add(hi, y)
	}
	if lo.Sign() < 0 || hi.BitLen() > t.w {
		// maybe the constant should be read unsigned
		return 0, 0, false
	}
	return lo.Uint64(), hi.Uint64(), true
}

func signedBig(k uint64, w int) *big.Int {
	if w < 64 {
		if k>>(uint(w)-1) != 0 {
			return big.NewInt(int64(k | ^mask(w)))
		}
		return big.NewInt(int64(k))
	}
	return big.NewInt(int64(k))
}

func (t *Term) isConst() bool { return t.op == OpConst }
func (t *Term) isTrue() bool  { return t.op == OpConst && t.w == 0 && t.k == 1 }
func (t *Term) isFalse() bool { return t.op == OpConst && t.w == 0 && t.k == 0 }
func (t *Term) isZero() bool {
	if t.op != OpConst {
		return false
	}
	if t.big != nil {
		return t.big.Sign() == 0
	}
	return t.k == 0
}

func (tb *TB) Bool(b bool) *Term {
	if b {
		return tb.T
	}
	return tb.F
}

func (tb *TB) Const(w int, k uint64) *Term {
	if w > 64 {
		return tb.BigConst(w, new(big.Int).SetUint64(k))
	}
	k &= mask(w)
	if w == 64 && k < uint64(len(tb.small)) {
		if tb.small[k] == nil {
			tb.small[k] = tb.intern(&Term{op: OpConst, w: w, k: k})
		}
		return tb.small[k]
	}
	return tb.intern(&Term{op: OpConst, w: w, k: k})
}

func (tb *TB) BigConst(w int, v *big.Int) *Term {
	if w <= 64 {
		return tb.Const(w, new(big.Int).And(v, new(big.Int).SetUint64(mask(w))).Uint64())
	}
	if v.BitLen() > w || v.Sign() < 0 {
		m := new(big.Int).Lsh(big.NewInt(1), uint(w))
		v = new(big.Int).Mod(v, m)
	}
	return tb.intern(&Term{op: OpConst, w: w, big: v})
}

func (t *Term) bigVal() *big.Int {
	if t.big != nil {
		return t.big
	}
	return new(big.Int).SetUint64(t.k)
}

func (tb *TB) BytesConst(b []byte) *Term {
	return tb.BigConst(8*len(b), new(big.Int).SetBytes(b))
}

func (tb *TB) Var(name string, w int) *Term {
	return tb.intern(&Term{op: OpVar, w: w, name: name})
}

// A variable with a declared range.
func (tb *TB) RangeVar(name string, w int, lo, hi uint64) *Term {
	// The range is part of the name: terms derived from the variable are
	// simplified with it, and are shared by every job of a worker.
	t := tb.intern(&Term{op: OpVar, w: w, name: fmt.Sprintf("%s~%d~%d", name, lo, hi)})
	t.rlo, t.rhi = lo, hi
	return t
}

func (tb *TB) FreshName(hint string) string {
	n := tb.fresh[hint]
	tb.fresh[hint] = n + 1
	if n == 0 {
		return hint
	}
	return fmt.Sprintf("%s!%d", hint, n)
}

func (tb *TB) Fresh(hint string, w int) *Term {
	return tb.Var(tb.FreshName(hint), w)
}

func (tb *TB) App(name string, w int, args ...*Term) *Term {
	return tb.intern(&Term{op: OpApp, w: w, name: name, args: append([]*Term(nil), args...)})
}

func (tb *TB) Mem(base string, off *Term, nbytes int) *Term {
	if nbytes == 0 {
		panic("Mem of zero bytes")
	}
	return tb.intern(&Term{op: OpMem, w: 8 * nbytes, name: base, args: []*Term{off}})
}

// ---- booleans

func (tb *TB) Not(a *Term) *Term {
	switch {
	case a.isTrue():
		return tb.F
	case a.isFalse():
		return tb.T
	case a.op == OpNot:
		return a.args[0]
	case a.op == OpUlt:
		return tb.Ule(a.args[1], a.args[0])
	case a.op == OpUle:
		return tb.Ult(a.args[1], a.args[0])
	case a.op == OpSlt:
		return tb.Sle(a.args[1], a.args[0])
	case a.op == OpSle:
		return tb.Slt(a.args[1], a.args[0])
	}
	return tb.intern(&Term{op: OpNot, args: []*Term{a}})
}

func (tb *TB) nary(op Op, xs []*Term) *Term {
	unit, zero := tb.T, tb.F
	if op == OpOr {
		unit, zero = tb.F, tb.T
	}
	var flat []*Term
	seen := map[int]bool{}
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x == zero {
			return false
		}
		if x == unit || seen[x.id] {
			return true
		}
		if x.op == op {
			for _, y := range x.args {
				if !add(y) {
					return false
				}
			}
			return true
		}
		seen[x.id] = true
		flat = append(flat, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return zero
		}
	}
	for _, x := range flat {
		if n := tb.Not(x); seen[n.id] {
			return zero
		}
	}
	// absorption: and(a, or(a,b)) = a ; and(a, or(!a,b)) = and(a,b)
	dual := OpOr
	if op == OpOr {
		dual = OpAnd
	}
	if len(flat) <= 64 {
		for i, x := range flat {
			if x.op == dual {
				changed := false
				var keep []*Term
				for _, y := range x.args {
					if seen[y.id] {
						// absorbed entirely
						rest := append(append([]*Term(nil), flat[:i]...), flat[i+1:]...)
						return tb.nary(op, rest)
					}
					if seen[tb.Not(y).id] {
						changed = true
						continue
					}
					keep = append(keep, y)
				}
				if changed {
					rest := append(append([]*Term(nil), flat[:i]...), flat[i+1:]...)
					rest = append(rest, tb.nary(dual, keep))
					return tb.nary(op, rest)
				}
			}
		}
	}
	switch len(flat) {
	case 0:
		return unit
	case 1:
		return flat[0]
	}
	sort.Slice(flat, func(i, j int) bool { return flat[i].id < flat[j].id })
	return tb.intern(&Term{op: op, args: flat})
}

func (tb *TB) And(xs ...*Term) *Term { return tb.nary(OpAnd, xs) }
func (tb *TB) Or(xs ...*Term) *Term  { return tb.nary(OpOr, xs) }
func (tb *TB) Implies(a, b *Term) *Term {
	return tb.Or(tb.Not(a), b)
}

func (tb *TB) Ite(c, a, b *Term) *Term {
	if a == b || c.isTrue() {
		return a
	}
	if c.isFalse() {
		return b
	}
	if a.w != b.w {
		panic(fmt.Sprintf("ite width %d %d", a.w, b.w))
	}
	if c.op == OpNot {
		c, a, b = c.args[0], b, a
	}
	if a.w == 0 {
		switch {
		case a.isTrue():
			return tb.Or(c, b)
		case a.isFalse():
			return tb.And(tb.Not(c), b)
		case b.isTrue():
			return tb.Or(tb.Not(c), a)
		case b.isFalse():
			return tb.And(c, a)
		}
	}
	if a.op == OpIte && a.args[0] == c {
		a = a.args[1]
	}
	if b.op == OpIte && b.args[0] == c {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	// normal form: case distinctions inside of functions and concatenations
	if a.op == OpApp && b.op == OpApp && a.name == b.name && len(a.args) == len(b.args) && len(a.args) > 0 {
		same := true
		for i := range a.args {
			same = same && a.args[i].w == b.args[i].w
		}
		if same {
			as := make([]*Term, len(a.args))
			for i := range as {
				as[i] = tb.Ite(c, a.args[i], b.args[i])
			}
			return tb.App(a.name, a.w, as...)
		}
	}
	if a.op == OpConcat && (b.op == OpConcat || b.isConst()) || a.isConst() && b.op == OpConcat {
		if r := tb.iteConcat(c, a, b); r != nil {
			return r
		}
	}
	return tb.intern(&Term{op: OpIte, w: a.w, args: []*Term{c, a, b}})
}

// Ite of two concatenations with the same parts; constants can be cut.
func (tb *TB) iteConcat(c, a, b *Term) *Term {
	parts := func(t *Term) []*Term {
		if t.op == OpConcat {
			return t.args
		}
		return []*Term{t}
	}
	xs, ys := append([]*Term(nil), parts(a)...), append([]*Term(nil), parts(b)...)
	var px, py []*Term
	for len(xs) > 0 {
		x, y := xs[0], ys[0]
		switch {
		case x.w == y.w:
			xs, ys = xs[1:], ys[1:]
		case x.w > y.w && x.isConst():
			xs[0] = tb.Extract(x, 0, x.w-y.w)
			x = tb.Extract(x, x.w-y.w, y.w)
			ys = ys[1:]
		case y.w > x.w && y.isConst():
			ys[0] = tb.Extract(y, 0, y.w-x.w)
			y = tb.Extract(y, y.w-x.w, x.w)
			xs = xs[1:]
		default:
			return nil
		}
		px, py = append(px, x), append(py, y)
	}
	if len(px) < 2 {
		return nil
	}
	r := make([]*Term, len(px))
	for i := range r {
		r[i] = tb.Ite(c, px[i], py[i])
	}
	return tb.Concat(r...)
}

func (tb *TB) Eq(a, b *Term) *Term {
	if a == b {
		return tb.T
	}
	if a.w != b.w {
		panic(fmt.Sprintf("eq width %d %d: %s / %s", a.w, b.w, a.Str(3), b.Str(3)))
	}
	if a.isConst() && b.isConst() {
		return tb.F // interned
	}
	if a.w == 0 {
		if a.isConst() {
			a, b = b, a
		}
		if b.isTrue() {
			return a
		}
		if b.isFalse() {
			return tb.Not(a)
		}
		if a == tb.Not(b) {
			return tb.F
		}
		if b.id < a.id {
			a, b = b, a
		}
		return tb.intern(&Term{op: OpEq, args: []*Term{a, b}})
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.w <= 64 && (a.rlo > b.rhi || b.rlo > a.rhi) {
		return tb.F
	}
	if a.w <= 64 && (a.op == OpLin || b.op == OpLin) {
		d := tb.Sub(a, b)
		if d.isConst() {
			return tb.Bool(d.isZero())
		}
		// normalise: d == 0
		if d.op == OpLin {
			if len(d.args) == 1 {
				// c*x + k == 0
				c := d.coefs[0]
				if c == 1 {
					return tb.eqRaw(d.args[0], tb.Const(a.w, -d.k))
				}
				if c == mask(a.w) {
					return tb.eqRaw(d.args[0], tb.Const(a.w, d.k))
				}
				// unique solution when no wrap: c*x = -k with range
				x := d.args[0]
				for _, cc := range []struct{ c, k uint64 }{{c, -d.k & mask(a.w)}, {-c & mask(a.w), d.k}} {
					h, l := bits.Mul64(cc.c, x.rhi)
					if h == 0 && l <= mask(a.w) {
						if cc.k%cc.c != 0 {
							return tb.F
						}
						return tb.eqRaw(x, tb.Const(a.w, cc.k/cc.c))
					}
				}
			} else if len(d.args) == 2 {
				m := mask(a.w)
				if d.k == 0 && d.coefs[0] == (-d.coefs[1])&m {
					// c*(x-y)=0
					c := d.coefs[0]
					x, y := d.args[0], d.args[1]
					if c == 1 || c == m {
						return tb.eqRaw(x, y)
					}
					sc := min64(c, (-c)&m)
					h1, l1 := bits.Mul64(sc, x.rhi)
					h2, l2 := bits.Mul64(sc, y.rhi)
					if h1 == 0 && h2 == 0 && l1 <= m && l2 <= m {
						return tb.eqRaw(x, y)
					}
				}
				// x*c + y*e + k: keep
			}
			if a.op == OpLin && b.op == OpLin || true {
				// split into positive and negative sides for stability
				return tb.eqLin(d)
			}
		}
		return tb.eqRaw(d, tb.Const(a.w, 0))
	}
	return tb.eqRaw(a, b)
}

// Equality of a linear difference with zero, written as pos == neg.
func (tb *TB) eqLin(d *Term) *Term {
	w := d.w
	var pa, na []*Term
	var pc, nc []uint64
	for i, x := range d.args {
		c := d.coefs[i]
		if c>>(uint(w)-1) != 0 {
			na = append(na, x)
			nc = append(nc, (-c)&mask(w))
		} else {
			pa = append(pa, x)
			pc = append(pc, c)
		}
	}
	var pk, nk uint64
	if d.k>>(uint(w)-1) != 0 {
		nk = (-d.k) & mask(w)
	} else {
		pk = d.k
	}
	return tb.eqRaw(tb.mkLin(w, pa, pc, pk), tb.mkLin(w, na, nc, nk))
}

func (tb *TB) eqRaw(a, b *Term) *Term {
	if a == b {
		return tb.T
	}
	if a.isConst() && b.isConst() {
		return tb.F
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.w <= 64 && (a.rlo > b.rhi || b.rlo > a.rhi) {
		return tb.F
	}
	if a.op == OpIte && b.isConst() && (a.args[1].isConst() || a.args[2].isConst()) {
		return tb.Or(tb.And(a.args[0], tb.Eq(a.args[1], b)), tb.And(tb.Not(a.args[0]), tb.Eq(a.args[2], b)))
	}
	if a.op == OpIte && b.op == OpIte && a.args[0] == b.args[0] {
		return tb.Or(tb.And(a.args[0], tb.Eq(a.args[1], b.args[1])), tb.And(tb.Not(a.args[0]), tb.Eq(a.args[2], b.args[2])))
	}
	if a.op == OpApp && b.op == OpApp && a.name == b.name && tb.injective[a.name] && len(a.args) == len(b.args) {
		var cs []*Term
		for i := range a.args {
			if a.args[i].w != b.args[i].w {
				return tb.F
			}
			cs = append(cs, tb.Eq(a.args[i], b.args[i]))
		}
		return tb.And(cs...)
	}
	if a.op == OpConcat || b.op == OpConcat {
		// split at all boundaries of both
		var cuts []int
		add := func(t *Term) {
			if t.op == OpConcat {
				p := 0
				for i := len(t.args) - 1; i > 0; i-- {
					p += t.args[i].w
					cuts = append(cuts, p)
				}
			}
		}
		add(a)
		add(b)
		sort.Ints(cuts)
		// an equality between two structured words is only split when
		// pieces fall into const/ext parts; splitting is always sound.
		var cs []*Term
		prev := 0
		for i := 0; i <= len(cuts); i++ {
			var c int
			if i == len(cuts) {
				c = a.w
			} else {
				c = cuts[i]
			}
			if c == prev {
				continue
			}
			e := tb.eqPiece(tb.Extract(a, prev, c-prev), tb.Extract(b, prev, c-prev))
			if e.isFalse() {
				return tb.F
			}
			cs = append(cs, e)
			prev = c
		}
		return tb.And(cs...)
	}
	return tb.eqPiece(a, b)
}

func (tb *TB) eqPiece(a, b *Term) *Term {
	if a == b {
		return tb.T
	}
	if a.isConst() && b.isConst() {
		return tb.F
	}
	if a.w <= 64 && (a.rlo > b.rhi || b.rlo > a.rhi) {
		return tb.F
	}
	if a.w == 1 && b.isConst() || a.w == 1 && a.isConst() {
		// keep
	}
	if b.id < a.id {
		a, b = b, a
	}
	if a.isConst() {
		a, b = b, a
	}
	// x ^ y == c / x ^ y == x ^ z
	if a.op == OpBXor && b.op == OpBXor {
		for i := 0; i < 2; i++ {
			for j := 0; j < 2; j++ {
				if a.args[i] == b.args[j] {
					return tb.Eq(a.args[1-i], b.args[1-j])
				}
			}
		}
	}
	return tb.intern(&Term{op: OpEq, args: []*Term{a, b}})
}

func (tb *TB) Ult(a, b *Term) *Term {
	if a.w != b.w {
		panic("ult width")
	}
	if a == b {
		return tb.F
	}
	if a.w <= 64 {
		if a.rhi < b.rlo {
			return tb.T
		}
		if a.rlo >= b.rhi {
			return tb.F
		}
		if b.isConst() && b.k == 1 {
			return tb.Eq(a, tb.Const(a.w, 0))
		}
		if a.isConst() && a.k == 0 {
			return tb.Not(tb.Eq(b, a))
		}
		if t := tb.cmpLin(a, b, true); t != nil {
			return t
		}
		// concat(0.., x) < concat(0.., y) : drop equal leading constants
		if z := commonZeros(a, b); z > 0 {
			return tb.Ult(tb.Extract(a, 0, a.w-z), tb.Extract(b, 0, b.w-z))
		}
	} else if a.isConst() && b.isConst() {
		return tb.Bool(a.bigVal().Cmp(b.bigVal()) < 0)
	}
	return tb.intern(&Term{op: OpUlt, args: []*Term{a, b}})
}

func (tb *TB) Ule(a, b *Term) *Term {
	if a == b {
		return tb.T
	}
	if a.w <= 64 {
		if a.rhi <= b.rlo {
			return tb.T
		}
		if a.rlo > b.rhi {
			return tb.F
		}
		if a.isConst() && a.k == 1 {
			return tb.Not(tb.Eq(b, tb.Const(a.w, 0)))
		}
		if b.isConst() && b.k == 0 {
			return tb.Eq(a, b)
		}
		if t := tb.cmpLin(a, b, false); t != nil {
			return t
		}
		if z := commonZeros(a, b); z > 0 {
			return tb.Ule(tb.Extract(a, 0, a.w-z), tb.Extract(b, 0, b.w-z))
		}
		// x <= c  ->  x < c+1 is a less canonical choice; use ult for consts
		if b.isConst() && b.k < mask(b.w) {
			return tb.intern(&Term{op: OpUlt, args: []*Term{a, tb.Const(b.w, b.k+1)}})
		}
		if a.isConst() && a.k > 0 {
			return tb.intern(&Term{op: OpUlt, args: []*Term{tb.Const(a.w, a.k-1), b}})
		}
	} else if a.isConst() && b.isConst() {
		return tb.Bool(a.bigVal().Cmp(b.bigVal()) <= 0)
	}
	return tb.intern(&Term{op: OpUle, args: []*Term{a, b}})
}

// number of leading bits that are zero in both (for narrowing comparisons)
func commonZeros(a, b *Term) int {
	z := func(t *Term) int {
		if t.op == OpConcat && t.args[0].isZero() {
			return t.args[0].w
		}
		if t.op == OpConst {
			return t.w - bits.Len64(t.k)
		}
		return 0
	}
	x, y := z(a), z(b)
	if y < x {
		x = y
	}
	if a.op != OpConcat && b.op != OpConcat {
		return 0
	}
	if x >= a.w {
		x = a.w - 1
	}
	return x
}

// Compare linear terms that do not wrap: decide by range of the difference.
func (tb *TB) cmpLin(a, b *Term, strict bool) *Term {
	if a.op != OpLin && b.op != OpLin {
		return nil
	}
	// both sides must be non-wrapping
	for _, t := range []*Term{a, b} {
		if t.op == OpLin {
			if _, _, ok := linRange(t); !ok {
				return nil
			}
		}
	}
	// compute exact integer difference b - a
	lo, hi := new(big.Int), new(big.Int)
	co := map[*Term]*big.Int{}
	k := new(big.Int)
	acc := func(t *Term, sign int64) {
		if t.op == OpLin {
			k.Add(k, new(big.Int).Mul(big.NewInt(sign), signedBig(t.k, t.w)))
			for i, x := range t.args {
				c := new(big.Int).Mul(big.NewInt(sign), signedBig(t.coefs[i], t.w))
				if o, ok := co[x]; ok {
					o.Add(o, c)
				} else {
					co[x] = c
				}
			}
		} else if t.isConst() {
			k.Add(k, new(big.Int).Mul(big.NewInt(sign), t.bigVal()))
		} else {
			if o, ok := co[t]; ok {
				o.Add(o, big.NewInt(sign))
			} else {
				co[t] = big.NewInt(sign)
			}
		}
	}
	acc(b, 1)
	acc(a, -1)
	lo.Set(k)
	hi.Set(k)
	var single *Term
	nz := 0
	for x, c := range co {
		if c.Sign() == 0 {
			continue
		}
		nz++
		single = x
		p := new(big.Int).Mul(c, new(big.Int).SetUint64(x.rlo))
		q := new(big.Int).Mul(c, new(big.Int).SetUint64(x.rhi))
		if c.Sign() < 0 {
			p, q = q, p
		}
		lo.Add(lo, p)
		hi.Add(hi, q)
	}
	lim := int64(0)
	if strict {
		lim = 1
	}
	if lo.Cmp(big.NewInt(lim)) >= 0 {
		return tb.T
	}
	if hi.Cmp(big.NewInt(lim)) < 0 {
		return tb.F
	}
	if nz == 1 {
		// c*x + k >= lim  (integers)
		c := co[single]
		w := single.w
		r := new(big.Int).Sub(big.NewInt(lim), k) // c*x >= r
		if c.Sign() > 0 {
			// x >= ceil(r/c)
			q := ceilDiv(r, c)
			if q.Sign() <= 0 {
				return tb.T
			}
			if q.BitLen() > w {
				return tb.F
			}
			return tb.Ule(tb.Const(w, q.Uint64()), single)
		}
		// x <= floor(-r/-c) = floor(r/c) with c<0: x <= floor((-r)/|c|)
		nc := new(big.Int).Neg(c)
		nr := new(big.Int).Neg(r)
		q := floorDiv(nr, nc)
		if q.Sign() < 0 {
			return tb.F
		}
		if q.BitLen() > w {
			return tb.T
		}
		return tb.Ule(single, tb.Const(w, q.Uint64()))
	}
	return nil
}

func floorDiv(a, b *big.Int) *big.Int {
	q, m := new(big.Int).DivMod(a, b, new(big.Int))
	_ = m
	return q // Euclidean with b>0 == floor
}
func ceilDiv(a, b *big.Int) *big.Int {
	n := new(big.Int).Neg(a)
	return new(big.Int).Neg(floorDiv(n, b))
}

func (tb *TB) Slt(a, b *Term) *Term {
	if a == b {
		return tb.F
	}
	w := a.w
	h := uint64(1) << uint(w-1)
	if a.rhi < h && b.rhi < h {
		return tb.Ult(a, b)
	}
	if a.isConst() && b.isConst() {
		return tb.Bool(signedBig(a.k, w).Cmp(signedBig(b.k, w)) < 0)
	}
	if a.rlo >= h && b.rhi < h {
		return tb.T
	}
	if a.rhi < h && b.rlo >= h {
		return tb.F
	}
	return tb.intern(&Term{op: OpSlt, args: []*Term{a, b}})
}
func (tb *TB) Sle(a, b *Term) *Term {
	if a == b {
		return tb.T
	}
	w := a.w
	h := uint64(1) << uint(w-1)
	if a.rhi < h && b.rhi < h {
		return tb.Ule(a, b)
	}
	if a.isConst() && b.isConst() {
		return tb.Bool(signedBig(a.k, w).Cmp(signedBig(b.k, w)) <= 0)
	}
	if a.rlo >= h && b.rhi < h {
		return tb.T
	}
	if a.rhi < h && b.rlo >= h {
		return tb.F
	}
	return tb.intern(&Term{op: OpSle, args: []*Term{a, b}})
}

// ---- arithmetic

func (tb *TB) mkLin(w int, args []*Term, coefs []uint64, k uint64) *Term {
	m := mask(w)
	k &= m
	acc := map[*Term]uint64{}
	var order []*Term
	var add func(t *Term, c uint64)
	add = func(t *Term, c uint64) {
		c &= m
		if c == 0 {
			return
		}
		switch t.op {
		case OpConst:
			k = (k + c*t.k) & m
			return
		case OpLin:
			k = (k + c*t.k) & m
			for i, x := range t.args {
				add(x, c*t.coefs[i])
			}
			return
		case OpConcat:
			// concat(x, 0...0) = x<<s with high part zero-extended; treat
			// as multiple of the un-shifted word when low part is zero
			last := t.args[len(t.args)-1]
			if last.isZero() && last.w < w {
				hi := tb.Extract(t, last.w, w-last.w)
				add(tb.Concat(tb.Const(last.w, 0), hi), c<<uint(last.w))
				return
			}
		}
		if _, ok := acc[t]; !ok {
			order = append(order, t)
		}
		acc[t] = (acc[t] + c) & m
	}
	for i, a := range args {
		add(a, coefs[i])
	}
	var na []*Term
	for _, t := range order {
		if acc[t] != 0 {
			na = append(na, t)
		}
	}
	if len(na) == 0 {
		return tb.Const(w, k)
	}
	if len(na) == 1 && acc[na[0]] == 1 && k == 0 {
		return na[0]
	}
	sort.Slice(na, func(i, j int) bool { return na[i].id < na[j].id })
	nc := make([]uint64, len(na))
	for i, t := range na {
		nc[i] = acc[t]
	}
	return tb.intern(&Term{op: OpLin, w: w, args: na, coefs: nc, k: k})
}

func (tb *TB) Add(a, b *Term) *Term {
	if a.w != b.w {
		panic("add width")
	}
	if a.w > 64 {
		panic("wide add")
	}
	// disjoint bits: treat as or when both are concats with complementary zeros
	if a.op == OpConcat && b.op == OpConcat && tb.disjoint(a, b) {
		return tb.BOr(a, b)
	}
	return tb.mkLin(a.w, []*Term{a, b}, []uint64{1, 1}, 0)
}
func (tb *TB) Sub(a, b *Term) *Term {
	return tb.mkLin(a.w, []*Term{a, b}, []uint64{1, ^uint64(0)}, 0)
}
func (tb *TB) Neg(a *Term) *Term {
	return tb.mkLin(a.w, []*Term{a}, []uint64{^uint64(0)}, 0)
}
func (tb *TB) Mul(a, b *Term) *Term {
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		return tb.mkLin(a.w, []*Term{a}, []uint64{b.k}, 0)
	}
	if a.op == OpLin && len(a.args) == 1 && a.k == 0 {
		return tb.mkLin(a.w, []*Term{tb.Mul(a.args[0], b)}, []uint64{a.coefs[0]}, 0)
	}
	if b.op == OpLin && len(b.args) == 1 && b.k == 0 {
		return tb.mkLin(a.w, []*Term{tb.Mul(a, b.args[0])}, []uint64{b.coefs[0]}, 0)
	}
	if b.id < a.id {
		a, b = b, a
	}
	return tb.intern(&Term{op: OpMul, w: a.w, args: []*Term{a, b}})
}

func (tb *TB) disjoint(a, b *Term) bool {
	// true if for every bit at most one of a, b may be nonzero, judged by zero constants in concats
	za, zb := zeroRanges(a), zeroRanges(b)
	// every bit must be in za or zb
	pos := 0
	for pos < a.w {
		adv := false
		for _, r := range za {
			if r[0] <= pos && pos < r[1] {
				pos = r[1]
				adv = true
			}
		}
		for _, r := range zb {
			if r[0] <= pos && pos < r[1] {
				pos = r[1]
				adv = true
			}
		}
		if !adv {
			return false
		}
	}
	return true
}

func zeroRanges(t *Term) [][2]int {
	var out [][2]int
	if t.op == OpConst {
		v := t.bigVal()
		for i := 0; i < t.w; i++ {
			if v.Bit(i) == 0 {
				out = append(out, [2]int{i, i + 1})
			}
		}
		return out
	}
	if t.op != OpConcat {
		return nil
	}
	p := 0
	for i := len(t.args) - 1; i >= 0; i-- {
		a := t.args[i]
		if a.isZero() {
			out = append(out, [2]int{p, p + a.w})
		}
		p += a.w
	}
	return out
}

func (tb *TB) Udiv(a, b *Term) *Term {
	if b.isConst() && b.k != 0 {
		if a.isConst() {
			return tb.Const(a.w, a.k/b.k)
		}
		if b.k&(b.k-1) == 0 {
			return tb.Lshr(a, tb.Const(a.w, uint64(bits.TrailingZeros64(b.k))))
		}
		// (c*x + k)/c with no wrap
		if a.op == OpLin {
			if _, _, ok := linRange(a); ok && a.k>>(uint(a.w)-1) == 0 {
				all := true
				cs := make([]uint64, len(a.coefs))
				for i, c := range a.coefs {
					if c%b.k != 0 || c>>(uint(a.w)-1) != 0 {
						all = false
						break
					}
					cs[i] = c / b.k
				}
				if all {
					return tb.mkLin(a.w, a.args, cs, a.k/b.k)
				}
			}
		}
	}
	return tb.intern(&Term{op: OpUdiv, w: a.w, args: []*Term{a, b}})
}
func (tb *TB) Urem(a, b *Term) *Term {
	if b.isConst() && b.k != 0 {
		if a.isConst() {
			return tb.Const(a.w, a.k%b.k)
		}
		if a.rhi < b.k {
			return a
		}
		if b.k&(b.k-1) == 0 {
			n := bits.TrailingZeros64(b.k)
			if n == 0 {
				return tb.Const(a.w, 0)
			}
			return tb.Zext(tb.Extract(a, 0, n), a.w)
		}
		if a.op == OpLin {
			if _, _, ok := linRange(a); ok && a.k>>(uint(a.w)-1) == 0 {
				all := true
				for _, c := range a.coefs {
					if c%b.k != 0 || c>>(uint(a.w)-1) != 0 {
						all = false
						break
					}
				}
				if all {
					return tb.Const(a.w, a.k%b.k)
				}
			}
		}
	}
	return tb.intern(&Term{op: OpUrem, w: a.w, args: []*Term{a, b}})
}
func (tb *TB) Sdiv(a, b *Term) *Term {
	h := uint64(1) << uint(a.w-1)
	if a.rhi < h && b.rhi < h {
		return tb.Udiv(a, b)
	}
	if a.isConst() && b.isConst() && b.k != 0 {
		q := new(big.Int).Quo(signedBig(a.k, a.w), signedBig(b.k, b.w))
		return tb.Const(a.w, uint64(q.Int64()))
	}
	return tb.intern(&Term{op: OpSdiv, w: a.w, args: []*Term{a, b}})
}
func (tb *TB) Srem(a, b *Term) *Term {
	h := uint64(1) << uint(a.w-1)
	if a.rhi < h && b.rhi < h {
		return tb.Urem(a, b)
	}
	if a.isConst() && b.isConst() && b.k != 0 {
		q := new(big.Int).Rem(signedBig(a.k, a.w), signedBig(b.k, b.w))
		return tb.Const(a.w, uint64(q.Int64()))
	}
	return tb.intern(&Term{op: OpSrem, w: a.w, args: []*Term{a, b}})
}

// ---- bit operations

func (tb *TB) Concat(xs ...*Term) *Term {
	var flat []*Term
	push := func(x *Term) {
		for {
			if len(flat) == 0 {
				flat = append(flat, x)
				return
			}
			p := flat[len(flat)-1]
			j := tb.joinPair(p, x)
			if j == nil {
				flat = append(flat, x)
				return
			}
			flat = flat[:len(flat)-1]
			x = j
		}
	}
	for _, x := range xs {
		if x.w == 0 {
			panic("concat of bool")
		}
		if x.op == OpConcat {
			for _, y := range x.args {
				push(y)
			}
		} else {
			push(x)
		}
	}
	if len(flat) == 1 {
		return flat[0]
	}
	w := 0
	for _, x := range flat {
		w += x.w
	}
	return tb.intern(&Term{op: OpConcat, w: w, args: flat})
}

// join high part p with low part x when they are adjacent pieces
func (tb *TB) joinPair(p, x *Term) *Term {
	if p.isConst() && x.isConst() {
		v := new(big.Int).Lsh(p.bigVal(), uint(x.w))
		v.Or(v, x.bigVal())
		return tb.BigConst(p.w+x.w, v)
	}
	if p.op == OpMem && x.op == OpMem && p.name == x.name {
		if tb.Sub(x.args[0], p.args[0]) == tb.Const(64, uint64(p.w/8)) {
			return tb.intern(&Term{op: OpMem, w: p.w + x.w, name: p.name, args: p.args})
		}
	}
	if p.op == OpExtract && x.op == OpExtract && p.args[0] == x.args[0] && x.lo+x.w == p.lo {
		return tb.Extract(p.args[0], x.lo, p.w+x.w)
	}
	// extract(x, hi) ++ ... where one side is the full variable is impossible (sizes)
	if p.op == OpBXor && x.op == OpBXor {
		// (a^b)++(c^d) with a++c and b++d joinable
		for i := 0; i < 2; i++ {
			u := tb.joinPair(p.args[0], x.args[i])
			if u == nil {
				continue
			}
			v := tb.joinPair(p.args[1], x.args[1-i])
			if v == nil {
				continue
			}
			return tb.BXor(u, v)
		}
	}
	if p.op == OpIte && x.op == OpIte && p.args[0] == x.args[0] {
		a := tb.joinPair(p.args[1], x.args[1])
		b := tb.joinPair(p.args[2], x.args[2])
		if a != nil && b != nil {
			return tb.Ite(p.args[0], a, b)
		}
	}
	return nil
}

func (tb *TB) Extract(a *Term, lo, w int) *Term {
	if lo == 0 && w == a.w {
		return a
	}
	if w <= 0 || lo < 0 || lo+w > a.w {
		panic(fmt.Sprintf("extract lo=%d w=%d of %d", lo, w, a.w))
	}
	switch a.op {
	case OpConst:
		v := new(big.Int).Rsh(a.bigVal(), uint(lo))
		if v.BitLen() > w {
			v.And(v, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(w)), big.NewInt(1)))
		}
		return tb.BigConst(w, v)
	case OpExtract:
		return tb.Extract(a.args[0], a.lo+lo, w)
	case OpMem:
		if lo%8 == 0 && w%8 == 0 {
			// big-endian: high bits are first bytes
			nb := a.w / 8
			hiByte := (lo + w) / 8
			off := uint64(nb - hiByte)
			return tb.Mem(a.name, tb.Add(a.args[0], tb.Const(64, off)), w/8)
		}
		// narrow to covering bytes first
		l8 := lo / 8 * 8
		h8 := (lo + w + 7) / 8 * 8
		if l8 != 0 || h8 != a.w {
			return tb.Extract(tb.Extract(a, l8, h8-l8), lo-l8, w)
		}
	case OpConcat:
		var parts []*Term
		p := a.w
		for _, x := range a.args {
			hi := p
			l := p - x.w
			p = l
			// overlap of [l,hi) with [lo,lo+w)
			ol, oh := l, hi
			if lo > ol {
				ol = lo
			}
			if lo+w < oh {
				oh = lo + w
			}
			if ol < oh {
				parts = append(parts, tb.Extract(x, ol-l, oh-ol))
			}
		}
		return tb.Concat(parts...)
	case OpIte:
		if a.args[1].isConst() || a.args[2].isConst() || a.w <= 64 || cheapExtract(a.args[1]) && cheapExtract(a.args[2]) {
			return tb.Ite(a.args[0], tb.Extract(a.args[1], lo, w), tb.Extract(a.args[2], lo, w))
		}
	case OpBXor:
		return tb.BXor(tb.Extract(a.args[0], lo, w), tb.Extract(a.args[1], lo, w))
	case OpBAnd:
		return tb.BAnd(tb.Extract(a.args[0], lo, w), tb.Extract(a.args[1], lo, w))
	case OpBOr:
		return tb.BOr(tb.Extract(a.args[0], lo, w), tb.Extract(a.args[1], lo, w))
	case OpLin:
		if lo == 0 {
			as := make([]*Term, len(a.args))
			for i, x := range a.args {
				as[i] = tb.Extract(x, 0, w)
			}
			return tb.mkLin(w, as, a.coefs, a.k)
		}
		if a.w <= 64 && a.rhi>>uint(lo) == 0 {
			return tb.Const(w, 0)
		}
		// 2^k x: bits lo.. are bits lo-k.. of x
		tz := bits.TrailingZeros64(a.k)
		for _, c := range a.coefs {
			if z := bits.TrailingZeros64(c); z < tz {
				tz = z
			}
		}
		if tz > lo {
			tz = lo
		}
		if tz > 0 && a.w <= 64 {
			sh := func(c uint64) uint64 {
				return uint64(int64(c<<uint(64-a.w))>>uint(64-a.w)>>uint(tz)) & mask(a.w)
			}
			cs := make([]uint64, len(a.coefs))
			for i, c := range a.coefs {
				cs[i] = sh(c)
			}
			return tb.Extract(tb.mkLin(a.w, a.args, cs, sh(a.k)), lo-tz, w)
		}
	case OpSext:
		x := a.args[0]
		if lo+w <= x.w {
			return tb.Extract(x, lo, w)
		}
	}
	if a.w <= 64 && a.rhi>>uint(lo) == 0 {
		return tb.Const(w, 0)
	}
	return tb.intern(&Term{op: OpExtract, w: w, lo: lo, args: []*Term{a}})
}

func cheapExtract(t *Term) bool {
	switch t.op {
	case OpMem, OpConst, OpVar, OpApp, OpConcat, OpExtract, OpIte:
		return true
	}
	return false
}

func (tb *TB) Zext(a *Term, w int) *Term {
	if w == a.w {
		return a
	}
	if w < a.w {
		return tb.Extract(a, 0, w)
	}
	if w <= 64 && a.op == OpLin {
		if _, _, ok := linRange(a); ok {
			as := make([]*Term, len(a.args))
			cs := make([]uint64, len(a.args))
			for i, x := range a.args {
				as[i] = tb.Zext(x, w)
				cs[i] = uint64(signedBig(a.coefs[i], a.w).Int64())
			}
			return tb.mkLin(w, as, cs, uint64(signedBig(a.k, a.w).Int64()))
		}
	}
	if a.op == OpIte {
		return tb.Ite(a.args[0], tb.Zext(a.args[1], w), tb.Zext(a.args[2], w))
	}
	return tb.Concat(tb.Const(w-a.w, 0), a)
}

func (tb *TB) Sext(a *Term, w int) *Term {
	if w <= a.w {
		return tb.Zext(a, w)
	}
	if a.isConst() {
		return tb.BigConst(w, new(big.Int).Mod(signedBig(a.k, a.w), new(big.Int).Lsh(big.NewInt(1), uint(w))))
	}
	if a.w <= 64 && a.rhi < uint64(1)<<uint(a.w-1) {
		return tb.Zext(a, w)
	}
	return tb.intern(&Term{op: OpSext, w: w, args: []*Term{a}})
}

func (tb *TB) bitop(op Op, a, b *Term) *Term {
	if a.w != b.w {
		panic("bitop width")
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.isConst() && b.isConst() {
		x, y := a.bigVal(), b.bigVal()
		r := new(big.Int)
		switch op {
		case OpBAnd:
			r.And(x, y)
		case OpBOr:
			r.Or(x, y)
		case OpBXor:
			r.Xor(x, y)
		}
		return tb.BigConst(a.w, r)
	}
	if a == b {
		if op == OpBXor {
			return tb.BigConst(a.w, big.NewInt(0))
		}
		return a
	}
	if b.isConst() {
		bv := b.bigVal()
		if bv.Sign() == 0 {
			if op == OpBAnd {
				return b
			}
			return a
		}
		ones := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(a.w)), big.NewInt(1))
		if bv.Cmp(ones) == 0 {
			if op == OpBAnd {
				return a
			}
			if op == OpBOr {
				return b
			}
			if a.op == OpBXor && a.args[1].isConst() && a.args[1] == b {
				return a.args[0]
			}
		}
		if op == OpBAnd || op == OpBOr {
			// split by runs of equal bits in the constant
			var parts []*Term
			hi := a.w
			nruns := 0
			for hi > 0 {
				bit := bv.Bit(hi - 1)
				lo := hi - 1
				for lo > 0 && bv.Bit(lo-1) == bit {
					lo--
				}
				nruns++
				w := hi - lo
				if (bit == 1) == (op == OpBAnd) {
					parts = append(parts, tb.Extract(a, lo, w))
				} else if bit == 1 {
					parts = append(parts, tb.BigConst(w, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(w)), big.NewInt(1))))
				} else {
					parts = append(parts, tb.BigConst(w, big.NewInt(0)))
				}
				hi = lo
			}
			if nruns <= 8 {
				return tb.Concat(parts...)
			}
		}
	}
	// split along zero constants of concats
	if a.op == OpConcat || b.op == OpConcat {
		hasZ := func(t *Term) bool {
			if t.op != OpConcat {
				return false
			}
			for _, x := range t.args {
				if x.isConst() {
					return true
				}
			}
			return false
		}
		if hasZ(a) || hasZ(b) {
			var cuts []int
			for _, t := range []*Term{a, b} {
				if t.op == OpConcat {
					p := 0
					for i := len(t.args) - 1; i > 0; i-- {
						p += t.args[i].w
						cuts = append(cuts, p)
					}
				}
			}
			sort.Ints(cuts)
			cuts = append(cuts, a.w)
			var parts []*Term
			prev := 0
			for _, c := range cuts {
				if c == prev {
					continue
				}
				parts = append(parts, tb.bitop(op, tb.Extract(a, prev, c-prev), tb.Extract(b, prev, c-prev)))
				prev = c
			}
			for i, j := 0, len(parts)-1; i < j; i, j = i+1, j-1 {
				parts[i], parts[j] = parts[j], parts[i]
			}
			return tb.Concat(parts...)
		}
	}
	if op == OpBXor {
		// x ^ (x ^ y) = y
		for _, p := range [][2]*Term{{a, b}, {b, a}} {
			if p[1].op == OpBXor {
				if p[1].args[0] == p[0] {
					return p[1].args[1]
				}
				if p[1].args[1] == p[0] {
					return p[1].args[0]
				}
			}
		}
	}
	if !b.isConst() && b.id < a.id {
		a, b = b, a
	}
	return tb.intern(&Term{op: op, w: a.w, args: []*Term{a, b}})
}

func (tb *TB) BAnd(a, b *Term) *Term { return tb.bitop(OpBAnd, a, b) }
func (tb *TB) BOr(a, b *Term) *Term  { return tb.bitop(OpBOr, a, b) }
func (tb *TB) BXor(a, b *Term) *Term { return tb.bitop(OpBXor, a, b) }
func (tb *TB) BNot(a *Term) *Term {
	ones := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(a.w)), big.NewInt(1))
	return tb.BXor(a, tb.BigConst(a.w, ones))
}

// shifts: b has the same width as a; amounts >= w give 0 (or sign)
func (tb *TB) Shl(a, b *Term) *Term {
	if b.isConst() {
		if b.k >= uint64(a.w) {
			return tb.Const(a.w, 0)
		}
		s := int(b.k)
		if s == 0 {
			return a
		}
		if a.op == OpLin {
			return tb.mkLin(a.w, []*Term{a}, []uint64{uint64(1) << uint(s)}, 0)
		}
		return tb.Concat(tb.Extract(a, 0, a.w-s), tb.Const(s, 0))
	}
	if a.isZero() {
		return a
	}
	return tb.intern(&Term{op: OpShl, w: a.w, args: []*Term{a, b}})
}
func (tb *TB) Lshr(a, b *Term) *Term {
	if b.isConst() {
		if b.k >= uint64(a.w) {
			return tb.Const(a.w, 0)
		}
		s := int(b.k)
		if s == 0 {
			return a
		}
		// exact division of a linear term
		if a.op == OpLin {
			if _, _, ok := linRange(a); ok {
				c := uint64(1) << uint(s)
				all := a.k>>(uint(a.w)-1) == 0
				cs := make([]uint64, len(a.coefs))
				for i, x := range a.coefs {
					if x%c != 0 || x>>(uint(a.w)-1) != 0 {
						all = false
						break
					}
					cs[i] = x / c
				}
				if all {
					return tb.mkLin(a.w, a.args, cs, a.k/c)
				}
			}
		}
		return tb.Zext(tb.Extract(a, s, a.w-s), a.w)
	}
	if a.isZero() {
		return a
	}
	return tb.intern(&Term{op: OpLshr, w: a.w, args: []*Term{a, b}})
}
func (tb *TB) Ashr(a, b *Term) *Term {
	if a.w <= 64 && a.rhi < uint64(1)<<uint(a.w-1) {
		return tb.Lshr(a, b)
	}
	if b.isConst() {
		s := int(b.k)
		if b.k >= uint64(a.w) {
			s = a.w - 1
		}
		if s == 0 {
			return a
		}
		return tb.Sext(tb.Extract(a, s, a.w-s), a.w)
	}
	return tb.intern(&Term{op: OpAshr, w: a.w, args: []*Term{a, b}})
}

// ---- printing

func (t *Term) String() string { return t.Str(6) }

func (t *Term) Str(d int) string {
	switch t.op {
	case OpConst:
		if t.w == 0 {
			return map[uint64]string{0: "false", 1: "true"}[t.k]
		}
		if t.big != nil {
			return fmt.Sprintf("#x%x:%d", t.big, t.w)
		}
		return fmt.Sprintf("%d", t.k)
	case OpVar:
		return t.name
	}
	if d == 0 {
		return "…"
	}
	var sb strings.Builder
	switch t.op {
	case OpMem:
		return fmt.Sprintf("%s[%s;%d]", t.name, t.args[0].Str(d-1), t.w/8)
	case OpApp:
		sb.WriteString(t.name)
	case OpExtract:
		fmt.Fprintf(&sb, "ext[%d+%d]", t.lo, t.w)
	case OpSext:
		fmt.Fprintf(&sb, "sext%d", t.w)
	case OpLin:
		sb.WriteString("(")
		for i, a := range t.args {
			if i > 0 {
				sb.WriteString(" + ")
			}
			if t.coefs[i] != 1 {
				fmt.Fprintf(&sb, "%s*", signedBig(t.coefs[i], t.w))
			}
			sb.WriteString(a.Str(d - 1))
		}
		if t.k != 0 {
			fmt.Fprintf(&sb, " + %s", signedBig(t.k, t.w))
		}
		sb.WriteString(")")
		return sb.String()
	default:
		sb.WriteString(opNames[t.op])
	}
	sb.WriteString("(")
	for i, a := range t.args {
		if i > 0 {
			sb.WriteString(", ")
		}
		if i > 40 {
			sb.WriteString("...")
			break
		}
		sb.WriteString(a.Str(d - 1))
	}
	sb.WriteString(")")
	return sb.String()
}
