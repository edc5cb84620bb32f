package main

// A second translation of queries: unsigned machine words as mathematical
// integers with their ranges.  A sum is reduced modulo 2^w only where the
// interval of the sum leaves the range; everything that is not linear becomes
// an unconstrained integer of its range.  So "unsat" is conclusive; nothing
// else is used.

import (
	"fmt"
	"math/big"
	"strings"
)

type liaExpr struct {
	s      string
	lo, hi *big.Int
}

type liaPrinter struct {
	out  strings.Builder
	ints map[int]liaExpr
	bls  map[int]string
	n    int
	big  bool // something too wide
}

var bigOne = big.NewInt(1)

func pow2(w int) *big.Int { return new(big.Int).Lsh(bigOne, uint(w)) }

func smtInt(x *big.Int) string {
	if x.Sign() < 0 {
		return "(- " + new(big.Int).Neg(x).String() + ")"
	}
	return x.String()
}

func (p *liaPrinter) fresh(pre string) string {
	p.n++
	return fmt.Sprintf("%s%d", pre, p.n)
}

func (p *liaPrinter) variable(lo, hi *big.Int) string {
	n := p.fresh("v")
	fmt.Fprintf(&p.out, "(declare-const %s Int)\n(assert (<= %s %s %s))\n", n, smtInt(lo), n, smtInt(hi))
	return n
}

func (p *liaPrinter) def(e string, lo, hi *big.Int) liaExpr {
	n := p.fresh("e")
	fmt.Fprintf(&p.out, "(define-fun %s () Int %s)\n", n, e)
	return liaExpr{n, lo, hi}
}

func (p *liaPrinter) leaf(t *Term) liaExpr {
	lo, hi := big.NewInt(0), new(big.Int).Sub(pow2(t.w), bigOne)
	if t.w <= 64 && t.op != OpConst {
		if t.rhi != 0 || t.rlo != 0 {
			lo, hi = new(big.Int).SetUint64(t.rlo), new(big.Int).SetUint64(t.rhi)
		}
	}
	return liaExpr{p.variable(lo, hi), lo, hi}
}

// mod reduces e modulo 2^w.
func (p *liaPrinter) mod(e liaExpr, w int) liaExpr {
	m := pow2(w)
	ql := new(big.Int).Div(e.lo, m) // Euclidean, m > 0: floor
	qh := new(big.Int).Div(e.hi, m)
	if ql.Cmp(qh) == 0 {
		if ql.Sign() == 0 {
			return e
		}
		off := new(big.Int).Mul(ql, m)
		return p.def(fmt.Sprintf("(- %s %s)", e.s, smtInt(off)), new(big.Int).Sub(e.lo, off), new(big.Int).Sub(e.hi, off))
	}
	q := p.variable(ql, qh)
	r := p.def(fmt.Sprintf("(- %s (* %s %s))", e.s, smtInt(m), q), big.NewInt(0), new(big.Int).Sub(m, bigOne))
	fmt.Fprintf(&p.out, "(assert (<= 0 %s %s))\n", r.s, r.hi.String())
	return r
}

// div: floor(e / 2^k)
func (p *liaPrinter) div(e liaExpr, d *big.Int) (q, r liaExpr) {
	ql, qh := new(big.Int).Div(e.lo, d), new(big.Int).Div(e.hi, d)
	qv := p.variable(ql, qh)
	r = p.def(fmt.Sprintf("(- %s (* %s %s))", e.s, d.String(), qv), big.NewInt(0), new(big.Int).Sub(d, bigOne))
	fmt.Fprintf(&p.out, "(assert (<= 0 %s %s))\n", r.s, r.hi.String())
	return liaExpr{qv, ql, qh}, r
}

func bmin(a, b *big.Int) *big.Int {
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}

func bmax(a, b *big.Int) *big.Int {
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}

func (p *liaPrinter) intTerm(t *Term) liaExpr {
	if t.op == OpConst {
		v := t.bigVal()
		return liaExpr{smtInt(v), v, v}
	}
	if e, ok := p.ints[t.id]; ok {
		return e
	}
	e := p.int1(t)
	if t.w <= 64 && (t.rlo != 0 || t.rhi != 0) {
		lo, hi := new(big.Int).SetUint64(t.rlo), new(big.Int).SetUint64(t.rhi)
		if lo.Cmp(e.lo) > 0 {
			e.lo = lo
			fmt.Fprintf(&p.out, "(assert (<= %s %s))\n", lo, e.s)
		}
		if hi.Cmp(e.hi) < 0 {
			e.hi = hi
			fmt.Fprintf(&p.out, "(assert (<= %s %s))\n", e.s, hi)
		}
	}
	p.ints[t.id] = e
	return e
}

func (p *liaPrinter) int1(t *Term) liaExpr {
	switch t.op {
	case OpIte:
		c := p.boolTerm(t.args[0])
		a, b := p.intTerm(t.args[1]), p.intTerm(t.args[2])
		return p.def(fmt.Sprintf("(ite %s %s %s)", c, a.s, b.s), bmin(a.lo, b.lo), bmax(a.hi, b.hi))
	case OpLin:
		// modulo 2^w: choose the sign of coefficients and constant
		var parts []string
		half := pow2(t.w - 1)
		full := pow2(t.w)
		signed := func(k uint64) *big.Int {
			v := new(big.Int).SetUint64(k)
			if v.Cmp(half) >= 0 {
				v.Sub(v, full)
			}
			return v
		}
		k := signed(t.k)
		lo, hi := new(big.Int).Set(k), new(big.Int).Set(k)
		if k.Sign() != 0 {
			parts = append(parts, smtInt(k))
		}
		for i, a := range t.args {
			e := p.intTerm(a)
			c := signed(t.coefs[i])
			x, y := new(big.Int).Mul(c, e.lo), new(big.Int).Mul(c, e.hi)
			lo.Add(lo, bmin(x, y))
			hi.Add(hi, bmax(x, y))
			if c.Cmp(bigOne) == 0 {
				parts = append(parts, e.s)
			} else {
				parts = append(parts, fmt.Sprintf("(* %s %s)", smtInt(c), e.s))
			}
		}
		s := parts[0]
		if len(parts) > 1 {
			s = "(+ " + strings.Join(parts, " ") + ")"
		}
		return p.mod(p.def(s, lo, hi), t.w)
	case OpConcat:
		var parts []string
		lo, hi := new(big.Int), new(big.Int)
		sh := t.w
		for _, a := range t.args {
			sh -= a.w
			if a.op == OpConst && a.bigVal().Sign() == 0 {
				continue
			}
			e := p.intTerm(a)
			m := pow2(sh)
			lo.Add(lo, new(big.Int).Mul(e.lo, m))
			hi.Add(hi, new(big.Int).Mul(e.hi, m))
			if sh == 0 {
				parts = append(parts, e.s)
			} else {
				parts = append(parts, fmt.Sprintf("(* %s %s)", m, e.s))
			}
		}
		if len(parts) == 0 {
			return liaExpr{"0", lo, hi}
		}
		if len(parts) == 1 {
			return p.def(parts[0], lo, hi)
		}
		return p.def("(+ "+strings.Join(parts, " ")+")", lo, hi)
	case OpExtract:
		e := p.intTerm(t.args[0])
		if t.lo > 0 {
			e, _ = p.div(e, pow2(t.lo))
		}
		return p.mod(e, t.w)
	case OpShl:
		if t.args[1].isConst() && t.args[1].w <= 64 && t.args[1].k < uint64(t.w) {
			e := p.intTerm(t.args[0])
			m := pow2(int(t.args[1].k))
			return p.mod(p.def(fmt.Sprintf("(* %s %s)", m, e.s), new(big.Int).Mul(e.lo, m), new(big.Int).Mul(e.hi, m)), t.w)
		}
	case OpLshr:
		if t.args[1].isConst() && t.args[1].w <= 64 && t.args[1].k < uint64(t.w) {
			q, _ := p.div(p.intTerm(t.args[0]), pow2(int(t.args[1].k)))
			return q
		}
	case OpUdiv, OpUrem:
		if t.args[1].isConst() && t.args[1].w <= 64 && t.args[1].k != 0 {
			q, r := p.div(p.intTerm(t.args[0]), new(big.Int).SetUint64(t.args[1].k))
			if t.op == OpUdiv {
				return q
			}
			return r
		}
	case OpMul:
		for i := 0; i < 2 && len(t.args) == 2; i++ {
			if a := t.args[i]; a.isConst() && a.w <= 64 {
				e, k := p.intTerm(t.args[1-i]), a.bigVal()
				return p.mod(p.def(fmt.Sprintf("(* %s %s)", k, e.s), new(big.Int).Mul(e.lo, k), new(big.Int).Mul(e.hi, k)), t.w)
			}
		}
	case OpSext:
		e := p.intTerm(t.args[0])
		w := t.args[0].w
		return p.def(fmt.Sprintf("(ite (< %s %s) %s (+ %s %s))", e.s, pow2(w-1), e.s, e.s, new(big.Int).Sub(pow2(t.w), pow2(w))),
			big.NewInt(0), new(big.Int).Sub(pow2(t.w), bigOne))
	}
	return p.leaf(t)
}

func (p *liaPrinter) boolTerm(t *Term) string {
	if t.op == OpConst {
		return constStr(t)
	}
	if s, ok := p.bls[t.id]; ok {
		return s
	}
	var e string
	switch t.op {
	case OpNot:
		e = "(not " + p.boolTerm(t.args[0]) + ")"
	case OpAnd, OpOr:
		op := "and"
		if t.op == OpOr {
			op = "or"
		}
		var as []string
		for _, a := range t.args {
			as = append(as, p.boolTerm(a))
		}
		e = "(" + op + " " + strings.Join(as, " ") + ")"
	case OpEq:
		if t.args[0].w == 0 {
			e = "(= " + p.boolTerm(t.args[0]) + " " + p.boolTerm(t.args[1]) + ")"
		} else {
			e = "(= " + p.intTerm(t.args[0]).s + " " + p.intTerm(t.args[1]).s + ")"
		}
	case OpUlt, OpUle, OpSlt, OpSle:
		a, b := p.intTerm(t.args[0]), p.intTerm(t.args[1])
		op := "<"
		if t.op == OpUle || t.op == OpSle {
			op = "<="
		}
		as, bs := a.s, b.s
		if t.op == OpSlt || t.op == OpSle {
			w := t.args[0].w
			sg := func(x liaExpr) string {
				if x.hi.Cmp(pow2(w-1)) < 0 {
					return x.s
				}
				return fmt.Sprintf("(ite (< %s %s) %s (- %s %s))", x.s, pow2(w-1), x.s, x.s, pow2(w))
			}
			as, bs = sg(a), sg(b)
		}
		e = "(" + op + " " + as + " " + bs + ")"
	case OpIte:
		e = "(ite " + p.boolTerm(t.args[0]) + " " + p.boolTerm(t.args[1]) + " " + p.boolTerm(t.args[2]) + ")"
	default:
		n := p.fresh("b")
		fmt.Fprintf(&p.out, "(declare-const %s Bool)\n", n)
		p.bls[t.id] = n
		return n
	}
	n := p.fresh("p")
	fmt.Fprintf(&p.out, "(define-fun %s () Bool %s)\n", n, e)
	p.bls[t.id] = n
	return n
}

func liaQuery(c *Term) string {
	p := &liaPrinter{ints: map[int]liaExpr{}, bls: map[int]string{}}
	cs := []*Term{c}
	if c.op == OpAnd {
		cs = c.args
	}
	for _, a := range cs {
		s := p.boolTerm(a)
		fmt.Fprintf(&p.out, "(assert %s)\n", s)
	}
	return p.out.String()
}

// liaUseful: there is arithmetic, and no very wide words.
func liaUseful(c *Term) bool {
	seen := map[int]bool{}
	arith, ok := false, true
	var walk func(t *Term)
	walk = func(t *Term) {
		if !ok || seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.w > 128 || len(seen) > 3000 {
			ok = false
			return
		}
		if t.op == OpLin || t.op == OpUlt || t.op == OpUle || t.op == OpSlt || t.op == OpSle {
			arith = true
		}
		if t.op == OpApp || t.op == OpMem {
			return
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(c)
	return ok && arith
}
