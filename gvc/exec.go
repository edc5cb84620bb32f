package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type unsupportedErr struct{ msg string }

func unsupported(f string, a ...interface{}) { panic(unsupportedErr{fmt.Sprintf(f, a...)}) }

// forkReq asks the interpreter to re-execute the current instruction under
// each of the (exhaustive) conditions.
type forkReq struct{ conds []*Term }

// pathEnd ends the current path (infeasible, or stopped on purpose).
type pathEnd struct{}

type fnInfo struct {
	idx  map[ssa.Value]int
	n    int
	pdom []*ssa.BasicBlock
	loop []bool // block is a loop header
	defb []*ssa.BasicBlock
}

type deferred struct {
	fn   Func
	args []Value
	call *ssa.CallCommon
}

type Frame struct {
	fn     *ssa.Function
	info   *fnInfo
	regs   []Value
	defers []deferred
	locals []int
	visits map[int]int
	forks  map[int]int
	depth  int
	cuts   map[int]*cutRec // loops entered at their invariant
}

func (fr *Frame) clone() *Frame {
	c := *fr
	c.regs = append([]Value(nil), fr.regs...)
	c.defers = fr.defers[:len(fr.defers):len(fr.defers)]
	c.locals = fr.locals[:len(fr.locals):len(fr.locals)]
	c.visits = map[int]int{}
	for k, v := range fr.visits {
		c.visits[k] = v
	}
	c.forks = map[int]int{}
	for k, v := range fr.forks {
		c.forks[k] = v
	}
	return &c
}

type Out struct {
	st  *State
	ret []Value
}

type Cont struct {
	st   *State
	fr   *Frame
	ret  []Value
	done bool
}

type Exec struct {
	loops     bool // apply loop invariants
	loopPhase int
	loopRec   *cutRec
	numbers   []*Term // see gvcNumber
	tb        *TB
	sol       *Solver
	ld        *Loader
	nobj      int
	globals   map[*ssa.Global]int
	infos     map[*ssa.Function]*fnInfo
	res       *Results
	harness   string
	deadline  time.Time
	started   time.Time
	steps     int
	timeout   time.Duration
	prefix    []int
	taken     []int
	spawned   [][]int
	writes    map[int]bool
	verify    map[*ssa.Function]int // >0: next call runs the body, contract asserted
	trace     []string
	constC    map[*ssa.Const]Value
	choices   []string
	unroll    int
	noContr   bool
	quiet     int
	curFn     *Frame
	curPos    token.Pos
	goHook    func(st *State, fn Func, args []Value) bool
	heldFn    map[string]int
	nativeN   int
	inputs    []inputRec
	pathsN    int
	reach     map[string]int
	funcs     map[string]bool
	natives   map[string]bool
	modelsU   map[string]bool
	contrU    map[string]bool
	pure      int
	schedN    int
	threads   []*threadRec
	lastMod   []*Model
	thorough  bool
	snaps     map[int]map[int]*Obj
	notes     map[string]bool
	threadN   int
	races     *raceLog
	co        *coro
	sched     bool // explore the orders in which goroutines run
	clones    int
	hstat     *harnessStat
	guardRefs map[int]string // objects that fields guarded by a lock refer to
}

type threadRec struct {
	fn   Func
	args []Value
	call *ssa.CallCommon
	id   int
}

type inputRec struct {
	name string
	kind string // u64, bool, bytes, len
	w    int
	t    *Term
	base string
	size *Term
}

// ---- function info

func (e *Exec) info(fn *ssa.Function) *fnInfo {
	if in, ok := e.infos[fn]; ok {
		return in
	}
	in := &fnInfo{idx: map[ssa.Value]int{}}
	add := func(v ssa.Value, b *ssa.BasicBlock) {
		in.idx[v] = in.n
		in.defb = append(in.defb, b)
		in.n++
	}
	for _, p := range fn.Params {
		add(p, nil)
	}
	for _, p := range fn.FreeVars {
		add(p, nil)
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				add(v, b)
			}
		}
	}
	// post dominators over blocks that can reach a return
	n := len(fn.Blocks)
	reach := make([]bool, n)
	var stack []*ssa.BasicBlock
	for _, b := range fn.Blocks {
		if len(b.Instrs) > 0 {
			if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				reach[b.Index] = true
				stack = append(stack, b)
			}
		}
	}
	for len(stack) > 0 {
		b := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		for _, p := range b.Preds {
			if !reach[p.Index] {
				reach[p.Index] = true
				stack = append(stack, p)
			}
		}
	}
	pd := make([]*big.Int, n) // set of postdominators, bit n = exit
	all := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(n+1)), big.NewInt(1))
	for i := range pd {
		pd[i] = all
	}
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			if !reach[i] {
				continue
			}
			var s *big.Int
			if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				s = new(big.Int).SetBit(new(big.Int), n, 1)
			} else {
				s = new(big.Int).Set(all)
				for _, q := range b.Succs {
					if reach[q.Index] {
						s.And(s, pd[q.Index])
					}
				}
			}
			s = new(big.Int).SetBit(s, i, 1)
			if s.Cmp(pd[i]) != 0 {
				pd[i] = s
				ch = true
			}
		}
	}
	in.pdom = make([]*ssa.BasicBlock, n)
	for i := 0; i < n; i++ {
		if !reach[i] {
			continue
		}
		// immediate: the strict postdominator with the largest set
		cnt := func(x *big.Int) int {
			c := 0
			for _, w := range x.Bits() {
				for ; w != 0; w &= w - 1 {
					c++
				}
			}
			return c
		}
		best, bc := -1, -1
		for j := 0; j < n; j++ {
			if j != i && pd[i].Bit(j) == 1 && reach[j] {
				if c := cnt(pd[j]); c > bc {
					best, bc = j, c
				}
			}
		}
		if best >= 0 {
			in.pdom[i] = fn.Blocks[best]
		}
	}
	in.loop = make([]bool, n)
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				in.loop[s.Index] = true
			}
		}
	}
	e.infos[fn] = in
	return in
}

func fnName(fn *ssa.Function) string {
	if fn == nil {
		return "?"
	}
	if s, ok := fnNames.Load(fn); ok {
		return s.(string)
	}
	s := fnName1(fn)
	fnNames.Store(fn, s)
	return s
}

var fnNames sync.Map

func fnName1(fn *ssa.Function) string {
	s := fn.RelString(nil)
	s = strings.ReplaceAll(s, "github.com/bwesterb/go-xmssmt.", "")
	s = strings.ReplaceAll(s, "github.com/bwesterb/go-xmssmt/internal/", "")
	return s
}

func (e *Exec) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := e.ld.fset.Position(p)
	f := q.Filename
	if i := strings.LastIndex(f, "/"); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// ---- solver front end

func leafSet(t *Term, abs bool, seen map[int]bool, names map[string]bool) {
	if seen[t.id] {
		return
	}
	seen[t.id] = true
	switch t.op {
	case OpVar:
		names[t.name] = true
	case OpMem:
		if t.args[0].isConst() {
			lo := t.args[0].k
			for i := uint64(0); i < uint64(t.w/8); i++ {
				names[fmt.Sprintf("%s@%d", t.name, lo+i)] = true
			}
		} else {
			names[t.name+"@@"] = true
		}
	case OpApp:
		if abs {
			names[fmt.Sprintf("$%d", t.id)] = true
			return
		}
		names["$"+t.name] = true
	}
	for _, a := range t.args {
		leafSet(a, abs, seen, names)
	}
}

func (e *Exec) leaves(t *Term) map[string]bool {
	if l, ok := e.tb.leafCache[t.id]; ok {
		return l
	}
	l := map[string]bool{}
	leafSet(t, false, map[int]bool{}, l)
	e.tb.leafCache[t.id] = l
	return l
}

// the same, with applications of uninterpreted functions as leaves
func (e *Exec) absLeaves(t *Term) map[string]bool {
	if l, ok := e.tb.absCache[t.id]; ok {
		return l
	}
	l := map[string]bool{}
	leafSet(t, true, map[int]bool{}, l)
	e.tb.absCache[t.id] = l
	return l
}

// slice of the path condition connected with c
func (e *Exec) relevant(pc []*Term, c *Term) []*Term { return e.connected(pc, c, e.leaves) }

func (e *Exec) connected(pc []*Term, c *Term, leaves func(*Term) map[string]bool) []*Term {
	want := map[string]bool{}
	for k := range leaves(c) {
		want[k] = true
	}
	used := make([]bool, len(pc))
	var out []*Term
	for ch := true; ch; {
		ch = false
		for i, p := range pc {
			if used[i] {
				continue
			}
			l := leaves(p)
			hit := false
			for k := range l {
				if want[k] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				ch = true
				for k := range l {
					want[k] = true
				}
			}
		}
	}
	for i, p := range pc {
		if used[i] {
			out = append(out, p)
		}
	}
	return out
}

func (e *Exec) query(st *State, c *Term, timeout time.Duration, model bool) (SatResult, *Model) {
	var conj []*Term
	if model {
		conj = append(conj, st.pc...)
	} else {
		conj = append(conj, e.relevant(st.pc, c)...)
	}
	conj = append(conj, c)
	return e.sol.Check(e.tb, conj, timeout, model)
}

// queryAbs is query without the meaning of uninterpreted functions: only
// Unsat is conclusive.
func (e *Exec) queryAbs(st *State, c *Term, timeout time.Duration) SatResult {
	return e.sol.CheckAbs(e.tb, append(e.connected(st.pc, c, e.absLeaves), c), timeout)
}

// feasible reports whether c may hold on this path (true when unknown).
func (e *Exec) feasible(st *State, c *Term) bool {
	c = st.simp(c)
	if c.isTrue() {
		return true
	}
	if c.isFalse() {
		return false
	}
	r := e.queryAbs(st, c, 3*time.Second)
	if r == Unsat {
		// remember
		n := e.tb.Not(c)
		st.facts[c] = false
		st.facts[n] = true
		return false
	}
	return true
}

// check an obligation
func (e *Exec) check(st *State, c *Term, kind, label string, pos token.Pos) {
	if e.pure > 0 {
		st.assume(c)
		if st.dead {
			panic(pathEnd{})
		}
		return
	}
	o := e.res.oblig(kind + ": " + label)
	o.Count++
	c0 := c
	c = st.simp(c)
	if c.isTrue() {
		o.Discharged++
		o.BySimp++
		return
	}
	if e.hstat.skip(o.Name) {
		o.Skipped++
		st.assume(c)
		if st.dead {
			panic(pathEnd{})
		}
		return
	}
	t0 := time.Now()
	var r SatResult
	n := e.tb.Not(c)
	if e.queryAbs(st, n, e.timeout) == Unsat {
		r = Unsat
	} else if r, _ = e.sol.Cegar(e.tb, append(e.relevant(st.pc, n), n), e.timeout); r == Unknown {
		r, _ = e.query(st, n, e.timeout, false)
	}
	o.Solver += time.Since(t0)
	switch r {
	case Unsat:
		o.Discharged++
		st.assume(c)
		return
	case Sat:
		if len(o.Refs) < 4 {
			// with the whole path condition this time
			r2, m := e.sol.Cegar(e.tb, append(append([]*Term(nil), st.pc...), n), e.timeout)
			if r2 == Unknown {
				r2, m = e.query(st, n, e.timeout, true)
			}
			if r2 == Unsat {
				o.Discharged++
				st.assume(c)
				if st.dead {
					panic(pathEnd{})
				}
				return
			}
			o.Refs = append(o.Refs, e.refutation(st, m, e.pos(pos), c0))
		}
		o.NRefuted++
		e.hstat.refuted(o.Name)
	default:
		o.Undecided++
		e.hstat.unknown(o.Name)
		if o.Why == "" {
			o.Why = "solver: unknown at " + e.pos(pos)
			if os.Getenv("GVC_DBG") != "" {
				o.Why += " " + c.Str(8)
			}
		}
	}
	st.assume(c)
	if st.dead {
		panic(pathEnd{})
	}
}

// concretize returns the constant value of t on this path, forking if needed
func (e *Exec) concretize(st *State, t *Term, limit int, what string) uint64 {
	t = st.subst1(t)
	if t.isConst() {
		return t.k
	}
	var conds []*Term
	var vals []uint64
	ex := e.tb.T
	for {
		_, m := e.sol.Check(e.tb, append(append([]*Term(nil), e.relevant(st.pc, e.tb.And(ex, e.tb.Eq(t, e.tb.Var("$cv", t.w))))...), ex, e.tb.Eq(t, e.tb.Var("$cv", t.w))), 3*time.Second, true)
		if m == nil {
			break
		}
		v, ok := m.vals[quoteSym("$cv")]
		if !ok {
			unsupported("cannot enumerate %s", what)
		}
		k := v.Uint64()
		vals = append(vals, k)
		c := e.tb.Eq(t, e.tb.Const(t.w, k))
		conds = append(conds, c)
		ex = e.tb.And(ex, e.tb.Not(c))
		if len(conds) > limit {
			unsupported("more than %d values for %s: %s", limit, what, t.Str(4))
		}
	}
	if len(conds) == 0 {
		panic(pathEnd{})
	}
	if len(conds) == 1 {
		st.assume(conds[0])
		return vals[0]
	}
	panic(forkReq{conds})
}

func (e *Exec) constInt(st *State, t *Term, what string) int {
	return int(int64(e.concretize(st, t, 64, what)))
}

func (e *Exec) resolve(st *State, v Value) Value {
	for {
		iv, ok := v.(IteV)
		if !ok {
			return v
		}
		c := st.simp(iv.c)
		switch {
		case c.isTrue():
			v = iv.a
		case c.isFalse():
			v = iv.b
		default:
			return v
		}
	}
}

// force gives a non-ite value, forking if needed
func (e *Exec) force(st *State, v Value) Value {
	v = e.resolve(st, v)
	if iv, ok := v.(IteV); ok {
		a := e.feasible(st, iv.c)
		b := e.feasible(st, e.tb.Not(iv.c))
		switch {
		case a && b:
			panic(forkReq{[]*Term{iv.c, e.tb.Not(iv.c)}})
		case a:
			st.assume(iv.c)
			return e.force(st, iv.a)
		case b:
			st.assume(e.tb.Not(iv.c))
			return e.force(st, iv.b)
		default:
			panic(pathEnd{})
		}
	}
	return v
}

// ---- constants and globals

func (e *Exec) constant(c *ssa.Const) Value {
	if v, ok := e.constC[c]; ok {
		return v
	}
	v := e.constant1(c)
	e.constC[c] = v
	return v
}

func (e *Exec) constant1(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return e.zero(t)
	}
	if w, _, ok := intWidth(t); ok {
		if w == 0 {
			return e.tb.Bool(constant.BoolVal(c.Value))
		}
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return e.tb.Const(w, uint64(i))
		}
		u, _ := constant.Uint64Val(v)
		return e.tb.Const(w, u)
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		return e.strLit(constant.StringVal(c.Value))
	}
	return Opaque{"const " + c.String()}
}

func (e *Exec) globalPtr(st *State, g *ssa.Global) Ptr {
	id, ok := e.globals[g]
	if !ok {
		e.nobj++
		id = e.nobj
		e.globals[g] = id
	}
	if st.heap[id] == nil {
		t := g.Type().(*types.Pointer).Elem()
		o := &Obj{id: id, typ: t, name: g.RelString(nil)}
		if e.ld.initialised(g.Pkg) {
			e.initObj(o, t)
		} else if types.Identical(t, types.Universe.Lookup("error").Type()) {
			e.nobj++
			eo := &Obj{id: e.nobj, typ: e.ld.errType, name: o.name}
			eo.val = Struct{[]Value{e.strLit(o.name)}}
			st.heap[eo.id] = eo
			o.val = Iface{types.NewPointer(e.ld.errType), Ptr{obj: eo.id}}
		} else {
			o.val = Opaque{"global " + o.name}
			if e.ld.nativeGlobal != nil {
				if v, ok := e.ld.nativeGlobal(e, g); ok {
					o.val = v
				}
			}
		}
		st.heap[id] = o
	}
	return Ptr{obj: id}
}

func (e *Exec) initObj(o *Obj, t types.Type) {
	if n, ok := isByteArray(t); ok {
		o.bytes = &Bytes{size: e.tb.Const(64, uint64(n))}
		return
	}
	o.val = e.zero(t)
}

func (e *Exec) get(st *State, fr *Frame, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constant(x)
	case *ssa.Global:
		return e.globalPtr(st, x)
	case *ssa.Function:
		return Func{fn: x}
	case *ssa.Builtin:
		return Func{bi: "builtin:" + x.Name()}
	}
	i, ok := fr.info.idx[v]
	if !ok {
		unsupported("no register for %s", v)
	}
	r := fr.regs[i]
	if r == nil {
		unsupported("undefined register %s in %s", v.Name(), fr.fn)
	}
	if _, ok := r.(IteV); ok {
		r = e.resolve(st, r)
	}
	return r
}

func (e *Exec) term(st *State, fr *Frame, v ssa.Value) *Term {
	x := e.get(st, fr, v)
	if t, ok := x.(*Term); ok {
		return t
	}
	x = e.force(st, x)
	t, ok := x.(*Term)
	if !ok {
		unsupported("not a scalar: %T for %s", x, v)
	}
	return t
}

func (fr *Frame) set(v ssa.Value, x Value) { fr.regs[fr.info.idx[v]] = x }

// ---- memory

func (e *Exec) nav(st *State, v Value, path []PathElem) Value {
	for i, pe := range path {
		v = e.force(st, v)
		switch x := v.(type) {
		case Struct:
			v = x.f[pe.f]
		case Array:
			if pe.t != nil {
				t := st.subst1(pe.t)
				if t.isConst() {
					v = x.e[int(t.k)]
					continue
				}
				rest := path[i+1:]
				var r Value
				for j := len(x.e) - 1; j >= 0; j-- {
					if uint64(j) > t.rhi || uint64(j) < t.rlo {
						continue
					}
					ev := e.nav(st, x.e[j], rest)
					if r == nil {
						r = ev
					} else {
						r = e.ite(st.simp(e.tb.Eq(t, e.tb.Const(64, uint64(j)))), ev, r)
					}
				}
				return r
			}
			v = x.e[pe.f]
		case BytesV:
			j := pe.f
			if pe.t != nil {
				t := st.subst1(pe.t)
				if !t.isConst() {
					var r *Term
					for j := x.n - 1; j >= 0; j-- {
						if uint64(j) > t.rhi || uint64(j) < t.rlo {
							continue
						}
						b := e.tb.Extract(x.t, 8*(x.n-1-j), 8)
						if r == nil {
							r = b
						} else {
							r = e.tb.Ite(st.simp(e.tb.Eq(t, e.tb.Const(64, uint64(j)))), b, r)
						}
					}
					return r
				}
				j = int(t.k)
			}
			v = e.tb.Extract(x.t, 8*(x.n-1-j), 8)
		default:
			unsupported("cannot navigate into %T", v)
		}
	}
	return v
}

func (e *Exec) upd(st *State, v Value, path []PathElem, nv Value) Value {
	if len(path) == 0 {
		return nv
	}
	v = e.force(st, v)
	pe := path[0]
	switch x := v.(type) {
	case Struct:
		fs := append([]Value(nil), x.f...)
		fs[pe.f] = e.upd(st, fs[pe.f], path[1:], nv)
		return Struct{fs}
	case Array:
		es := append([]Value(nil), x.e...)
		if pe.t != nil {
			t := st.subst1(pe.t)
			if t.isConst() {
				es[int(t.k)] = e.upd(st, es[int(t.k)], path[1:], nv)
				return Array{es}
			}
			for j := range es {
				if uint64(j) > t.rhi || uint64(j) < t.rlo {
					continue
				}
				es[j] = e.ite(st.simp(e.tb.Eq(t, e.tb.Const(64, uint64(j)))), e.upd(st, es[j], path[1:], nv), es[j])
			}
			return Array{es}
		}
		es[pe.f] = e.upd(st, es[pe.f], path[1:], nv)
		return Array{es}
	case BytesV:
		b := nv.(*Term)
		set := func(j int) *Term {
			var ps []*Term
			if j > 0 {
				ps = append(ps, e.tb.Extract(x.t, 8*(x.n-j), 8*j))
			}
			ps = append(ps, b)
			if j < x.n-1 {
				ps = append(ps, e.tb.Extract(x.t, 0, 8*(x.n-1-j)))
			}
			return e.tb.Concat(ps...)
		}
		j := pe.f
		if pe.t != nil {
			t := st.subst1(pe.t)
			if !t.isConst() {
				r := x.t
				for j := 0; j < x.n; j++ {
					c := st.simp(e.tb.Eq(t, e.tb.Const(64, uint64(j))))
					r = e.tb.Ite(c, set(j), r)
				}
				return BytesV{x.n, r}
			}
			j = int(t.k)
		}
		return BytesV{x.n, set(j)}
	}
	unsupported("cannot update inside %T", v)
	return nil
}

func (e *Exec) elemTerm(pe PathElem) *Term {
	if pe.t != nil {
		return pe.t
	}
	return e.tb.Const(64, uint64(pe.f))
}

func (e *Exec) load(st *State, p Ptr) Value {
	if p.obj == 0 {
		unsupported("load through nil")
	}
	e.notePtr(st, p, false)
	o := st.get(p.obj)
	if o.bytes != nil {
		if len(p.path) == 0 {
			if !o.bytes.size.isConst() {
				unsupported("loading a byte array of unknown size")
			}
			n := int(o.bytes.size.k)
			if n == 0 {
				return BytesV{}
			}
			return BytesV{n, e.bytesRead(st, o, e.tb.Const(64, 0), n)}
		}
		return e.bytesRead(st, o, e.elemTerm(p.path[0]), 1)
	}
	if o.arr != nil {
		if len(p.path) == 0 {
			unsupported("loading a whole symbolic array")
		}
		return e.nav(st, e.arrRead(st, o.arr, e.elemTerm(p.path[0])), p.path[1:])
	}
	return e.nav(st, o.val, p.path)
}

func (e *Exec) store(st *State, p Ptr, v Value) {
	if p.obj == 0 {
		unsupported("store through nil")
	}
	e.notePtr(st, p, true)
	o := st.get(p.obj)
	if o.bytes != nil {
		if len(p.path) == 0 {
			b := v.(BytesV)
			if b.n > 0 {
				e.bytesWrite(st, p.obj, e.tb.Const(64, 0), b.n, b.t)
			}
			return
		}
		e.bytesWrite(st, p.obj, e.elemTerm(p.path[0]), 1, v.(*Term))
		return
	}
	if o.arr != nil {
		if len(p.path) == 0 {
			unsupported("storing a whole symbolic array")
		}
		idx := e.elemTerm(p.path[0])
		if len(p.path) > 1 {
			v = e.upd(st, e.arrRead(st, o.arr, idx), p.path[1:], v)
		}
		o = o.clone()
		a := *o.arr
		a.log = append(a.log[:len(a.log):len(a.log)], arrWrite{e.tb.T, idx, v})
		o.arr = &a
		st.put(o)
		return
	}
	nv := e.upd(st, o.val, p.path, v)
	o = o.clone()
	o.val = nv
	st.put(o)
}

func (e *Exec) arrRead(st *State, a *SymArr, idx *Term) Value {
	idx = st.subst1(idx)
	type hit struct {
		c *Term
		v Value
	}
	var hits []hit
	var base Value
	for i := len(a.log) - 1; i >= 0; i-- {
		w := a.log[i]
		c := st.simp(e.tb.And(w.guard, e.tb.Eq(idx, st.subst1(w.idx))))
		if c.isFalse() {
			continue
		}
		if c.isTrue() {
			base = w.val
			break
		}
		if !e.feasible(st, c) {
			continue
		}
		hits = append(hits, hit{c, w.val})
	}
	if base == nil {
		if a.base != nil {
			base = e.evalPure(st, *a.base, []Value{idx})
		} else {
			base = a.zero
		}
	}
	for i := len(hits) - 1; i >= 0; i-- {
		base = e.ite(hits[i].c, hits[i].v, base)
	}
	return base
}

func (e *Exec) noteWrite(st *State, id int) {
	if e.writes != nil {
		e.writes[id] = true
	}
}

// read n bytes of a byte slice
func (e *Exec) readBytes(st *State, s Slice, off *Term, n int) *Term {
	if n == 0 {
		return nil
	}
	o := st.get(s.obj)
	at := e.tb.Add(s.off, off)
	if o.bytes != nil && len(s.path) == 0 {
		return e.bytesRead(st, o, at, n)
	}
	v := e.force(st, e.nav(st, o.val, s.path))
	switch x := v.(type) {
	case BytesV:
		at = st.subst1(at)
		if !at.isConst() {
			unsupported("symbolic range inside a byte array")
		}
		return e.tb.Extract(x.t, 8*(x.n-int(at.k)-n), 8*n)
	}
	unsupported("reading bytes of %T", v)
	return nil
}

func (e *Exec) writeBytes(st *State, s Slice, off *Term, n int, t *Term) {
	if n == 0 {
		return
	}
	o := st.get(s.obj)
	at := e.tb.Add(s.off, off)
	if o.bytes != nil && len(s.path) == 0 {
		e.bytesWrite(st, s.obj, at, n, t)
		return
	}
	v := e.force(st, e.nav(st, o.val, s.path))
	x, ok := v.(BytesV)
	at = st.subst1(at)
	if !ok || !at.isConst() {
		unsupported("writing bytes of %T at %s", v, at)
	}
	j := int(at.k)
	var ps []*Term
	if j > 0 {
		ps = append(ps, e.tb.Extract(x.t, 8*(x.n-j), 8*j))
	}
	ps = append(ps, t)
	if j+n < x.n {
		ps = append(ps, e.tb.Extract(x.t, 0, 8*(x.n-j-n)))
	}
	nv := BytesV{x.n, e.tb.Concat(ps...)}
	val := e.upd(st, o.val, s.path, nv)
	o = o.clone()
	o.val = val
	st.put(o)
}

// element access of non-byte slices
func (e *Exec) elemPtr(s Slice, idx *Term) Ptr {
	at := e.tb.Add(s.off, idx)
	pe := PathElem{t: at}
	if at.isConst() {
		pe = PathElem{f: int(at.k)}
	}
	return Ptr{s.obj, append(append([]PathElem(nil), s.path...), pe)}
}

func (e *Exec) newBytes(st *State, size *Term, name string) Slice {
	o := e.newObj(st, nil, name)
	o.bytes = &Bytes{size: size}
	e.noteWrite(st, o.id)
	return Slice{obj: o.id, off: e.tb.Const(64, 0), len: size, cap: size}
}

func (e *Exec) bytesFromTerm(st *State, t *Term, name string) Slice {
	n := 0
	if t != nil {
		n = t.w / 8
	}
	s := e.newBytes(st, e.tb.Const(64, uint64(n)), name)
	if n > 0 {
		st.get(s.obj).bytes.segs = []seg{{0, n, t}}
	}
	return s
}

func (e *Exec) makeSlice(st *State, elem types.Type, ln, cp *Term, name string) Slice {
	if isByte(elem) {
		s := e.newBytes(st, cp, name)
		s.len = ln
		return s
	}
	o := e.newObj(st, types.NewSlice(elem), name)
	e.noteWrite(st, o.id)
	cp = st.subst1(cp)
	if cp.isConst() && cp.k <= 1<<14 {
		es := make([]Value, cp.k)
		if cp.k > 0 {
			z := e.zero(elem)
			for i := range es {
				es[i] = z
			}
		}
		o.val = Array{es}
	} else {
		o.arr = &SymArr{size: cp, zero: e.zero(elem)}
	}
	return Slice{obj: o.id, off: e.tb.Const(64, 0), len: ln, cap: cp}
}

func (e *Exec) alloc(st *State, t types.Type, name string) Ptr {
	o := e.newObj(st, t, name)
	e.initObj(o, t)
	e.noteWrite(st, o.id)
	return Ptr{obj: o.id}
}

// ---- running

func (e *Exec) callFn(st *State, fn *ssa.Function, args []Value, binds []Value, depth int) []Out {
	e.ld.build(pkgOf(fn))
	if len(fn.Blocks) == 0 {
		unsupported("no body for %s", fn)
	}
	if depth > 400 {
		unsupported("recursion too deep in %s", fn)
	}
	if e.funcs != nil && e.pure == 0 && e.ld.inRepo(fn) {
		e.funcs[fnName(fn)] = true
	}
	in := e.info(fn)
	fr := &Frame{fn: fn, info: in, regs: make([]Value, in.n), visits: map[int]int{}, forks: map[int]int{}, depth: depth}
	if len(args) != len(fn.Params) {
		unsupported("argument count of %s: %d != %d", fn, len(args), len(fn.Params))
	}
	for i, p := range fn.Params {
		fr.set(p, args[i])
	}
	for i, p := range fn.FreeVars {
		fr.set(p, binds[i])
	}
	conts := e.run(st, fr, fn.Blocks[0], 0, nil)
	var outs []Out
	for _, c := range conts {
		if !c.done {
			panic("internal: undone continuation")
		}
		for _, id := range c.fr.locals {
			delete(c.st.heap, id)
		}
		outs = append(outs, Out{c.st, c.ret})
	}
	if len(outs) > 1 {
		outs = e.mergeOuts(outs, len(st.pc))
	}
	return outs
}

type stepResult struct {
	outs []Out
	fork *forkReq
	end  bool
}

func (e *Exec) run(st *State, fr *Frame, b *ssa.BasicBlock, i int, stop *ssa.BasicBlock) []Cont {
	for {
		if i >= len(b.Instrs) {
			panic("fell off block")
		}
		in := b.Instrs[i]
		e.steps++
		if e.steps&1023 == 0 && !e.deadline.IsZero() && time.Now().After(e.deadline) {
			unsupported("time limit")
		}
		if e.steps&1023 == 0 && memFull.Load() && time.Since(e.started) > 3*time.Second {
			unsupported("memory limit")
		}
		if e.steps&1023 == 0 && e.pure == 0 && e.hstat.over() {
			unsupported("stopped after failed obligations")
		}
		switch x := in.(type) {
		case *ssa.DebugRef:
			i++
			continue
		case *ssa.Phi:
			i++ // evaluated on arrival
			continue
		case *ssa.Jump:
			nb := b.Succs[0]
			e.enter(st, fr, b, nb)
			if nb == stop {
				return []Cont{{st: st, fr: fr}}
			}
			if e.ld.loopSpec != nil {
				if cs, ok := e.loopCut(st, fr, nb, stop); ok {
					return cs
				}
			}
			b, i = nb, 0
			continue
		case *ssa.If:
			r := e.protect(func() []Out {
				c := st.simp(e.term(st, fr, x.Cond))
				return []Out{{nil, []Value{c}}}
			})
			if r.end {
				return nil
			}
			if r.fork != nil {
				return e.refork(st, fr, b, i, stop, r.fork)
			}
			c := r.outs[0].ret[0].(*Term)
			t, f := c.isTrue(), c.isFalse()
			if !t && !f {
				ft := e.feasible(st, c)
				ff := !ft || e.feasible(st, e.tb.Not(c))
				if !ft && !ff {
					return nil
				}
				if !ft {
					f = true
				} else if !ff {
					t = true
				}
			}
			if t || f {
				k := 0
				if f {
					k = 1
				}
				nb := b.Succs[k]
				e.enter(st, fr, b, nb)
				if nb == stop {
					return []Cont{{st: st, fr: fr}}
				}
				if e.ld.loopSpec != nil {
					if cs, ok := e.loopCut(st, fr, nb, stop); ok {
						return cs
					}
				}
				b, i = nb, 0
				continue
			}
			fr.forks[b.Index]++
			if fr.forks[b.Index] > e.unroll {
				unsupported("loop without invariant: %s block %d (%s)", fr.fn, b.Index, e.pos(x.Cond.Pos()))
			}
			join := fr.info.pdom[b.Index]
			inner := join
			if inner == nil {
				inner = stop
			}
			st2, fr2 := st.clone(), fr.clone()
			base := st.clone()
			st.assume(c)
			st2.assume(e.tb.Not(c))
			var conts []Cont
			for k, s := range []*State{st, st2} {
				f := fr
				if k == 1 {
					f = fr2
				}
				if s.dead {
					continue
				}
				nb := b.Succs[k]
				e.enter(s, f, b, nb)
				if nb == inner {
					conts = append(conts, Cont{st: s, fr: f})
				} else {
					conts = append(conts, e.run(s, f, nb, 0, inner)...)
				}
			}
			if join == nil {
				return conts
			}
			var at, done []Cont
			for _, k := range conts {
				if k.done {
					done = append(done, k)
				} else {
					at = append(at, k)
				}
			}
			at = e.mergeConts(at, base, join)
			if join == stop {
				return append(done, at...)
			}
			if len(done) == 0 && len(at) == 1 {
				st, fr = at[0].st, at[0].fr
				if e.loops {
					if cs, ok := e.loopCut(st, fr, join, stop); ok {
						return cs
					}
				}
				b, i = join, 0
				continue
			}
			for _, k := range at {
				if e.loops {
					if cs, ok := e.loopCut(k.st, k.fr, join, stop); ok {
						done = append(done, cs...)
						continue
					}
				}
				done = append(done, e.run(k.st, k.fr, join, 0, stop)...)
			}
			return done
		case *ssa.Return:
			r := e.protect(func() []Out {
				var ret []Value
				for _, v := range x.Results {
					ret = append(ret, e.get(st, fr, v))
				}
				return []Out{{st, ret}}
			})
			if r.end {
				return nil
			}
			return []Cont{{st: st, fr: fr, ret: r.outs[0].ret, done: true}}
		case *ssa.Panic:
			e.curFn, e.curPos = fr, x.Pos()
			r := e.protect(func() []Out {
				e.check(st, e.tb.F, "no panic", fnName(fr.fn)+" reaches an explicit panic", x.Pos())
				return nil
			})
			_ = r
			return nil
		}
		e.curFn, e.curPos = fr, in.Pos()
		r := e.protect(func() []Out { return e.step(st, fr, in) })
		if r.end || st.dead {
			return nil
		}
		if r.fork != nil {
			return e.refork(st, fr, b, i, stop, r.fork)
		}
		if r.outs != nil {
			v, isVal := in.(ssa.Value)
			set := func(f *Frame, o Out) {
				if !isVal {
					return
				}
				if tt, ok := v.Type().(*types.Tuple); ok {
					if len(o.ret) == 1 {
						if t1, ok := o.ret[0].(Tuple); ok && len(t1) == tt.Len() {
							f.set(v, t1)
							return
						}
					}
					if tt.Len() != len(o.ret) {
						unsupported("result count of %s: %d", in, len(o.ret))
					}
					f.set(v, Tuple(o.ret))
				} else if len(o.ret) == 1 {
					f.set(v, o.ret[0])
				} else {
					unsupported("result count of %s: %d", in, len(o.ret))
				}
			}
			if len(r.outs) == 1 {
				st = r.outs[0].st
				set(fr, r.outs[0])
				i++
				continue
			}
			var cs []Cont
			for _, o := range r.outs {
				if o.st.dead {
					continue
				}
				f := fr.clone()
				set(f, o)
				cs = append(cs, e.run(o.st, f, b, i+1, stop)...)
			}
			return cs
		}
		i++
	}
}

func (e *Exec) refork(st *State, fr *Frame, b *ssa.BasicBlock, i int, stop *ssa.BasicBlock, f *forkReq) []Cont {
	key := 1<<20 | b.Index<<8 | i
	fr.forks[key]++
	if fr.forks[key] > e.unroll {
		unsupported("too many case splits at %s in %s", b.Instrs[i], fr.fn)
	}
	var cs []Cont
	for _, c := range f.conds {
		if !e.feasible(st, c) {
			continue
		}
		s2, f2 := st.clone(), fr.clone()
		s2.assume(c)
		if s2.dead {
			continue
		}
		cs = append(cs, e.run(s2, f2, b, i, stop)...)
	}
	return cs
}

func (e *Exec) protect(f func() []Out) (r stepResult) {
	defer func() {
		if x := recover(); x != nil {
			switch y := x.(type) {
			case forkReq:
				r = stepResult{fork: &y}
			case pathEnd:
				r = stepResult{end: true}
			default:
				panic(x)
			}
		}
	}()
	outs := f()
	return stepResult{outs: outs, end: outs != nil && len(outs) == 0}
}

func (e *Exec) enter(st *State, fr *Frame, from, to *ssa.BasicBlock) {
	fr.visits[to.Index]++
	if fr.visits[to.Index] > 2000000 {
		unsupported("loop runs too long in %s", fr.fn)
	}
	var k int
	for k = range to.Preds {
		if to.Preds[k] == from {
			break
		}
	}
	var vals []Value
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, e.getPhi(st, fr, p.Edges[k]))
	}
	for j, v := range vals {
		fr.set(to.Instrs[j].(*ssa.Phi), v)
	}
}

func (e *Exec) getPhi(st *State, fr *Frame, v ssa.Value) Value {
	switch v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
		return e.get(st, fr, v)
	}
	return fr.regs[fr.info.idx[v]]
}

// ---- merging

func commonPrefix(a, b []*Term) int {
	n := 0
	for n < len(a) && n < len(b) && a[n] == b[n] {
		n++
	}
	return n
}

func (e *Exec) mergeConts(cs []Cont, base *State, join *ssa.BasicBlock) []Cont {
	if len(cs) < 2 {
		return cs
	}
	out := []Cont{cs[0]}
	for _, c := range cs[1:] {
		merged := false
		for k := len(out) - 1; k >= 0; k-- {
			if m, ok := e.merge2(out[k], c, join); ok {
				out[k] = m
				merged = true
				break
			}
		}
		if !merged {
			out = append(out, c)
		}
	}
	return out
}

func (e *Exec) mergeState(a, b *State) (*State, *Term, bool) {
	n := commonPrefix(a.pc, b.pc)
	ga, gb := e.tb.And(a.pc[n:]...), e.tb.And(b.pc[n:]...)
	if a.thread != b.thread || len(a.pend) != len(b.pend) || !sameInts(a.ghost, b.ghost) {
		return nil, nil, false
	}
	for i := range a.pend {
		if a.pend[i] != b.pend[i] {
			return nil, nil, false
		}
	}
	heap, ok := e.mergeHeap(a, b, ga)
	if !ok {
		return nil, nil, false
	}
	m := &State{e: e, heap: heap, facts: map[*Term]bool{}, eqc: map[*Term]*Term{}, thread: a.thread, ghost: a.ghost, pend: a.pend, inN: a.inN}
	if !sameInts(a.inN, b.inN) {
		m.inN = map[string]int{}
		for k, v := range a.inN {
			m.inN[k] = v
		}
		for k, v := range b.inN {
			if v > m.inN[k] {
				m.inN[k] = v
			}
		}
	}
	m.pc = a.pc[:n:n]
	for k, v := range a.facts {
		if w, ok := b.facts[k]; ok && v == w {
			m.facts[k] = v
		}
	}
	for k, v := range a.eqc {
		if b.eqc[k] == v {
			m.eqc[k] = v
		}
	}
	d := e.tb.Or(ga, gb)
	if !d.isTrue() {
		if _, known := m.facts[d]; !known {
			m.pc = append(m.pc, d)
			m.facts[d] = true
			m.facts[e.tb.Not(d)] = false
		} else {
			m.pc = append(m.pc, d)
		}
	}
	return m, ga, true
}

func (e *Exec) merge2(a, b Cont, join *ssa.BasicBlock) (Cont, bool) {
	if a.fr.fn != b.fr.fn || len(a.fr.defers) != len(b.fr.defers) {
		return Cont{}, false
	}
	for i := range a.fr.defers {
		x, y := a.fr.defers[i], b.fr.defers[i]
		if x.call != y.call || !sameValue(x.fn, y.fn) || !sameValue(Tuple(x.args), Tuple(y.args)) {
			return Cont{}, false
		}
	}
	st, g, ok := e.mergeState(a.st, b.st)
	if !ok {
		return Cont{}, false
	}
	fr := a.fr.clone()
	for k, v := range b.fr.forks {
		if v > fr.forks[k] {
			fr.forks[k] = v
		}
	}
	for i := range fr.regs {
		x, y := a.fr.regs[i], b.fr.regs[i]
		if x == nil || y == nil {
			fr.regs[i] = nil
			continue
		}
		if t, ok := x.(*Term); ok && t == y {
			continue
		}
		if sameValue(x, y) {
			continue
		}
		db := fr.info.defb[i]
		if db != nil && db != join && !db.Dominates(join) {
			fr.regs[i] = nil
			continue
		}
		fr.regs[i] = e.ite(g, x, y)
	}
	loc := map[int]bool{}
	for _, l := range fr.locals {
		loc[l] = true
	}
	for _, l := range b.fr.locals {
		if !loc[l] {
			fr.locals = append(fr.locals, l)
		}
	}
	return Cont{st: st, fr: fr}, true
}

func (e *Exec) mergeHeap(a, b *State, g *Term) (map[int]*Obj, bool) {
	heap := make(map[int]*Obj, len(a.heap)+8)
	for k, v := range a.heap {
		heap[k] = v
	}
	for k, y := range b.heap {
		x, ok := heap[k]
		if !ok {
			heap[k] = y
			continue
		}
		if x == y {
			continue
		}
		m, ok := e.mergeObj(a, b, x, y, g)
		if !ok {
			return nil, false
		}
		heap[k] = m
	}
	return heap, true
}

func (e *Exec) mergeObj(sa, sb *State, x, y *Obj, g *Term) (*Obj, bool) {
	m := x.clone()
	switch {
	case x.bytes != nil && y.bytes != nil:
		if x.bytes == y.bytes {
			return m, true
		}
		p, q := x.bytes, y.bytes
		if p.base != q.base || p.fn != q.fn || p.size != q.size {
			return nil, false
		}
		nb := &Bytes{size: p.size, base: p.base, fn: p.fn, fnN: p.fnN}
		// segments
		same := len(p.segs) == len(q.segs)
		if same {
			for i := range p.segs {
				if p.segs[i] != q.segs[i] {
					same = false
					break
				}
			}
		}
		if same {
			nb.segs = p.segs
		} else {
			if p.fn != nil {
				return nil, false
			}
			cutset := map[int]bool{}
			cov := func(l []seg) {
				for _, s := range l {
					cutset[s.off] = true
					cutset[s.off+s.n] = true
				}
			}
			cov(p.segs)
			cov(q.segs)
			var cuts []int
			for c := range cutset {
				cuts = append(cuts, c)
			}
			sort.Ints(cuts)
			in := func(l []seg, at int) bool {
				for _, s := range l {
					if s.off <= at && at < s.off+s.n {
						return true
					}
				}
				return false
			}
			pb, qb := &Bytes{size: p.size, base: p.base, segs: p.segs}, &Bytes{size: q.size, base: q.base, segs: q.segs}
			for i := 0; i+1 < len(cuts); i++ {
				lo, n := cuts[i], cuts[i+1]-cuts[i]
				if !in(p.segs, lo) && !in(q.segs, lo) {
					continue
				}
				u := e.bytesReadBase(sa, pb, e.tb.Const(64, uint64(lo)), n)
				v := e.bytesReadBase(sb, qb, e.tb.Const(64, uint64(lo)), n)
				nb.segs = append(nb.segs, seg{lo, n, e.tb.Ite(g, u, v)})
			}
		}
		n := 0
		for n < len(p.log) && n < len(q.log) && p.log[n] == q.log[n] {
			n++
		}
		nb.log = append(nb.log, p.log[:n]...)
		for _, w := range p.log[n:] {
			w.guard = e.tb.And(w.guard, g)
			nb.log = append(nb.log, w)
		}
		ng := e.tb.Not(g)
		for _, w := range q.log[n:] {
			w.guard = e.tb.And(w.guard, ng)
			nb.log = append(nb.log, w)
		}
		m.bytes = nb
		return m, true
	case x.m != nil && y.m != nil:
		if x.m == y.m {
			return m, true
		}
		if x.m.base != y.m.base {
			return nil, false
		}
		nm := &MapData{base: x.m.base}
		p, q := x.m.log, y.m.log
		n := 0
		for n < len(p) && n < len(q) && p[n].guard == q[n].guard && p[n].present == q[n].present && sameValue(p[n].key, q[n].key) && sameValue(p[n].val, q[n].val) {
			n++
		}
		nm.log = append(nm.log, p[:n]...)
		for _, w := range p[n:] {
			w.guard = e.tb.And(w.guard, g)
			nm.log = append(nm.log, w)
		}
		ng := e.tb.Not(g)
		for _, w := range q[n:] {
			w.guard = e.tb.And(w.guard, ng)
			nm.log = append(nm.log, w)
		}
		m.m = nm
		return m, true
	case x.arr != nil && y.arr != nil:
		if x.arr == y.arr {
			return m, true
		}
		if x.arr.base != y.arr.base || x.arr.size != y.arr.size {
			return nil, false
		}
		na := *x.arr
		p, q := x.arr.log, y.arr.log
		n := 0
		for n < len(p) && n < len(q) && p[n].guard == q[n].guard && p[n].idx == q[n].idx && sameValue(p[n].val, q[n].val) {
			n++
		}
		na.log = append([]arrWrite(nil), p[:n]...)
		for _, w := range p[n:] {
			w.guard = e.tb.And(w.guard, g)
			na.log = append(na.log, w)
		}
		ng := e.tb.Not(g)
		for _, w := range q[n:] {
			w.guard = e.tb.And(w.guard, ng)
			na.log = append(na.log, w)
		}
		m.arr = &na
		return m, true
	}
	if x.bytes != nil || y.bytes != nil || x.m != nil || y.m != nil || x.arr != nil || y.arr != nil {
		return nil, false
	}
	if ax, ok := x.val.(Array); ok {
		if ay, ok := y.val.(Array); ok && len(ax.e) != len(ay.e) {
			return nil, false
		}
	}
	m.val = e.ite(g, x.val, y.val)
	return m, true
}

// merge outcomes of a call when that is free of case distinctions
func (e *Exec) mergeOuts(outs []Out, npc int) []Out {
	res := []Out{outs[0]}
	for _, o := range outs[1:] {
		ok := false
		for k := len(res) - 1; k >= 0 && k >= len(res)-3; k-- {
			if m, y := e.mergeOut(res[k], o); y {
				res[k] = m
				ok = true
				break
			}
		}
		if !ok {
			res = append(res, o)
		}
	}
	return res
}

func (e *Exec) mergeOut(a, b Out) (Out, bool) {
	// heap differences must be mergeable without fresh case distinctions
	for k, y := range b.st.heap {
		x, ok := a.st.heap[k]
		if !ok || x == y {
			continue
		}
		if x.val != nil && y.val != nil {
			if !plainMerge(x.val, y.val) {
				return Out{}, false
			}
			continue
		}
		return Out{}, false
	}
	for i := range a.ret {
		if !plainMerge(a.ret[i], b.ret[i]) {
			return Out{}, false
		}
	}
	st, g, ok := e.mergeState(a.st, b.st)
	if !ok {
		return Out{}, false
	}
	ret := make([]Value, len(a.ret))
	for i := range ret {
		ret[i] = e.ite(g, a.ret[i], b.ret[i])
	}
	return Out{st, ret}, true
}

func plainMerge(a, b Value) bool {
	if sameValue(a, b) {
		return true
	}
	switch x := a.(type) {
	case *Term:
		_, ok := b.(*Term)
		return ok
	case Struct:
		y, ok := b.(Struct)
		if !ok || len(x.f) != len(y.f) {
			return false
		}
		for i := range x.f {
			if !plainMerge(x.f[i], y.f[i]) {
				return false
			}
		}
		return true
	case BytesV:
		y, ok := b.(BytesV)
		return ok && x.n == y.n
	case Array:
		y, ok := b.(Array)
		if !ok || len(x.e) != len(y.e) || len(x.e) > 64 {
			return false
		}
		for i := range x.e {
			if !plainMerge(x.e[i], y.e[i]) {
				return false
			}
		}
		return true
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !plainMerge(x[i], y[i]) {
				return false
			}
		}
		return true
	case Str:
		y, ok := b.(Str)
		return ok && len(x.p) == 1 && len(y.p) == 1 && x.p[0].t != nil && y.p[0].t != nil && x.p[0].t.w == y.p[0].t.w
	}
	return false
}

// evaluate a function without effect on the state
func (e *Exec) evalPure(st *State, f Func, args []Value) Value {
	if f.fn == nil {
		unsupported("pure evaluation of %s", f.bi)
	}
	s := st.clone()
	e.pure++
	outs := e.callFn(s, f.fn, args, f.binds, 1)
	e.pure--
	if len(outs) == 0 {
		panic(pathEnd{})
	}
	r := outs[len(outs)-1].ret[0]
	for i := len(outs) - 2; i >= 0; i-- {
		n := len(st.pc)
		if n > len(outs[i].st.pc) {
			n = len(outs[i].st.pc)
		}
		r = e.ite(e.tb.And(outs[i].st.pc[n:]...), outs[i].ret[0], r)
	}
	// objects created inside may be referenced by the result
	for _, o := range outs {
		for k, v := range o.st.heap {
			if _, ok := st.heap[k]; !ok {
				st.heap[k] = v
			}
		}
	}
	return r
}
