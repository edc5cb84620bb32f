package main

import (
	"encoding/binary"
	"os"
	"strconv"
	"strings"
)

// Symbolic execution of the fourway assembly, on the text in the repository:
// gvcAsm(file, function, p, q) runs the function with the two pointers as its
// arguments.  Registers Y0..Y15 are four words each.  Only the instructions
// below are known, and branches have to be decided by constants.

type asmReg struct {
	ptr *Ptr   // a pointer: base and byte offset
	off int    //
	k   uint64 // a number
}

type asmRun struct {
	e    *Exec
	st   *State
	gpr  map[string]asmReg
	y    map[string][4]*Term
	args []Ptr
	zf   bool
}

func asmLines(path, fn string) (code [][]string, labels map[string]int) {
	b, err := os.ReadFile(path)
	if err != nil {
		unsupported("assembly: %v", err)
	}
	labels = map[string]int{}
	in := false
	for _, l := range strings.Split(string(b), "\n") {
		if i := strings.Index(l, "//"); i >= 0 {
			l = l[:i]
		}
		for _, l := range strings.Split(l, ";") {
			l = strings.TrimSpace(l)
			switch {
			case l == "":
			case strings.HasPrefix(l, "#include"):
			case strings.HasPrefix(l, "#"):
				unsupported("assembly: preprocessor line %s", l)
			case strings.HasPrefix(l, "TEXT"):
				in = strings.Contains(l, "·"+fn+"(SB)")
			case !in:
			default:
				if strings.HasSuffix(l, ":") {
					labels[l[:len(l)-1]] = len(code)
					continue
				}
				f := strings.SplitN(l, " ", 2)
				if len(f) == 1 {
					f = strings.SplitN(l, "\t", 2)
				}
				ins := []string{f[0]}
				if len(f) == 2 {
					depth, from := 0, 0
					for i, c := range f[1] {
						switch c {
						case '(':
							depth++
						case ')':
							depth--
						case ',':
							if depth == 0 {
								ins = append(ins, strings.TrimSpace(f[1][from:i]))
								from = i + 1
							}
						}
					}
					ins = append(ins, strings.TrimSpace(f[1][from:]))
				}
				code = append(code, ins)
			}
		}
	}
	if len(code) == 0 {
		unsupported("assembly: no function %s in %s", fn, path)
	}
	return code, labels
}

func asmImm(s string) (uint64, bool) {
	if !strings.HasPrefix(s, "$") {
		return 0, false
	}
	s = s[1:]
	neg := strings.HasPrefix(s, "-")
	v, err := strconv.ParseUint(strings.TrimPrefix(s, "-"), 0, 64)
	if err != nil {
		unsupported("assembly: constant %s", s)
	}
	if neg {
		v = -v
	}
	return v, true
}

// mem: off(REG)
func (r *asmRun) mem(s string) (Ptr, bool) {
	i := strings.Index(s, "(")
	if i < 0 || !strings.HasSuffix(s, ")") {
		return Ptr{}, false
	}
	reg, ok := r.gpr[s[i+1:len(s)-1]]
	if !ok || reg.ptr == nil {
		unsupported("assembly: memory operand %s", s)
	}
	off := 0
	if i > 0 {
		v, err := strconv.ParseInt(s[:i], 0, 64)
		if err != nil {
			unsupported("assembly: memory operand %s", s)
		}
		off = int(v)
	}
	off += reg.off
	if off%8 != 0 {
		unsupported("assembly: unaligned operand %s", s)
	}
	p := *reg.ptr
	if len(p.path) == 0 {
		unsupported("assembly: %s is not in an array", s)
	}
	n := len(p.path) - 1
	idx := p.path[n].f
	if t := p.path[n].t; t != nil {
		if !t.isConst() {
			unsupported("assembly: unknown address %s", s)
		}
		idx = int(t.k)
	}
	idx += off / 8
	return Ptr{p.obj, append(p.path[:n:n], PathElem{f: idx})}, true
}

func (r *asmRun) at(p Ptr, i int) Ptr {
	n := len(p.path) - 1
	q := Ptr{p.obj, append(p.path[:n:n], PathElem{f: p.path[n].f + i})}
	// the array that it lies in
	var a Value
	o := r.st.get(q.obj)
	if o.arr == nil && o.bytes == nil {
		a = r.e.nav(r.st, o.val, q.path[:n])
	}
	arr, ok := a.(Array)
	if !ok {
		unsupported("assembly: access to %T", a)
	}
	if k := q.path[n].f; k < 0 || k >= len(arr.e) {
		r.e.check(r.st, r.e.tb.F, "no panic", "the assembly accesses memory outside of its arguments", r.e.curPos)
		panic(pathEnd{})
	}
	return q
}

func (r *asmRun) vec(s string) [4]*Term {
	if strings.HasPrefix(s, "Y") {
		v, ok := r.y[s]
		if !ok {
			unsupported("assembly: %s is read before it is set", s)
		}
		return v
	}
	p, ok := r.mem(s)
	if !ok {
		unsupported("assembly: operand %s", s)
	}
	var v [4]*Term
	for i := range v {
		v[i] = r.e.force(r.st, r.e.load(r.st, r.at(p, i))).(*Term)
	}
	return v
}

func (e *Exec) runAsm(st *State, path, fn string, args []Ptr) {
	r := &asmRun{e: e, st: st, gpr: map[string]asmReg{}, y: map[string][4]*Term{}, args: args}
	code, labels := asmLines(path, fn)
	tb := e.tb
	aligned := func(s string) {
		reg := r.gpr[s[strings.Index(s, "(")+1:len(s)-1]]
		off, _ := strconv.ParseInt(s[:strings.Index(s, "(")], 0, 64) // none: 0
		if reg.ptr == nil || reg.ptr.obj != args[0].obj || (int(off)+reg.off)%32 != 0 {
			unsupported("assembly: alignment of %s", s)
		}
	}
	steps := 0
	for pc := 0; ; pc++ {
		if pc >= len(code) {
			unsupported("assembly: runs past its end")
		}
		if steps++; steps > 1000000 {
			unsupported("assembly: too many steps")
		}
		c := code[pc]
		need := func(n int) {
			if len(c) != n+1 {
				unsupported("assembly: %s", strings.Join(c, " "))
			}
		}
		setY := func(s string, v [4]*Term) {
			if !strings.HasPrefix(s, "Y") {
				unsupported("assembly: %s", strings.Join(c, " "))
			}
			r.y[s] = v
		}
		bin := func(f func(a, b *Term) *Term) {
			need(3)
			a, b := r.vec(c[1]), r.vec(c[2])
			var v [4]*Term
			for i := range v {
				v[i] = f(a[i], b[i])
			}
			setY(c[3], v)
		}
		shift := func(f func(a, b *Term) *Term) {
			need(3)
			k, ok := asmImm(c[1])
			if !ok {
				unsupported("assembly: %s", strings.Join(c, " "))
			}
			a := r.vec(c[2])
			var v [4]*Term
			for i := range v {
				v[i] = f(a[i], tb.Const(64, k))
			}
			setY(c[3], v)
		}
		switch c[0] {
		case "MOVQ":
			need(2)
			if k, ok := asmImm(c[1]); ok {
				r.gpr[c[2]] = asmReg{k: k}
			} else if i := strings.Index(c[1], "+"); i >= 0 && strings.HasSuffix(c[1], "(FP)") {
				k, err := strconv.Atoi(c[1][i+1 : len(c[1])-4])
				if err != nil || k%8 != 0 || k/8 >= len(args) {
					unsupported("assembly: %s", c[1])
				}
				p := args[k/8]
				r.gpr[c[2]] = asmReg{ptr: &p}
			} else if v, ok := r.gpr[c[1]]; ok {
				r.gpr[c[2]] = v
			} else {
				unsupported("assembly: %s", strings.Join(c, " "))
			}
		case "VMOVDQA", "VMOVDQU":
			need(2)
			for _, x := range c[1:] {
				if c[0] == "VMOVDQA" && strings.Contains(x, "(") {
					aligned(x)
				}
			}
			v := r.vec(c[1])
			if strings.HasPrefix(c[2], "Y") {
				setY(c[2], v)
				break
			}
			p, ok := r.mem(c[2])
			if !ok {
				unsupported("assembly: %s", strings.Join(c, " "))
			}
			for i := range v {
				e.store(st, r.at(p, i), tb.cutOf(v[i]))
			}
		case "VPBROADCASTQ":
			need(2)
			p, ok := r.mem(c[1])
			if !ok {
				unsupported("assembly: %s", strings.Join(c, " "))
			}
			t := e.force(st, e.load(st, r.at(p, 0))).(*Term)
			setY(c[2], [4]*Term{t, t, t, t})
		case "VPXOR":
			bin(tb.BXor)
		case "VPOR":
			bin(tb.BOr)
		case "VPAND":
			bin(tb.BAnd)
		case "VPANDN": // VPANDN b, a, d: d = ^a & b
			bin(func(b, a *Term) *Term { return tb.BAnd(tb.BNot(a), b) })
		case "VPSLLQ":
			shift(tb.Shl)
		case "VPSRLQ":
			shift(tb.Lshr)
		case "ADDQ":
			need(2)
			k, ok := asmImm(c[1])
			v, ok2 := r.gpr[c[2]]
			if !ok || !ok2 {
				unsupported("assembly: %s", strings.Join(c, " "))
			}
			if v.ptr != nil {
				v.off += int(int64(k))
			} else {
				v.k += k
			}
			r.gpr[c[2]] = v
			r.zf = v.ptr == nil && v.k == 0
		case "DECQ":
			need(1)
			v, ok := r.gpr[c[1]]
			if !ok || v.ptr != nil {
				unsupported("assembly: %s", strings.Join(c, " "))
			}
			v.k--
			r.gpr[c[1]] = v
			r.zf = v.k == 0
		case "JNZ", "JNE":
			need(1)
			if to, ok := labels[c[1]]; !ok {
				unsupported("assembly: %s", strings.Join(c, " "))
			} else if !r.zf {
				pc = to - 1
			}
		case "VZEROUPPER":
		case "RET":
			return
		default:
			unsupported("assembly: instruction %s", c[0])
		}
	}
}

// Cuts.  gvcCut(x) gives x a name: a fresh word which is equal to x by
// definition.  Wherever the assembly stores a word that is the same Boolean
// polynomial (bit by bit, over the ring of exclusive or and and), it is
// replaced by that name.  Polynomials thus stay small, and equality after a
// cut is equality of names.

// bitForm is a sum (exclusive or) of atoms, sorted; atom 0 is the constant 1.
type bitForm []int32

type ringTab struct {
	forms map[int][]bitForm // per term
	atoms map[string]int32
	cuts  map[string]*Term
	next  int32
}

func (rt *ringTab) atom(key string) int32 {
	if a, ok := rt.atoms[key]; ok {
		return a
	}
	rt.next++
	rt.atoms[key] = rt.next
	return rt.next
}

func bitXor(a, b bitForm) bitForm {
	out := make(bitForm, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		switch {
		case a[i] < b[j]:
			out = append(out, a[i])
			i++
		case a[i] > b[j]:
			out = append(out, b[j])
			j++
		default:
			i++
			j++
		}
	}
	out = append(out, a[i:]...)
	return append(out, b[j:]...)
}

func bitKey(f bitForm) string {
	b := make([]byte, 4*len(f))
	for i, x := range f {
		binary.LittleEndian.PutUint32(b[4*i:], uint32(x))
	}
	return string(b)
}

func (rt *ringTab) and(a, b bitForm) bitForm {
	switch {
	case len(a) == 0 || len(b) == 0:
		return nil
	case len(a) == 1 && a[0] == 0:
		return b
	case len(b) == 1 && b[0] == 0:
		return a
	}
	// (1+x)b = b + xb: products are of sums without constant
	if a[0] == 0 {
		return bitXor(b, rt.and(a[1:], b))
	}
	if b[0] == 0 {
		return bitXor(a, rt.and(a, b[1:]))
	}
	ka, kb := bitKey(a), bitKey(b)
	if ka == kb {
		return a
	}
	if ka > kb {
		ka, kb = kb, ka
	}
	return bitForm{rt.atom("&" + strconv.Itoa(len(ka)) + ":" + ka + kb)}
}

// the bits of t, least significant first
func (rt *ringTab) of(t *Term) []bitForm {
	if f, ok := rt.forms[t.id]; ok {
		return f
	}
	f := make([]bitForm, t.w)
	two := func(g func(a, b bitForm) bitForm) {
		a, b := rt.of(t.args[0]), rt.of(t.args[1])
		for i := range f {
			f[i] = g(a[i], b[i])
		}
	}
	switch t.op {
	case OpConst:
		v := t.bigVal()
		for i := range f {
			if v.Bit(i) == 1 {
				f[i] = bitForm{0}
			}
		}
	case OpBXor:
		two(bitXor)
	case OpBAnd:
		two(rt.and)
	case OpBOr:
		two(func(a, b bitForm) bitForm { return bitXor(bitXor(a, b), rt.and(a, b)) })
	case OpConcat:
		i := t.w
		for _, x := range t.args {
			i -= x.w
			copy(f[i:], rt.of(x))
		}
	case OpExtract:
		copy(f, rt.of(t.args[0])[t.lo:t.lo+t.w])
	default:
		for i := range f {
			f[i] = bitForm{rt.atom("t" + strconv.Itoa(t.id) + "." + strconv.Itoa(i))}
		}
	}
	rt.forms[t.id] = f
	return f
}

func (rt *ringTab) key(t *Term) string {
	var b []byte
	for _, f := range rt.of(t) {
		b = strconv.AppendInt(b, int64(len(f)), 36)
		b = append(b, ':')
		b = append(b, bitKey(f)...)
	}
	return string(b)
}

func (tb *TB) cut(t *Term) *Term {
	if t.isConst() || t.op == OpVar {
		return t
	}
	if tb.ring == nil {
		tb.ring = &ringTab{forms: map[int][]bitForm{}, atoms: map[string]int32{}, cuts: map[string]*Term{}}
	}
	k := tb.ring.key(t)
	if c, ok := tb.ring.cuts[k]; ok {
		return c
	}
	c := tb.Fresh("cut", t.w)
	tb.ring.cuts[k] = c
	return c
}

// cutOf is the name of t, if it has one.
func (tb *TB) cutOf(t *Term) *Term {
	if tb.ring == nil || t.isConst() || t.op == OpVar {
		return t
	}
	if c, ok := tb.ring.cuts[tb.ring.key(t)]; ok {
		return c
	}
	// A word far from every name: forget what it is, it would only grow.
	for _, f := range tb.ring.of(t) {
		if len(f) > 200 {
			return tb.Fresh("lost", t.w)
		}
	}
	return t
}
