package main

import (
	"bufio"
	"crypto/sha256"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"time"
)

type SatResult int

const (
	Unsat SatResult = iota
	Sat
	Unknown
)

func (r SatResult) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

type Solver struct {
	bin     string
	args    []string
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	queries int
	elapsed time.Duration
	byRes   map[string]int
	hits    int
	pushed  bool
}

// Answers to queries, shared by all workers.
var satCache sync.Map

func NewSolver(bin string, args ...string) *Solver {
	return &Solver{bin: bin, args: args, byRes: map[string]int{}}
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.bin, s.args...)
	var err error
	s.in, err = s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	o, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.cmd.Stderr = nil
	s.out = bufio.NewReaderSize(o, 1<<20)
	return s.cmd.Start()
}

func (s *Solver) stop() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
		s.pushed = false
	}
}

// Model maps leaf terms (variables, memory atoms) to values.
type Model struct {
	vals map[string]*big.Int // smt name -> value
	p    *smtPrinter
}

// Check satisfiability of the conjunction.
func (s *Solver) Check(tb *TB, conj []*Term, timeout time.Duration, wantModel bool) (SatResult, *Model) {
	return s.check(tb, conj, timeout, wantModel, false)
}

// CheckAbs is Check with every application of an uninterpreted function
// replaced by a fresh unknown: only Unsat is conclusive.
func (s *Solver) CheckAbs(tb *TB, conj []*Term, timeout time.Duration) SatResult {
	r, _ := s.check(tb, conj, timeout, false, true)
	return r
}

func (s *Solver) check(tb *TB, conj []*Term, timeout time.Duration, wantModel, abs bool) (SatResult, *Model) {
	c := tb.And(conj...)
	if c.isFalse() {
		return Unsat, nil
	}
	p := newPrinter(tb)
	p.abs = abs
	body := p.query(c)
	if c.isTrue() && !wantModel {
		return Sat, nil
	}
	if !wantModel {
		if r, ok := satCache.Load(sha256.Sum256([]byte(body))); ok {
			s.hits++
			return r.(SatResult), nil
		}
	}
	t0 := time.Now()
	r, vals := s.run(body, p, 150*time.Millisecond, wantModel, true)
	if r == Unknown && liaUseful(c) {
		if x, _ := s.run(liaQuery(c), p, time.Second, false, true); x == Unsat {
			r, vals = Unsat, nil
			s.byRes[s.bin+":lia-unsat"]++
			if os.Getenv("GVC_LIACHECK") != "" {
				if y, _ := s.run(body, p, 20*time.Second, false, false); y != Unsat {
					fmt.Fprintf(os.Stderr, "LIA cross-check: %s\n", y)
				}
			}
		}
	}
	if r == Unknown {
		r, vals = s.run(body, p, timeout, wantModel, false)
	}
	if r == Unknown && timeout > 5*time.Second {
		// other back ends, one shot
		for _, alt := range [][]string{{"z3-new", "-in"}, {"cvc5", "--lang=smt2", "--produce-models"}} {
			a := NewSolver(alt[0], alt[1:]...)
			if alt[0] == "cvc5" {
				a.args = append(a.args, fmt.Sprintf("--tlimit=%d", timeout.Milliseconds()))
			}
			r, vals = a.run(body, p, timeout, wantModel, false)
			a.stop()
			if r != Unknown {
				s.byRes[alt[0]+":"+r.String()]++
				break
			}
		}
	} else {
		s.byRes[s.bin+":"+r.String()]++
	}
	s.queries++
	d := time.Since(t0)
	s.elapsed += d
	if os.Getenv("GVC_SLOW") != "" && d > slowQ {
		fmt.Fprintf(os.Stderr, "slow query %v: %s (%d bytes)\n", d, r, len(body))
		if os.Getenv("GVC_SLOW") == "2" {
			fmt.Fprintln(os.Stderr, body)
		}
	}
	if !wantModel && r != Unknown {
		satCache.Store(sha256.Sum256([]byte(body)), r)
	}
	if vals != nil {
		return r, &Model{vals, p}
	}
	return r, nil
}

func (s *Solver) run(body string, p *smtPrinter, timeout time.Duration, wantModel, fast bool) (SatResult, map[string]*big.Int) {
	if s.cmd == nil {
		if err := s.start(); err != nil {
			return Unknown, nil
		}
	}
	var b strings.Builder
	isCvc := strings.Contains(s.bin, "cvc5")
	if !isCvc {
		if s.pushed && fast {
			b.WriteString("(pop)\n")
		} else {
			b.WriteString("(reset)\n")
		}
		if fast {
			b.WriteString("(push)\n")
		}
		s.pushed = fast
		fmt.Fprintf(&b, "(set-option :timeout %d)\n", timeout.Milliseconds())
	} else {
		b.WriteString("(set-logic ALL)\n")
	}
	b.WriteString(body)
	b.WriteString("(check-sat)\n(echo \"done\")\n")
	killed := false
	timer := time.AfterFunc(timeout+5*time.Second, func() {
		killed = true
		s.cmd.Process.Kill()
	})
	defer timer.Stop()
	proc := s.cmd
	_ = proc
	if _, err := io.WriteString(s.in, b.String()); err != nil {
		s.stop()
		return Unknown, nil
	}
	res := Unknown
	for {
		line, err := s.out.ReadString('\n')
		if err != nil {
			s.stop()
			return Unknown, nil
		}
		line = strings.Trim(strings.TrimSpace(line), "\"")
		if line == "sat" {
			res = Sat
		} else if line == "unsat" {
			res = Unsat
		} else if strings.HasPrefix(line, "(error") {
			if os.Getenv("GVC_SLOW") != "" {
				fmt.Fprintln(os.Stderr, "SMT error:", line)
			}
		} else if line == "done" {
			break
		}
	}
	if killed {
		return Unknown, nil
	}
	if res == Sat && wantModel {
		vals := map[string]*big.Int{}
		names := p.leafNames()
		for i := 0; i < len(names); i += 200 {
			j := i + 200
			if j > len(names) {
				j = len(names)
			}
			io.WriteString(s.in, "(get-value ("+strings.Join(names[i:j], " ")+"))\n(echo \"done\")\n")
			var sb strings.Builder
			for {
				line, err := s.out.ReadString('\n')
				if err != nil {
					s.stop()
					return res, vals
				}
				if strings.Trim(strings.TrimSpace(line), "\"") == "done" {
					break
				}
				sb.WriteString(line)
			}
			parseValues(sb.String(), vals)
		}
		return res, vals
	}
	return res, nil
}

func parseValues(s string, vals map[string]*big.Int) {
	// ((name #x..) (name true) ...)
	toks := strings.FieldsFunc(s, func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' || r == '\t' || r == '\r' })
	for i := 0; i+1 < len(toks); i += 2 {
		v := new(big.Int)
		switch {
		case strings.HasPrefix(toks[i+1], "#x"):
			v.SetString(toks[i+1][2:], 16)
		case strings.HasPrefix(toks[i+1], "#b"):
			v.SetString(toks[i+1][2:], 2)
		case toks[i+1] == "true":
			v.SetInt64(1)
		}
		vals[toks[i]] = v
	}
}

type memKey struct {
	base string
}

type smtPrinter struct {
	tb     *TB
	out    strings.Builder
	done   map[int]string
	nt     int
	decl   map[string]bool
	cuts   map[string][]int // base -> cut points (bytes) for constant offsets
	leaves []string
	leafT  map[string]*Term // smt name -> term (vars)
	atoms  map[string][3]interface{}
	abs    bool
}

func newPrinter(tb *TB) *smtPrinter {
	return &smtPrinter{tb: tb, done: map[int]string{}, decl: map[string]bool{}, cuts: map[string][]int{}, leafT: map[string]*Term{}, atoms: map[string][3]interface{}{}}
}

func (p *smtPrinter) leafNames() []string { return p.leaves }

func sortName(w int) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func quoteSym(s string) string {
	return "|" + strings.NewReplacer("|", "_", "\\", "_", " ", "_", "(", "<", ")", ">").Replace(s) + "|"
}

func (p *smtPrinter) query(c *Term) string {
	// collect memory cut points
	seen := map[int]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.op == OpMem && t.args[0].isConst() {
			lo := int(t.args[0].k)
			p.cuts[t.name] = append(p.cuts[t.name], lo, lo+t.w/8)
		}
		if t.op == OpApp && p.abs {
			return
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(c)
	for b, cs := range p.cuts {
		sort.Ints(cs)
		var u []int
		for i, x := range cs {
			if i == 0 || x != cs[i-1] {
				u = append(u, x)
			}
		}
		p.cuts[b] = u
	}
	if c.op == OpAnd {
		for _, a := range c.args {
			s := p.term(a)
			fmt.Fprintf(&p.out, "(assert %s)\n", s)
		}
	} else {
		s := p.term(c)
		fmt.Fprintf(&p.out, "(assert %s)\n", s)
	}
	return p.out.String()
}

func constStr(t *Term) string {
	if t.w == 0 {
		if t.k == 1 {
			return "true"
		}
		return "false"
	}
	if t.w%4 == 0 {
		s := t.bigVal().Text(16)
		return "#x" + strings.Repeat("0", t.w/4-len(s)) + s
	}
	s := t.bigVal().Text(2)
	return "#b" + strings.Repeat("0", t.w-len(s)) + s
}

func (p *smtPrinter) term(t *Term) string {
	if t.op == OpConst {
		return constStr(t)
	}
	if s, ok := p.done[t.id]; ok {
		return s
	}
	if t.op == OpApp && p.abs {
		n := fmt.Sprintf("abs%d", len(p.leaves))
		p.leaves = append(p.leaves, n)
		p.leafT[n] = t
		fmt.Fprintf(&p.out, "(declare-const %s %s)\n", n, sortName(t.w))
		p.done[t.id] = n
		return n
	}
	var as []string
	if !(t.op == OpMem && t.args[0].isConst()) {
		for _, a := range t.args {
			as = append(as, p.term(a))
		}
	}
	var e string
	switch t.op {
	case OpVar:
		n := quoteSym(t.name)
		if !p.decl[n] {
			p.decl[n] = true
			fmt.Fprintf(&p.out, "(declare-const %s %s)\n", n, sortName(t.w))
			if t.w > 0 && t.w <= 64 && (t.rlo != 0 || t.rhi != mask(t.w)) {
				fmt.Fprintf(&p.out, "(assert (and (bvule %s %s) (bvule %s %s)))\n",
					constStr(&Term{op: OpConst, w: t.w, k: t.rlo}), n, n, constStr(&Term{op: OpConst, w: t.w, k: t.rhi}))
			}
			p.leaves = append(p.leaves, n)
			p.leafT[n] = t
		}
		p.done[t.id] = n
		return n
	case OpMem:
		if t.args[0].isConst() {
			lo := int(t.args[0].k)
			hi := lo + t.w/8
			cs := p.cuts[t.name]
			i := sort.SearchInts(cs, lo)
			var parts []string
			for ; i+1 < len(cs) && cs[i] < hi; i++ {
				n := quoteSym(fmt.Sprintf("%s@%d_%d", t.name, cs[i], cs[i+1]-cs[i]))
				if !p.decl[n] {
					p.decl[n] = true
					fmt.Fprintf(&p.out, "(declare-const %s %s)\n", n, sortName(8*(cs[i+1]-cs[i])))
					p.leaves = append(p.leaves, n)
					p.atoms[n] = [3]interface{}{t.name, cs[i], cs[i+1] - cs[i]}
				}
				parts = append(parts, n)
			}
			if len(parts) == 1 {
				e = parts[0]
			} else {
				e = "(concat " + strings.Join(parts, " ") + ")"
			}
		} else {
			n := quoteSym(fmt.Sprintf("%s@@%d", t.name, t.w/8))
			if !p.decl[n] {
				p.decl[n] = true
				fmt.Fprintf(&p.out, "(declare-fun %s ((_ BitVec 64)) %s)\n", n, sortName(t.w))
			}
			e = "(" + n + " " + as[0] + ")"
		}
	case OpApp:
		var ws, sorts []string
		for _, a := range t.args {
			ws = append(ws, fmt.Sprint(a.w))
			sorts = append(sorts, sortName(a.w))
		}
		n := quoteSym(t.name + "#" + strings.Join(ws, ",") + ">" + fmt.Sprint(t.w))
		if !p.decl[n] {
			p.decl[n] = true
			fmt.Fprintf(&p.out, "(declare-fun %s (%s) %s)\n", n, strings.Join(sorts, " "), sortName(t.w))
		}
		if len(as) == 0 {
			e = n
		} else {
			e = "(" + n + " " + strings.Join(as, " ") + ")"
		}
	case OpLin:
		var parts []string
		for i, a := range as {
			if t.coefs[i] == 1 {
				parts = append(parts, a)
			} else if t.coefs[i] == mask(t.w) {
				parts = append(parts, "(bvneg "+a+")")
			} else {
				parts = append(parts, fmt.Sprintf("(bvmul %s %s)", constStr(&Term{op: OpConst, w: t.w, k: t.coefs[i]}), a))
			}
		}
		if t.k != 0 {
			parts = append(parts, constStr(&Term{op: OpConst, w: t.w, k: t.k}))
		}
		e = parts[0]
		for _, x := range parts[1:] {
			e = "(bvadd " + e + " " + x + ")"
		}
	case OpExtract:
		e = fmt.Sprintf("((_ extract %d %d) %s)", t.lo+t.w-1, t.lo, as[0])
	case OpSext:
		e = fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.args[0].w, as[0])
	default:
		e = "(" + opNames[t.op] + " " + strings.Join(as, " ") + ")"
	}
	p.nt++
	n := fmt.Sprintf("t%d", p.nt)
	fmt.Fprintf(&p.out, "(define-fun %s () %s %s)\n", n, sortName(t.w), e)
	p.done[t.id] = n
	return n
}

var slowQ = func() time.Duration {
	if d, err := time.ParseDuration(os.Getenv("GVC_SLOWQ")); err == nil {
		return d
	}
	return 500 * time.Millisecond
}()
