package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
)

// known findings: one JSON object per line
type knownFinding struct {
	Property   string `json:"property"`
	Harness    string `json:"harness"`
	Obligation string `json:"obligation"`
	What       string `json:"what"`
}

func readKnown(f string) []knownFinding {
	var out []knownFinding
	b, err := os.ReadFile(f)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		var k knownFinding
		if strings.HasPrefix(strings.TrimSpace(l), "{") && json.Unmarshal([]byte(l), &k) == nil {
			out = append(out, k)
		}
	}
	return out
}

var digits = regexp.MustCompile(`[0-9]+`)

type finding struct {
	hr       *harnessResult
	o        *Oblig
	replay   *rresult
	rc       *rcase
	inlineOK bool
}

type inlineRunner func(h *harness) *harnessResult

func report(ld *Loader, all []*harnessResult, ss *solStat, prop, tier, evid, knownFile, replayDir string, t0 time.Time, inline inlineRunner) int {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if seed == 0 {
		seed = 1
	}
	known := readKnown(knownFile)
	nob, ndis, nsimp, nund := 0, 0, 0, 0
	named := map[string]bool{}
	var finds []*finding
	undecided := map[*harnessResult]bool{}
	var undecidedNotes, vacuous []string
	for _, r := range all {
		for _, o := range r.res.sorted() {
			named[o.Name] = true
			nob += o.Count
			ndis += o.Discharged
			nsimp += o.BySimp
			nund += o.Undecided
			if o.NRefuted > 0 {
				finds = append(finds, &finding{hr: r, o: o})
			}
			if o.Undecided > 0 {
				undecided[r] = true
				undecidedNotes = append(undecidedNotes, fmt.Sprintf("%s: %s: %s", r.h.name, o.Name, o.Why))
			}
		}
		shapes, example := map[string]int{}, map[string]string{}
		for k, v := range r.res.unsupported {
			undecided[r] = true
			sh := digits.ReplaceAllString(k, "#")
			shapes[sh] += v
			if example[sh] == "" || k < example[sh] {
				example[sh] = k
			}
		}
		for sh, v := range shapes {
			undecidedNotes = append(undecidedNotes, fmt.Sprintf("%s: not verified on %d paths: %s", r.h.name, v, example[sh]))
		}
		for k, v := range r.res.reach {
			if v == 0 {
				vacuous = append(vacuous, r.h.name+": "+k+" is not reached")
			}
		}
		if _, x := r.h.opts["executed"]; !x && len(r.res.m) == 0 && len(r.res.unsupported) == 0 {
			vacuous = append(vacuous, r.h.name+": no obligations")
		}
	}
	for _, d := range ld.dropped {
		undecidedNotes = append(undecidedNotes, "dropped: "+d)
	}
	sort.Strings(undecidedNotes)
	sort.Strings(vacuous)

	// Known findings
	knownHit := map[string]bool{}
	var open []*finding
	for _, f := range finds {
		hit := false
		for _, k := range known {
			if k.Property == prop && k.Harness == f.hr.h.name && k.Obligation == f.o.Name {
				hit = true
				if !knownHit[k.What] {
					knownHit[k.What] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.What)
				}
			}
		}
		if !hit {
			open = append(open, f)
		}
	}

	// Concrete execution: replay the counterexamples, test what is undecided,
	// and validate the models of the libraries.
	var cases []rcase
	caseOf := map[int]*finding{}
	id := 0
	rnd := func(h *harness, choices map[string]int, ms int) rcase {
		id++
		return rcase{Id: id, Harness: h.name, Choices: choices, Seed: seed*1000003 + int64(id)*7919, Runs: 1 << 30, Ms: ms}
	}
	exe := func(h *harness) bool { _, no := h.opts["noexec"]; return !no }
	for _, f := range open {
		if !exe(f.hr.h) {
			continue
		}
		for _, x := range f.o.Refs {
			id++
			c := x.rcase(id)
			cases = append(cases, c)
			caseOf[id] = f
			for k := 0; k < 2; k++ {
				c = rnd(f.hr.h, c.Choices, 4000)
				cases = append(cases, c)
				caseOf[c.Id] = f
			}
		}
	}
	rndOf := map[int]*harnessResult{}
	ms := 600
	if tier == "thorough" {
		ms = 20000
	}
	for _, r := range all {
		if !exe(r.h) {
			continue
		}
		m := ms
		k := 1
		if _, x := r.h.opts["executed"]; undecided[r] || x {
			m = 5 * ms
			k = 4
		}
		for ; k > 0; k-- {
			c := rnd(r.h, nil, m)
			cases = append(cases, c)
			rndOf[c.Id] = r
		}
	}
	// spread evenly: longest first
	sort.SliceStable(cases, func(i, j int) bool { return cases[i].Ms > cases[j].Ms })
	var rp *replayer
	runs, skipped := 0, 0
	byID := map[int]rcase{}
	for _, c := range cases {
		byID[c.Id] = c
	}
	replayErr := ""
	type concrete struct {
		hr *harnessResult
		r  rresult
		c  rcase
	}
	var conc []concrete
	if len(cases) > 0 {
		rp = ld.newReplayer()
		defer rp.close()
		if rp.err != nil {
			replayErr = rp.err.Error()
			fmt.Fprintln(os.Stderr, "gvc:", replayErr)
		}
		lim := 150 * time.Second
		if tier == "thorough" {
			lim = 400 * time.Second
		}
		for i, r := range rp.run(cases, lim) {
			r := r
			c := byID[i]
			runs += r.Ran
			skipped += r.Skipped
			if r.Result == "" || r.Result == "skip" {
				continue
			}
			if f := caseOf[i]; f != nil {
				if f.replay == nil || f.rc.Runs != 0 && c.Runs == 0 {
					f.replay, f.rc = &r, &c
				}
			} else if h := rndOf[i]; h != nil {
				conc = append(conc, concrete{h, r, c})
			}
		}
	}

	// An internal contract (precondition, frame) may be broken by a change
	// that keeps the behaviour: try without it, verifying through the bodies.
	inl := map[*harness]*harnessResult{}
	var notes []string
	var viol []*finding
	for _, f := range open {
		if _, ok := f.hr.h.opts["loops"]; ok && f.replay == nil && !loopsFit(f.hr) {
			// the loop invariant need not fit a loop that was rewritten
			notes = append(notes, fmt.Sprintf("%s: %s not established with the loop invariants given", f.hr.h.name, f.o.Name))
			undecided[f.hr] = true
			continue
		}
		_, loops := f.hr.h.opts["loops"]
		if f.replay == nil && len(f.hr.use.contracts) > 0 && inline != nil && !loops {
			r := inl[f.hr.h]
			if r == nil {
				r = inline(f.hr.h)
				inl[f.hr.h] = r
			}
			ok := len(r.res.unsupported) == 0
			for _, o := range r.res.m {
				if o.NRefuted+o.Undecided > 0 {
					ok = false
				}
			}
			if ok {
				notes = append(notes, fmt.Sprintf("%s: %s no longer holds, but the harness verifies without that contract (callees verified through their bodies)", f.hr.h.name, f.o.Name))
				continue
			}
		}
		viol = append(viol, f)
	}

	os.MkdirAll(replayDir, 0755)
	nv := 0
	rpt := func(name string, m map[string]interface{}, confirmed bool) {
		nv++
		p := filepath.Join(replayDir, fmt.Sprintf("%s-%d.json", prop, nv))
		m["property"] = prop
		m["how_to_replay"] = fmt.Sprintf("cd /verif && ./check.sh -replay %s", p)
		b, _ := json.MarshalIndent(m, "", " ")
		os.WriteFile(p, append(b, '\n'), 0644)
		s := ""
		if !confirmed {
			s = " no-failing-input-found"
		}
		fmt.Printf("failed obligation: %s\n", name)
		fmt.Printf("VIOLATION property=%s replay=%s%s\n", prop, p, s)
	}
	// confirmed ones first
	sort.SliceStable(viol, func(i, j int) bool { return viol[i].replay != nil && viol[j].replay == nil })
	anyConf := false
	seenC := map[string]bool{}
	confirmed := func(c concrete) bool {
		for _, k := range known {
			if k.Property == prop && k.Harness == c.hr.h.name && k.Obligation == c.r.Result {
				return false
			}
		}
		return true
	}
	for _, f := range viol {
		anyConf = anyConf || f.replay != nil
	}
	for _, c := range conc {
		if !confirmed(c) || seenC[c.hr.h.name] || anyConf {
			continue
		}
		seenC[c.hr.h.name] = true
		rpt(c.hr.h.name+": "+c.r.Result+" (found by executing the contract on concrete inputs)", map[string]interface{}{"obligation": c.r.Result, "harness": c.hr.h.name,
			"concrete_result": c.r.Result, "concrete_inputs": c.r.Log, "case": concreteCase(&c.c, &c.r)}, true)
	}
	anyConf = anyConf || nv > 0
	for _, f := range viol {
		m := map[string]interface{}{"obligation": f.o.Name, "harness": f.hr.h.name, "instances_failed": f.o.NRefuted, "instances": f.o.Count, "verifier_output": f.o.Refs}
		if f.replay != nil {
			m["concrete_result"], m["concrete_inputs"], m["case"] = f.replay.Result, f.replay.Log, concreteCase(f.rc, f.replay)
			anyConf = true
		} else if nv > 0 && anyConf {
			continue // one alarm with a failing input is enough
		}
		rpt(f.hr.h.name+": "+f.o.Name, m, f.replay != nil)
	}

	use := newUsage()
	hs := []map[string]interface{}{}
	var bounded []string
	for _, r := range all {
		use.add(r.use)
		h := map[string]interface{}{"harness": r.h.name, "configurations": r.res.jobs, "paths": r.res.paths, "obligations": 0, "seconds": r.wall.Seconds()}
		c := 0
		for _, o := range r.res.m {
			c += o.Count
		}
		h["obligations"] = c
		if r.h.bounded != "" {
			h["bounded"] = r.h.bounded
			bounded = append(bounded, r.h.name+": "+r.h.bounded)
		}
		hs = append(hs, h)
	}
	for _, r := range all {
		if undecided[r] {
			bounded = append(bounded, r.h.name+": partly undecided, executed on random inputs instead")
		}
	}
	var assume []string
	for _, n := range keys(use.models) {
		assume = append(assume, "model of "+n+" is right (executed against the real function on random inputs in every run)")
	}
	for _, n := range keys(use.natives) {
		assume = append(assume, "library function "+n+" behaves as documented")
	}
	assume = append(assume, keys(use.notes)...)
	if knownFile != "" {
		b, err := os.ReadFile(filepath.Join(filepath.Dir(knownFile), "assumptions.json"))
		var m map[string][]string
		if err == nil && json.Unmarshal(b, &m) == nil {
			assume = append(assume, m["*"]...)
			assume = append(assume, m[prop]...)
		}
	}
	var samples []string
	for i, r := range all {
		for _, o := range r.res.sorted() {
			if len(samples) < 12 && (o.kind() == "ensures" || i == 0) {
				samples = append(samples, fmt.Sprintf("%s: %s: %d instances, %d closed by rewriting, solver %v", r.h.name, o.Name, o.Count, o.BySimp, o.Solver.Round(time.Millisecond)))
			}
		}
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "proof",
		"coverage": map[string]interface{}{
			"obligations": nob, "discharged": ndis, "undecided": nund, "named_obligations": len(named),
			"checker_cmd":                     "./check.sh " + prop + " " + tier,
			"trusted_base":                    []string{"/verif/gvc (verification condition generator over golang.org/x/tools/go/ssa)", "golang.org/x/tools/go/ssa and go/types", "z3 4.8.12", "the Go compiler and runtime"},
			"functions_verified_or_inlined":   keys(use.funcs),
			"functions_replaced_by_contracts": keys(use.contracts),
			"harnesses":                       hs,
			"by_back_end":                     map[string]interface{}{"rewriting": nsimp, "solver": ndis - nsimp},
			"solver_queries":                  ss.queries, "solver_seconds": ss.elapsed.Seconds(), "solver_answers": ss.byRes,
			"bounded_parts": bounded,
			"not_verified":  undecidedNotes,
			"vacuity":       vacuous,
			"notes":         notes,
			"concrete_runs": runs, "concrete_runs_outside_assumptions": skipped,
			"samples": samples,
		},
		"assumptions": assume, "wall_s": time.Since(t0).Seconds(), "violations": nv,
	}
	if replayErr != "" {
		ev["coverage"].(map[string]interface{})["replay_error"] = replayErr
	}
	if evid != "" {
		os.MkdirAll(filepath.Dir(evid), 0755)
		b, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(evid, append(b, '\n'), 0644); err != nil {
			fmt.Fprintln(os.Stderr, "gvc:", err)
			return 2
		}
	}
	fmt.Printf("%s: %d obligations (%d names), %d discharged, %d undecided, %d failed names; %d harnesses; %d concrete runs; %.1fs\n",
		prop, nob, len(named), ndis, nund, len(finds), len(all), runs, time.Since(t0).Seconds())
	for _, n := range undecidedNotes {
		fmt.Println("note:", trunc(n, 300))
	}
	for _, n := range notes {
		fmt.Println("note:", trunc(n, 300))
	}
	for _, n := range vacuous {
		fmt.Println("note:", n)
	}
	if nv > 0 {
		return 1
	}
	return 0
}

func concreteCase(c *rcase, r *rresult) rcase {
	x := *c
	if x.Runs != 0 {
		x.Seed, x.Runs = r.Seed, 1
	}
	return x
}

// replayFile runs a recorded counterexample against the current code
func replayFile(ld *Loader, f string) int {
	b, err := os.ReadFile(f)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var m struct {
		Case     *rcase `json:"case"`
		Property string `json:"property"`
	}
	if err := json.Unmarshal(b, &m); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if m.Case == nil {
		fmt.Println("no failing input is recorded in", f)
		return 0
	}
	rp := ld.newReplayer()
	defer rp.close()
	if rp.err != nil {
		fmt.Fprintln(os.Stderr, rp.err)
		return 2
	}
	m.Case.Ms = 60000
	for _, r := range rp.run([]rcase{*m.Case}, 120*time.Second) {
		fmt.Println("result:", r.Result)
		for _, l := range r.Log {
			fmt.Println("  ", l)
		}
		if r.Result != "" && r.Result != "skip" {
			return 1
		}
	}
	return 0
}

// loopsFit: the loop invariants apply to the loops of the code: they hold
// initially and the loops change what they declare.
func loopsFit(r *harnessResult) bool {
	n := 0
	for _, o := range r.res.m {
		if k := o.kind(); k == "loop entry" || k == "loop frame" {
			n++
			if o.NRefuted+o.Undecided > 0 {
				return false
			}
		}
	}
	for k := range r.res.unsupported {
		if !strings.HasPrefix(k, "stopped after") {
			return false
		}
	}
	return n > 0
}
