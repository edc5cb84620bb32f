package main

import (
	"runtime/debug"
	"runtime/metrics"
	"runtime/pprof"
	"sync/atomic"

	"encoding/json"
	"flag"
	"fmt"
	"os"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type job struct {
	h      *harness
	prefix []int
}

type queue struct {
	mu      sync.Mutex
	cond    *sync.Cond
	jobs    []job
	running int
}

func (q *queue) push(js ...job) {
	q.mu.Lock()
	q.jobs = append(q.jobs, js...)
	q.mu.Unlock()
	q.cond.Broadcast()
}

func (q *queue) pop() (job, bool) {
	q.mu.Lock()
	defer q.mu.Unlock()
	for len(q.jobs) == 0 {
		if q.running == 0 {
			q.cond.Broadcast()
			return job{}, false
		}
		q.cond.Wait()
	}
	j := q.jobs[len(q.jobs)-1]
	q.jobs = q.jobs[:len(q.jobs)-1]
	q.running++
	return j, true
}

func (q *queue) done() {
	q.mu.Lock()
	q.running--
	q.mu.Unlock()
	q.cond.Broadcast()
}

type usage struct {
	funcs, natives, models, contracts, notes map[string]bool
}

func newUsage() *usage {
	return &usage{map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}}
}

func (u *usage) add(v *usage) {
	for _, p := range [][2]map[string]bool{{u.funcs, v.funcs}, {u.natives, v.natives}, {u.models, v.models}, {u.contracts, v.contracts}, {u.notes, v.notes}} {
		for k := range p[1] {
			p[0][k] = true
		}
	}
}

func keys(m map[string]bool) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

type solStat struct {
	queries int
	elapsed time.Duration
	byRes   map[string]int
}

func newExec(ld *Loader, timeout time.Duration) *Exec {
	return &Exec{tb: NewTB(), sol: NewSolver("z3", "-in"), ld: ld, globals: map[*ssa.Global]int{}, infos: map[*ssa.Function]*fnInfo{},
		res: newResults(), constC: map[*ssa.Const]Value{}, unroll: 600, timeout: timeout, reach: map[string]int{},
		funcs: map[string]bool{}, natives: map[string]bool{}, modelsU: map[string]bool{}, contrU: map[string]bool{}, snaps: map[int]map[int]*Obj{}, notes: map[string]bool{}}
}

// worker: runs jobs with a private term bank and solver process
type worker struct {
	ld      *Loader
	e       *Exec
	base    *State
	n       int
	timeout time.Duration
	thor    bool
	inline  bool
	ss      solStat
	hstat   *harnessStat
}

func (w *worker) fresh() (err error) {
	if w.e != nil {
		w.collect()
		w.e.sol.stop()
	}
	w.e = newExec(w.ld, w.timeout)
	w.e.started = time.Now()
	w.e.thorough = w.thor
	e := w.e
	defer func() {
		if x := recover(); x != nil {
			err = fmt.Errorf("package initialisation: %v", x)
			if os.Getenv("GVC_DBG") != "" {
				debug.PrintStack()
			}
		}
	}()
	st := &State{e: e, heap: map[int]*Obj{}, facts: map[*Term]bool{}, eqc: map[*Term]*Term{}}
	outs := e.callFn(st, w.ld.xm.Func("init"), nil, nil, 0)
	if len(outs) != 1 {
		return fmt.Errorf("package initialisation has %d outcomes", len(outs))
	}
	w.base = outs[0].st
	e.funcs, e.natives, e.modelsU, e.contrU = map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}
	e.res = newResults()
	return nil
}

func (w *worker) collect() {
	w.ss.queries += w.e.sol.queries
	w.ss.elapsed += w.e.sol.elapsed
	if w.ss.byRes == nil {
		w.ss.byRes = map[string]int{}
	}
	for k, v := range w.e.sol.byRes {
		w.ss.byRes[k] += v
	}
	w.e.sol.queries, w.e.sol.elapsed, w.e.sol.byRes = 0, 0, map[string]int{}
}

func (w *worker) run(j job, limit time.Duration) (res *Results, u *usage, spawned [][]int) {
	if w.e == nil || w.n > 40 || len(w.e.tb.tab) > 400000 {
		if err := w.fresh(); err != nil {
			r := newResults()
			r.unsupported[err.Error()]++
			w.e = nil
			return r, newUsage(), nil
		}
		w.n = 0
	}
	w.n++
	e := w.e
	e.res = newResults()
	e.harness = j.h.name
	e.hstat = w.hstat
	e.prefix, e.taken, e.spawned, e.choices = j.prefix, nil, nil, nil
	e.inputs = nil
	e.reach = map[string]int{}
	e.steps, e.pure, e.writes = 0, 0, nil
	e.noContr = w.inline
	if _, ok := j.h.opts["inline"]; ok {
		e.noContr = true
	}
	_, e.sched = j.h.opts["schedules"]
	_, e.loops = j.h.opts["loops"]
	e.loopPhase, e.loopRec = 0, nil
	e.races, e.co = nil, nil
	e.funcs, e.natives, e.modelsU, e.contrU = map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}
	e.notes = map[string]bool{}
	e.started = time.Now()
	e.deadline = e.started.Add(limit)
	func() {
		defer func() {
			if x := recover(); x != nil {
				switch y := x.(type) {
				case unsupportedErr:
					m := y.msg
					if e.curFn != nil {
						m += " [in " + fnName(e.curFn.fn) + " " + e.pos(e.curPos) + "]"
					}
					e.res.unsupported[m]++
					if y.msg == "memory limit" || y.msg == "time limit" {
						w.hstat.exhausted()
						w.n = 1 << 20
					}
				case pathEnd:
				case forkReq:
					e.res.unsupported["case split outside an instruction"]++
				default:
					e.res.unsupported[fmt.Sprintf("internal error: %v", x)]++
					if os.Getenv("GVC_DBG") != "" {
						fmt.Fprintf(os.Stderr, "internal error: %v\n%s\n", x, debug.Stack())
					}
					w.n = 1 << 20
				}
			}
		}()
		st := w.base.clone()
		outs := e.callFn(st, j.h.fn, nil, nil, 0)
		e.res.paths += len(outs)
	}()
	if w.n > 1<<19 && memFull.Load() {
		// drop what the job has built up
		w.collect()
		e.sol.stop()
		w.e = nil
	}
	e.res.jobs = 1
	for k, v := range e.reach {
		e.res.reach[k] += v
	}
	for _, o := range e.res.m {
		for _, r := range o.Refs {
			r.Oblig, r.Prop = o.Name, j.h.prop
		}
	}
	return e.res, &usage{e.funcs, e.natives, e.modelsU, e.contrU, e.notes}, e.spawned
}

// memFull is set while too much memory is in use; jobs then stop.
var memFull atomic.Bool
var memPeak atomic.Uint64

func watchMemory() {
	m := []metrics.Sample{{Name: "/gc/heap/live:bytes"}}
	for {
		metrics.Read(m)
		l := m[0].Value.Uint64()
		if l > memPeak.Load() {
			memPeak.Store(l)
		}
		memFull.Store(l > 10<<30)
		time.Sleep(100 * time.Millisecond)
	}
}

type harnessResult struct {
	h    *harness
	res  *Results
	use  *usage
	wall time.Duration
}

func main() {
	repo := flag.String("repo", "/repo", "")
	cdir := flag.String("contracts", "/verif/contracts", "")
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "")
	evid := flag.String("evidence", "", "evidence file")
	known := flag.String("known", "", "known findings file")
	replayDir := flag.String("replays", "/tmp", "")
	pat := flag.String("harness", "", "only harnesses matching")
	nw := flag.Int("j", 8, "workers")
	limit := flag.Duration("limit", 300*time.Second, "time limit per job")
	total := flag.Duration("total", 600*time.Second, "time limit in all")
	timeout := flag.Duration("timeout", 20*time.Second, "solver time limit per query")
	verbose := flag.Bool("v", false, "")
	list := flag.Bool("list", false, "")
	replay := flag.String("replay", "", "run a recorded counterexample")
	ssadump := flag.String("dump", "", "dump SSA of a function")
	flag.Parse()
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(14 << 30)
	go watchMemory()
	t0 := time.Now()
	ld, err := load(*repo, *cdir, nil)
	if err != nil {
		fmt.Fprintln(os.Stderr, "gvc:", err)
		os.Exit(2)
	}
	if *verbose {
		fmt.Fprintf(os.Stderr, "loaded in %v, %d harnesses, %d contracts, %d models\n", time.Since(t0), len(ld.harnesses), len(ld.contracts), len(ld.models))
		for _, d := range ld.dropped {
			fmt.Fprintln(os.Stderr, "dropped:", d)
		}
	}
	if *ssadump != "" {
		ld.find(*ssadump).WriteTo(os.Stdout)
		return
	}
	if *replay != "" {
		os.Exit(replayFile(ld, *replay))
	}
	if *list {
		for _, h := range ld.harnesses {
			fmt.Println(h.prop, h.name)
		}
		return
	}
	var re *regexp.Regexp
	if *pat != "" {
		re = regexp.MustCompile(*pat)
	}
	var hs []*harness
	for _, h := range ld.harnesses {
		if *prop != "" && !ld.needed(h, *prop) || re != nil && !re.MatchString(h.name) || h.thorough && *tier != "thorough" {
			continue
		}
		hs = append(hs, h)
	}
	if f := os.Getenv("GVC_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	end := t0.Add(*total)
	ss := solStat{byRes: map[string]int{}}
	hr := runAll(ld, hs, *nw, *limit, *timeout, end, *tier == "thorough", *verbose, false, &ss)
	var all []*harnessResult
	for _, h := range hs {
		all = append(all, hr[h])
	}
	if *verbose {
		for _, r := range all {
			fmt.Fprintf(os.Stderr, "== %s %s: %d jobs, %d paths, %v\n", r.h.prop, r.h.name, r.res.jobs, r.res.paths, r.wall.Round(time.Millisecond))
			for _, o := range r.res.sorted() {
				s := "ok"
				if o.NRefuted > 0 {
					s = "REFUTED"
				} else if o.Undecided > 0 {
					s = "UNDECIDED " + o.Why
				}
				fmt.Fprintf(os.Stderr, "   %-9s %s  (%d, %d by simplification, %v)\n", s, o.Name, o.Count, o.BySimp, o.Solver.Round(time.Millisecond))
				if len(o.Refs) > 0 {
					b, _ := json.Marshal(o.Refs[0])
					fmt.Fprintf(os.Stderr, "      %s\n", trunc(string(b), 1500))
				}
			}
			for k, v := range r.res.unsupported {
				fmt.Fprintf(os.Stderr, "   UNSUPPORTED x%d %s\n", v, k)
			}
			for k, v := range r.res.reach {
				if v == 0 {
					fmt.Fprintf(os.Stderr, "   UNREACHED %s\n", k)
				}
			}
		}
		fmt.Fprintf(os.Stderr, "solver: %d queries, %v, %v; wall %v, %d MiB\n", ss.queries, ss.elapsed.Round(time.Millisecond), ss.byRes, time.Since(t0).Round(time.Millisecond), memPeak.Load()>>20)
	}
	pprof.StopCPUProfile()
	if *prop == "" {
		return
	}
	inline := func(h *harness) *harnessResult {
		e := time.Now().Add(60 * time.Second)
		if e.After(end) {
			e = end
		}
		return runAll(ld, []*harness{h}, *nw, *limit, 5*time.Second, e, false, false, true, &ss)[h]
	}
	os.Exit(report(ld, all, &ss, *prop, *tier, *evid, *known, *replayDir, t0, inline))
}

// runAll runs the proof jobs of the harnesses in parallel.
func runAll(ld *Loader, hs []*harness, nw int, limit, timeout time.Duration, end time.Time, thor, verbose, inline bool, ss *solStat) map[*harness]*harnessResult {
	q := &queue{}
	q.cond = sync.NewCond(&q.mu)
	hstats := map[*harness]*harnessStat{}
	hr := map[*harness]*harnessResult{}
	for _, h := range hs {
		hr[h] = &harnessResult{h: h, res: newResults(), use: newUsage()}
		hstats[h] = newHarnessStat()
		q.push(job{h: h})
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w := &worker{ld: ld, timeout: timeout, thor: thor, inline: inline}
			for {
				j, ok := q.pop()
				if !ok {
					break
				}
				var res *Results
				var u *usage
				var sp [][]int
				l := limit
				if r := time.Until(end); r < l {
					l = r
				}
				t1 := time.Now()
				if l <= 0 {
					res = newResults()
					res.unsupported["no time left"]++
					u = newUsage()
				} else if hstats[j.h].over() {
					res = newResults()
					res.unsupported["stopped after failed obligations"]++
					u = newUsage()
				} else {
					w.hstat = hstats[j.h]
					res, u, sp = w.run(j, l)
				}
				if verbose && os.Getenv("GVC_JOBS") != "" {
					fmt.Fprintf(os.Stderr, "job %s %v: %v\n", j.h.name, j.prefix, time.Since(t1))
				}
				mu.Lock()
				hr[j.h].res.merge(res)
				hr[j.h].use.add(u)
				hr[j.h].wall += time.Since(t1)
				mu.Unlock()
				for _, p := range sp {
					q.push(job{j.h, p})
				}
				q.done()
			}
			if w.e != nil {
				w.collect()
				w.e.sol.stop()
			}
			mu.Lock()
			ss.queries += w.ss.queries
			ss.elapsed += w.ss.elapsed
			for k, v := range w.ss.byRes {
				ss.byRes[k] += v
			}
			mu.Unlock()
		}()
	}
	wg.Wait()
	return hr
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

var _ = strings.Join
