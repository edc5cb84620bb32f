package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Concrete execution of harnesses against the real code: to confirm
// refutations, and as a (bounded) stand-in where nothing could be proved.

type rcase struct {
	Id      int
	Harness string
	Words   map[string]uint64
	Bytes   map[string]map[string]string
	Choices map[string]int
	Seed    int64
	Runs    int
	Ms      int
}

type rresult struct {
	Id      int
	Result  string
	Log     []string
	Choices map[string]int
	Ran     int
	Skipped int
	Seed    int64
	Stuck   bool
}

const replayTest = `package xmssmt

import (
	"encoding/json"
	"math/rand"
	"os"
	"testing"
	"time"
)

type gvcCase struct {
	Id      int
	Harness string
	Words   map[string]uint64
	Bytes   map[string]map[string]string
	Choices map[string]int
	Seed    int64
	Runs    int
	Ms      int
}

type gvcRes struct {
	Id      int
	Result  string
	Log     []string
	Choices map[string]int
	Ran     int
	Skipped int
	Seed    int64
	Stuck   bool
}

func TestGvcReplay(t *testing.T) {
	var cases []gvcCase
	b, err := os.ReadFile(os.Getenv("GVC_CASES"))
	if err != nil {
		t.Fatal(err)
	}
	if err := json.Unmarshal(b, &cases); err != nil {
		t.Fatal(err)
	}
	out, err := os.OpenFile(os.Getenv("GVC_OUT"), os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0644)
	if err != nil {
		t.Fatal(err)
	}
	for _, c := range cases {
		f := gvcHarnesses[c.Harness]
		if f == nil {
			continue
		}
		done := make(chan gvcRes, 1)
		c := c
		go func() {
			r := gvcRes{Id: c.Id, Seed: c.Seed}
			end := time.Now().Add(time.Duration(c.Ms) * time.Millisecond)
			if c.Runs == 0 {
				run := &gvcRun{Words: c.Words, Bytes: c.Bytes, Choices: c.Choices}
				r.Result = gvcExec(f, run)
				r.Log = run.Log
				r.Ran = 1
			}
			for i := 0; i < c.Runs && time.Now().Before(end); i++ {
				run := &gvcRun{Choices: c.Choices, Rand: rand.New(rand.NewSource(c.Seed + int64(i)))}
				res := gvcExec(f, run)
				if res == "skip" {
					r.Skipped++
					continue
				}
				r.Ran++
				if res != "" {
					r.Result, r.Log, r.Seed = res, run.Log, c.Seed+int64(i)
					break
				}
			}
			done <- r
		}()
		var r gvcRes
		select {
		case r = <-done:
		case <-time.After(time.Duration(c.Ms)*time.Millisecond + 20*time.Second):
			r = gvcRes{Id: c.Id, Result: "does not return", Stuck: true}
			if gvcCur != nil {
				r.Log = gvcCur.Log
			}
		}
		j, _ := json.Marshal(r)
		out.Write(append(j, 10))
		if r.Stuck {
			break
		}
	}
	out.Close()
}
`

type replayer struct {
	ld  *Loader
	dir string
	bin string
	err error
}

func (ld *Loader) newReplayer() *replayer {
	r := &replayer{ld: ld}
	r.dir, r.err = os.MkdirTemp("", "gvcreplay")
	if r.err != nil {
		return r
	}
	ov := map[string]string{}
	tests, _ := filepath.Glob(filepath.Join(ld.dir, "*_test.go"))
	for _, t := range tests {
		ov[t] = ""
	}
	for f, src := range ld.overlay {
		p := filepath.Join(r.dir, filepath.Base(f))
		if r.err = os.WriteFile(p, src, 0644); r.err != nil {
			return r
		}
		ov[f] = p
	}
	var sb strings.Builder
	sb.WriteString(replayTest)
	sb.WriteString("\nvar gvcHarnesses = map[string]func(){\n")
	for _, h := range ld.harnesses {
		if _, no := h.opts["noexec"]; !no {
			fmt.Fprintf(&sb, "\t%q: %s,\n", h.name, h.name)
		}
	}
	sb.WriteString("}\n")
	p := filepath.Join(r.dir, "replay_test.go")
	os.WriteFile(p, []byte(sb.String()), 0644)
	ov[filepath.Join(ld.dir, "gvc_replay_test.go")] = p
	j, _ := json.Marshal(map[string]interface{}{"Replace": ov})
	op := filepath.Join(r.dir, "overlay.json")
	os.WriteFile(op, j, 0644)
	r.bin = filepath.Join(r.dir, "replay.test")
	cmd := exec.Command("go", "test", "-c", "-vet=off", "-overlay", op, "-o", r.bin, ".")
	cmd.Dir = ld.dir
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local")
	out, err := cmd.CombinedOutput()
	if err != nil {
		r.err = fmt.Errorf("building the replay binary: %v: %s", err, trunc(string(out), 2000))
	}
	return r
}

func (r *replayer) close() {
	if r.dir != "" {
		os.RemoveAll(r.dir)
	}
}

// run executes the cases, spread over several processes.
func (r *replayer) run(cases []rcase, limit time.Duration) map[int]rresult {
	res := map[int]rresult{}
	if r.err != nil || len(cases) == 0 {
		return res
	}
	const np = 8
	parts := make([][]rcase, np)
	for i, c := range cases {
		parts[i%np] = append(parts[i%np], c)
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	for k, p := range parts {
		wg.Add(1)
		go func(k int, p []rcase) {
			defer wg.Done()
			todo := p
			for try := 0; len(todo) > 0 && try < 6 && ctx.Err() == nil; try++ {
				d, err := os.MkdirTemp(r.dir, "run")
				if err != nil {
					return
				}
				cf, of := filepath.Join(d, "cases.json"), filepath.Join(d, "out.json")
				b, _ := json.Marshal(todo)
				os.WriteFile(cf, b, 0644)
				cmd := exec.CommandContext(ctx, r.bin, "-test.run", "^TestGvcReplay$", "-test.timeout", "0")
				cmd.Dir = d
				cmd.Env = append(os.Environ(), "GVC_CASES="+cf, "GVC_OUT="+of, "TMPDIR="+d, "GOMEMLIMIT=3GiB")
				var eb bytes.Buffer
				cmd.Stderr, cmd.Stdout = &eb, &eb
				runErr := cmd.Run()
				ob, _ := os.ReadFile(of)
				got := map[int]bool{}
				mu.Lock()
				for _, l := range bytes.Split(ob, []byte("\n")) {
					var x rresult
					if len(l) > 0 && json.Unmarshal(l, &x) == nil {
						res[x.Id] = x
						got[x.Id] = true
					}
				}
				var next []rcase
				for _, c := range todo {
					if !got[c.Id] {
						next = append(next, c)
					}
				}
				if runErr != nil && len(next) > 0 && ctx.Err() == nil {
					// the process died while running the first of them
					s := eb.String()
					if !strings.Contains(s, "signal: killed") && (strings.Contains(s, "fatal error") || strings.Contains(s, "panic:")) {
						res[next[0].Id] = rresult{Id: next[0].Id, Result: "process died: " + firstLine(s), Log: []string{trunc(s, 3000)}, Ran: 1}
					}
					next = next[1:]
				}
				mu.Unlock()
				os.RemoveAll(d)
				todo = next
			}
		}(k, p)
	}
	wg.Wait()
	return res
}

func firstLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "fatal error") || strings.Contains(l, "panic:") {
			return l
		}
	}
	return trunc(s, 100)
}

func (x *Refutation) rcase(id int) rcase {
	c := rcase{Id: id, Harness: x.Harness, Words: map[string]uint64{}, Bytes: x.Bytes, Choices: map[string]int{}, Ms: 20000}
	for k, v := range x.Words {
		u, err := strconv.ParseUint(v, 10, 64)
		if err == nil {
			c.Words[k] = u
		}
	}
	for _, s := range x.Choices {
		i := strings.LastIndex(s, "=")
		k, _ := strconv.Atoi(s[i+1:])
		c.Choices[s[:i]] = k
	}
	return c
}

func sortedKeys(m map[string]int) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
