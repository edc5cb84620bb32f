package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"time"
)

// Oblig is one named proof obligation; it may be generated on many paths and
// for many configurations.
type Oblig struct {
	Name       string
	Count      int
	Discharged int
	BySimp     int
	Solver     time.Duration
	Refs       []*Refutation
	NRefuted   int
	Undecided  int
	Skipped    int
	Why        string
}

func (o *Oblig) kind() string {
	return strings.SplitN(o.Name, ": ", 2)[0]
}

type Refutation struct {
	Harness string                       `json:"harness"`
	Prop    string                       `json:"property"`
	Oblig   string                       `json:"obligation"`
	Pos     string                       `json:"at"`
	Choices []string                     `json:"choices"`
	Prefix  []int                        `json:"prefix"`
	Words   map[string]string            `json:"words"`
	Bytes   map[string]map[string]string `json:"bytes"`
	Cond    string                       `json:"condition"`
	Solver  string                       `json:"solver"`
}

type Results struct {
	m           map[string]*Oblig
	order       []string
	unsupported map[string]int
	reach       map[string]int
	paths       int
	jobs        int
}

func newResults() *Results {
	return &Results{m: map[string]*Oblig{}, unsupported: map[string]int{}, reach: map[string]int{}}
}

func (r *Results) oblig(name string) *Oblig {
	o := r.m[name]
	if o == nil {
		o = &Oblig{Name: name}
		r.m[name] = o
		r.order = append(r.order, name)
	}
	return o
}

func (r *Results) merge(s *Results) {
	for _, n := range s.order {
		q := s.m[n]
		o := r.oblig(n)
		o.Count += q.Count
		o.Discharged += q.Discharged
		o.BySimp += q.BySimp
		o.Solver += q.Solver
		o.NRefuted += q.NRefuted
		o.Undecided += q.Undecided
		o.Skipped += q.Skipped
		if o.Why == "" {
			o.Why = q.Why
		}
		if len(o.Refs) < 4 && len(q.Refs) > 0 {
			o.Refs = append(o.Refs, q.Refs[0])
		}
	}
	for k, v := range s.unsupported {
		r.unsupported[k] += v
	}
	for k, v := range s.reach {
		r.reach[k] += v
	}
	r.paths += s.paths
	r.jobs += s.jobs
}

func (r *Results) sorted() []*Oblig {
	var out []*Oblig
	for _, n := range r.order {
		out = append(out, r.m[n])
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name < out[j].Name })
	return out
}

func (e *Exec) refutation(st *State, m *Model, pos string, cond *Term) *Refutation {
	r := &Refutation{Harness: e.harness, Pos: pos, Choices: append([]string(nil), e.choices...), Prefix: append([]int(nil), e.taken...),
		Words: map[string]string{}, Bytes: map[string]map[string]string{}, Cond: cond.Str(5), Solver: e.sol.bin}
	if len(r.Cond) > 2000 {
		r.Cond = r.Cond[:2000] + "..."
	}
	if m == nil {
		return r
	}
	for _, in := range e.inputs {
		switch in.kind {
		case "bytes":
			r.Bytes[in.name] = map[string]string{}
			pre := "|" + in.base + "@"
			for k, v := range m.vals {
				if !strings.HasPrefix(k, pre) {
					continue
				}
				var off, n int
				if c, _ := fmt.Sscanf(strings.TrimSuffix(k[len(pre):], "|"), "%d_%d", &off, &n); c == 2 {
					r.Bytes[in.name][fmt.Sprint(off)] = hexN(v, n)
				}
			}
			if in.size != nil {
				if in.size.isConst() {
					r.Words[in.name+".size"] = fmt.Sprint(in.size.k)
				} else if v, ok := m.vals[quoteSym(in.size.name)]; ok {
					r.Words[in.name+".size"] = v.String()
				}
			}
		default:
			if in.t == nil {
				continue
			}
			if in.t.isConst() {
				r.Words[in.name] = fmt.Sprint(in.t.k)
			} else if v, ok := m.vals[quoteSym(in.t.name)]; ok {
				r.Words[in.name] = v.String()
			}
		}
	}
	return r
}

func hexN(v *big.Int, n int) string {
	s := v.Text(16)
	if len(s) < 2*n {
		s = strings.Repeat("0", 2*n-len(s)) + s
	}
	return s
}
