package main

import (
	"fmt"
	"sort"
	"strings"
)

// A plan describes one simulated execution completely: a run is a pure
// function of its plan.
type plan struct {
	Prop    string     `json:"prop"`
	Scen    string     `json:"scen"`
	Seed    uint64     `json:"seed"` // seeds latencies, fault draws and every runtime random choice
	Sched   schedPlan  `json:"sched"`
	Cfg     M          `json:"cfg"`
	StartAt int64      `json:"start_at"`
	EndAt   int64      `json:"end_at"` // faults and preemptions stop here
	Ops     []opStep   `json:"ops"`
	Faults  []apiFault `json:"faults"`
	Race    bool       `json:"race,omitempty"` // run with the race detector
}

type schedPlan struct {
	Policy   int32  `json:"policy"`
	Mean     uint64 `json:"mean"`
	StallPer uint64 `json:"stall_per"`
	StallMax int64  `json:"stall_max_us"`
	Change   uint64 `json:"change"`
}

type opStep struct {
	T   int64  `json:"t"` // ms
	Who int    `json:"who,omitempty"`
	Do  string `json:"do"`
	Src int    `json:"src,omitempty"`
	Key string `json:"key,omitempty"`
	Obj M      `json:"obj,omitempty"`
	N   int64  `json:"n,omitempty"`
	S   string `json:"s,omitempty"`
	Tok string `json:"tok,omitempty"` // what is done to the token of the request
}

func (o opStep) String() string {
	s := fmt.Sprintf("t=%dms who=%d %s", o.T, o.Who, o.Do)
	if o.Key != "" {
		s += fmt.Sprintf(" src%d %s", o.Src, o.Key)
	}
	if o.S != "" {
		s += " " + o.S
	}
	if o.Obj != nil {
		s += " " + canon(o.Obj)
	}
	return s
}

func (p *plan) cfgS(k string) string { s, _ := p.Cfg[k].(string); return s }
func (p *plan) cfgB(k string) bool   { b, _ := p.Cfg[k].(bool); return b }
func (p *plan) cfgI(k string) int64 {
	switch v := p.Cfg[k].(type) {
	case float64:
		return int64(v)
	case int64:
		return v
	case int:
		return int64(v)
	}
	return 0
}

func (p *plan) sortOps() {
	sort.SliceStable(p.Ops, func(i, j int) bool { return p.Ops[i].T < p.Ops[j].T })
}

type violation struct {
	Class string `json:"class"`
	Msg   string `json:"msg"`
}

type result struct {
	Violations []violation    `json:"violations"`
	Harness    string         `json:"harness,omitempty"` // harness trouble, never a verdict
	Hash       string         `json:"hash"`
	TraceHash  string         `json:"trace_hash"`
	SimMS      int64          `json:"sim_ms"`
	Picks      uint64         `json:"picks"`
	Choices    uint64         `json:"choices"`
	Yields     uint64         `json:"yields"`
	Stalls     uint64         `json:"stalls"`
	Dropped    uint64         `json:"dropped"`
	Faults     map[string]int `json:"faults"`
	Counts     map[string]int `json:"counts"`
	Trace      []string       `json:"trace,omitempty"`
}

// genSched draws a scheduling regime.
func genSched(r *rng) schedPlan {
	var s schedPlan
	switch r.n(10) {
	case 0: // FIFO, no preemption: the plainest execution
	case 1, 2, 3, 4, 5:
		s.Policy = 1
		s.Mean = pick(r, []uint64{0, 10, 30, 100, 300, 1000})
	default:
		s.Policy = 2
		s.Change = pick(r, []uint64{20, 100, 500, 3000})
		s.Mean = pick(r, []uint64{0, 10, 30, 100, 300, 1000})
	}
	if s.Mean > 0 && r.p(1, 2) {
		s.StallPer = pick(r, []uint64{2, 5, 20, 100})
		s.StallMax = pick(r, []int64{200, 5000, 100000, 2000000}) // us
	}
	return s
}

func canon(v any) string {
	var b strings.Builder
	canonTo(&b, v)
	return b.String()
}

func canonTo(b *strings.Builder, v any) {
	switch x := v.(type) {
	case M:
		ks := make([]string, 0, len(x))
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		b.WriteByte('{')
		for i, k := range ks {
			if i > 0 {
				b.WriteByte(',')
			}
			b.WriteString(k)
			b.WriteByte(':')
			canonTo(b, x[k])
		}
		b.WriteByte('}')
	case map[string]string:
		n := M{}
		for k, e := range x {
			n[k] = e
		}
		canonTo(b, n)
	case []any:
		b.WriteByte('[')
		for i, e := range x {
			if i > 0 {
				b.WriteByte(',')
			}
			canonTo(b, e)
		}
		b.WriteByte(']')
	case int:
		fmt.Fprintf(b, "%d", x)
	case int64:
		fmt.Fprintf(b, "%d", x)
	case float64:
		if x == float64(int64(x)) {
			fmt.Fprintf(b, "%d", int64(x))
		} else {
			fmt.Fprintf(b, "%v", x)
		}
	case string:
		fmt.Fprintf(b, "%q", x)
	default:
		fmt.Fprintf(b, "%v", x)
	}
}
