package main

import (
	"fmt"
	"strings"
	"time"
)

// The crash scenario (C03): the process hosting the operator dies at a
// statement, at an API request or at an instant, and is replaced, possibly
// several times. Only the API server survives.

type crashConv struct {
	*conv
	client  string
	atStart map[string]bool // target keys that existed when the last process started
	wanted  map[string]bool // target keys wanted at some moment after the last process was up
}

func (c *crashConv) startAsync() {
	c.node++
	c.client = fmt.Sprintf("op-%d", c.node)
	c.atStart = map[string]bool{}
	for _, t := range c.t.Tgts {
		for k := range c.w.srv.objs[t.Kind] {
			c.atStart[t.Kind+"|"+k] = true
		}
	}
	o := hostOpts{node: c.node, errCap: 64, client: c.client, async: true}
	if c.w.p.cfgB("shared") {
		o.shared = newShared()
	}
	m := modes{Src: append([]string{}, c.m.Src...), Tgt: append([]string{}, c.m.Tgt...)}
	h, err := c.w.newHost(opName, c.t.Ctrls(m), o)
	if err != nil {
		c.w.fail("no-start", "operator cannot be created: %v", err)
	}
	c.h = h
}

func (c *crashConv) crash(o opStep) {
	node := c.node
	switch {
	case strings.HasPrefix(o.S, "w"): // around a write request
		c.w.srv.kill = killPoint{client: c.client, n: o.N, after: o.S == "wa"}
	case o.N > 0:
		dsimKillAfter(node, o.N)
	default:
		dsimKill(node)
	}
	for i := 0; i < 100 && !dsimKilled(node); i++ {
		time.Sleep(50 * time.Millisecond)
	}
	if !dsimKilled(node) {
		c.w.counts["crash_timeout"]++
		dsimKill(node)
	}
	dsimKillAfter(0, 0)
	c.w.srv.kill = killPoint{}
	c.w.srv.disconnect(c.client)
	c.w.srv.fired["crash"]++
	c.w.log("crash of node %d (%s %d)", node, o.S, o.N)
	time.Sleep(time.Duration(o.Src) * time.Millisecond)
	c.startAsync()
}

func (c *crashConv) note() {
	for i, m := range c.expected() {
		for k := range m {
			c.wanted[c.t.Tgts[i].Kind+"|"+k] = true
		}
	}
}

// judge compares the targets with the reference. An extra target object is
// exempt if it existed when the last process started and was not wanted at
// any moment since that process was surely up.
func (c *crashConv) judge() string {
	if c.h.op == nil {
		return "the operator has not been constructed"
	}
	c.views = c.h.op.GetClient()
	exp := c.expected()
	for i, t := range c.t.Tgts {
		got, err := c.actual(i)
		if err != nil {
			return "list " + t.Kind + ": " + err.Error()
		}
		got = fixRep(exp[i], got)
		want := contents(exp[i], c.t.Multi)
		have := contents(got, c.t.Multi)
		if c.m.Tgt[i] == "n" && !t.Mid {
			for k := range have {
				id := t.Kind + "|" + k
				if _, ok := want[k]; !ok && c.atStart[id] && !c.wanted[id] {
					delete(have, k)
					c.w.counts["exempt"]++
				}
			}
		}
		if d := diffMaps(want, have); d != "" {
			return t.Kind + ": " + d
		}
	}
	return ""
}

func (c *crashConv) settleCrash(bound, stay time.Duration) (string, time.Duration) {
	start := now()
	okSince := time.Duration(-1)
	last := ""
	for {
		d := c.judge()
		t := now()
		if d == "" {
			if okSince < 0 {
				okSince = t
			}
			if t-okSince >= stay {
				return "", okSince - start
			}
		} else {
			okSince = -1
			last = d
			if t-start > bound {
				return last, t - start
			}
		}
		time.Sleep(2 * time.Second)
	}
}

func runCrash(w *world) error {
	c := &crashConv{conv: newConv(w), wanted: map[string]bool{}}
	c.startAsync()
	var late []opStep
	var early []opStep
	for _, o := range w.p.Ops {
		if o.Who == 100 {
			late = append(late, o)
		} else {
			early = append(early, o)
		}
	}
	w.p.Ops = early
	all := c.users(func(o opStep) error {
		if o.Do == "crash" {
			c.crash(o)
			return nil
		}
		return c.apply(o)
	})
	<-all
	if d := time.Duration(w.p.EndAt)*time.Millisecond - now(); d > 0 {
		time.Sleep(d)
	}
	c.quiet()
	time.Sleep(120 * time.Second) // the last process is surely up and has seen the sources
	c.note()
	for _, o := range late {
		if err := c.apply(o); err != nil {
			w.fail("user-op", "%s: %v", o, err)
		}
		w.counts["op_late_"+o.Do]++
		time.Sleep(10 * time.Second)
		c.note()
	}
	d, took := c.settleCrash(3000*time.Second, 60*time.Second)
	if d != "" {
		w.fail("diverged", "targets differ from the reference %.0fs after the last crash, change and fault: %s errors: %v", took.Seconds(), d, tailErrs(c.h.errs))
	}
	w.counts["targets"] += c.countTargets()
	return nil
}

func genC03(r *rng) *plan {
	p := genConvBase(r, "C03", tmplNames(func(t *tmpl) bool { return t.Name != "nchain" }))
	p.Scen = "crash"
	t := tmplOf(p)
	p.Cfg["src"] = strings.Repeat("n", len(t.Srcs))
	if !strings.Contains(p.cfgS("tgt"), "n") && r.p(4, 5) {
		b := []byte(p.cfgS("tgt"))
		b[len(b)-1] = 'n'
		p.Cfg["tgt"] = string(b)
	}
	span := pick(r, []int64{50, 1000, 5000, 20000})
	genSteps(r, p, 1+r.n(14), span)
	var at int64
	for i, n := 0, 1+r.n(3); i < n; i++ {
		o := opStep{Who: 101, Do: "crash"}
		if r.p(1, 2) && len(p.Ops) > 0 { // right after a change
			o.T = p.Ops[r.n(len(p.Ops))].T + r.i64(pick(r, []int64{2, 10, 100}))
		} else {
			o.T = r.i64(span + 500)
		}
		if o.T < at {
			o.T = at
		}
		at = o.T
		switch r.n(4) {
		case 0:
		case 1, 2:
			o.N = 1 + r.i64(pick(r, []int64{20, 200, 2000, 8000}))
		default:
			o.S = pick(r, []string{"wa", "wb"})
			o.N = 1 + r.i64(3)
		}
		o.Src = pick(r, []int{0, 1, 100, 3000, 10000})
		p.Ops = append(p.Ops, o)
	}
	if r.p(1, 3) {
		for i, n := 0, 1+r.n(2); i < n; i++ {
			from := r.i64(span + 500)
			p.Faults = append(p.Faults, apiFault{From: from, To: from + 1 + r.i64(5000), Per: pick(r, []int{1, 2, 3}),
				Kind: pick(r, []string{"e500", "e503", "e429", "reset", "lost"}), Verbs: pick(r, []string{"w", "w", ""})})
		}
	}
	p.sortOps()
	p.EndAt = span + 1000
	for _, f := range p.Faults {
		p.EndAt = max(p.EndAt, f.To)
	}
	// changes once the last process is up
	keys := []string{"ns1/a", "ns1/b", "ns2/a"}
	for i, n := 0, r.n(5); i < n; i++ {
		o := opStep{T: 1 << 40, Who: 100, Src: r.n(len(t.Srcs)), Key: pick(r, keys), Do: "del"}
		if r.p(1, 2) {
			o.Do = "put"
			o.Obj = M{"spec": genSpec(r), "labels": M{"tier": tierOf(o.Key)}}
		}
		p.Ops = append(p.Ops, o)
	}
	return p
}
