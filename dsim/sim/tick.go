package main

import (
	"context"
	"fmt"
	"sort"
	"strings"
	"time"

	"sigs.k8s.io/controller-runtime/pkg/client"

	"github.com/l7mp/dcontroller/pkg/cache"
	"k8s.io/apimachinery/pkg/watch"
)

// The tick scenario (C11): controllers with periodic and one-shot sources.
// Users change sources and tamper with target objects; a periodic trigger must
// undo the tampering, at the declared times and never after a stop.

type effWrite struct {
	id string
	t  time.Duration
}

type tick struct {
	*conv
	period time.Duration
	writes []effWrite // effective writes of targets, whoever did them
	mine   int        // ... of the harness
}

// patchDoc is a Patcher target on objects the users own.
func patchDoc() *tmpl {
	return &tmpl{Name: "patchdoc", Srcs: []string{"Alpha"},
		Ctrls: func(m modes) string {
			return ctrlYAML("c1", []string{srcYAML(&tmpl{Srcs: []string{"Alpha"}}, m, 0, "")},
				"- '@project':\n    metadata: {name: $.metadata.name, namespace: $.metadata.namespace}\n    spec: {p: $.spec.val, q: {r: $.spec.key}}", tgtYAML(m, 0, "Out", "Patcher"))
		},
		Tgts: []tgt{{Kind: "Out", Ref: func(src []map[string]M, prev []map[string]M) map[string]M {
			res := map[string]M{}
			for _, key := range []string{"ns1/a", "ns1/b", "ns2/a"} {
				ns, name, _ := strings.Cut(key, "/")
				s := M{"own": int64(1)}
				if o := src[0][key]; o != nil {
					s["p"] = sp(o)["val"]
					s["q"] = M{"r": sp(o)["key"]}
				}
				k, n := mk(ns, name, nil, M{"spec": s})
				res[k] = n
			}
			return res
		}}}}
}

func newTick(w *world) *tick {
	c := &tick{conv: newConv(w), period: time.Duration(w.p.cfgI("period_ms")) * time.Millisecond}
	if w.p.cfgS("tmpl") == "patchdoc" {
		c.t = patchDoc()
		c.state = []map[string]M{{}}
	}
	orig := c.t.Ctrls
	t := *c.t
	src := "{kind: Tick, type: Periodic}"
	if p := w.p.cfgS("period"); p != "" {
		src = fmt.Sprintf("{kind: Tick, type: Periodic, parameters: {period: %s}}", p)
	}
	t.Ctrls = func(m modes) string {
		y := orig(m)
		if w.p.cfgB("first") {
			return strings.ReplaceAll(y, "sources: [", "sources: ["+src+", ")
		}
		return strings.ReplaceAll(y, "]\n  pipeline:", ", "+src+"]\n  pipeline:")
	}
	c.t = &t
	inner := w.srv.onWrite
	w.srv.onWrite = func(r *writeRec) {
		inner(r)
		if strings.HasPrefix(r.Client, "op") && !r.Noop {
			c.writes = append(c.writes, effWrite{r.Kind + "|" + r.Key, now()})
		}
	}
	return c
}

// watchKind records changes of views of a kind.
func (c *tick) watchKind(kind string) error {
	wi, err := c.views.(client.WithWatch).Watch(context.Background(), cache.NewViewObjectList(opName, kind))
	if err != nil {
		return err
	}
	go func() {
		for e := range wi.ResultChan() {
			if o, ok := e.Object.(client.Object); ok && e.Type != watch.Bookmark {
				c.writes = append(c.writes, effWrite{kind + "|" + o.GetNamespace() + "/" + o.GetName(), now()})
				c.w.log("view event %s %s %s/%s", e.Type, kind, o.GetNamespace(), o.GetName())
			}
		}
	}()
	return nil
}

func (c *tick) native(i int) bool { return c.m.Tgt[i] == "n" && !c.t.Tgts[i].Mid }

// tamper changes or removes an existing target object behind the operator's back.
func (c *tick) tamper(i int, key, how string, n int64) bool {
	t := c.t.Tgts[i]
	got, err := c.actual(i)
	if err != nil || got[key] == nil {
		return false
	}
	o := cp(got[key])
	if c.t.Name == "patchdoc" {
		if getPath(o, ".spec.p") == nil {
			return false
		}
		how = "change"
	}
	switch how {
	case "del":
		if c.native(i) {
			if _, e := c.w.srv.del("user", kindByName(t.Kind), key); e != nil {
				return false
			}
		} else if c.views.Delete(context.Background(), newView(opName, t.Kind, key, M{})) != nil {
			return false
		}
	default:
		if o["spec"] == nil { // a config map, say
			setPath(o, "data.tampered", fmt.Sprint(n))
		} else {
			f := "spec.tampered"
			var v any = n
			if i == len(c.t.Tgts)-1 && sp(o) != nil {
				for _, k := range sortedStr(sp(o)) {
					if (n+int64(len(k)))%3 == 0 && k != "rep" && k != "own" {
						f, v = "spec."+k, fmt.Sprintf("tampered%d", n)
					}
				}
				if c.t.Name == "patchdoc" {
					f, v = "spec.p", fmt.Sprintf("tampered%d", n)
				}
			}
			setPath(o, f, v)
		}
		if c.native(i) {
			if _, e := c.w.srv.update("user", kindByName(t.Kind), o, ""); e != nil {
				return false
			}
		} else if c.views.Update(context.Background(), newView(opName, t.Kind, key, o)) != nil {
			return false
		}
	}
	c.w.log("tamper %s %s %s", how, t.Kind, key)
	c.w.counts["tampered"]++
	return true
}

func sortedStr(m M) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (c *tick) restored(i int, key string) bool {
	exp := c.expected()
	got, err := c.actual(i)
	if err != nil {
		return false
	}
	got = fixRep(exp[i], got)
	return exp[i][key] != nil && got[key] != nil && content(exp[i][key], c.t.Multi) == content(got[key], c.t.Multi)
}

// probe is a target object to be tampered with.
func (c *tick) probe() (int, string) {
	exp := c.expected()
	for i := len(exp) - 1; i >= 0; i-- {
		got, _ := c.actual(i)
		for _, k := range sortedKeys(exp[i]) {
			if got[k] != nil && (c.t.Name != "patchdoc" || getPath(exp[i][k], ".spec.p") != nil) {
				return i, k
			}
		}
	}
	return -1, ""
}

func runTick(w *world) error {
	c := newTick(w)
	p := c.period
	startAt := time.Duration(w.p.StartAt) * time.Millisecond
	if err := c.start(startAt); err != nil {
		w.fail("no-start", "operator cannot be created: %v", err)
		return nil
	}
	for i, t := range c.t.Tgts {
		if !c.native(i) {
			if err := c.watchKind(t.Kind); err != nil {
				return err
			}
		}
	}
	if c.t.Name == "patchdoc" {
		for _, key := range []string{"ns1/a", "ns1/b", "ns2/a"} {
			ns, name, _ := strings.Cut(key, "/")
			if c.native(0) {
				if _, e := w.srv.create("user", kindByName("Out"), M{"metadata": M{"name": name, "namespace": ns}, "spec": M{"own": int64(1)}}); e != nil {
					return e
				}
			} else if err := c.views.Create(context.Background(), newView(opName, "Out", key, M{"spec": M{"own": int64(1)}})); err != nil {
				return err
			}
		}
	}
	all := c.users(func(o opStep) error {
		switch {
		case o.Do == "tamper":
			i := o.Src % len(c.t.Tgts)
			got, err := c.actual(i)
			if err == nil && len(got) > 0 {
				ks := sortedKeys(got)
				c.tamper(i, ks[int(o.N)%len(ks)], o.S, o.N)
			}
			return nil
		case c.serverStep(o):
			return nil
		}
		return c.apply(o)
	})
	if !c.await(all) {
		return fmt.Errorf("steps did not end")
	}
	early := w.p.cfgB("early")
	if early {
		// the first trigger comes one period after the start
		c.sleepTo(startAt + p/4)
		c.quiet()
		i, k := c.probe()
		if i >= 0 && c.diff() == "" {
			c.sleepTo(startAt + p/2)
			c.tamper(i, k, "del", 1)
			c.sleepTo(startAt + p - time.Second)
			if c.diff() == "" {
				w.fail("tick-early", "%s %s, removed by hand, was restored before the first period of %s was over", c.t.Tgts[i].Kind, k, p)
			}
			c.sleepTo(startAt + p + p/4)
			if d := c.diff(); d != "" {
				w.fail("tick-missing", "%.0fs after the start, period %s: tampering %.0fs ago was not undone: %s", (now() - startAt).Seconds(), p, (now() - startAt - p/2).Seconds(), d)
			}
			w.counts["early_checked"]++
		}
	}
	c.sleepTo(time.Duration(w.p.EndAt) * time.Millisecond)
	c.quiet()
	bound := p + 60*time.Second
	stay := 25 * time.Second
	if len(w.p.Faults) > 0 || c.faulty {
		bound, stay = 2*p+3000*time.Second, 110*time.Second
	}
	if d, took := c.settle(bound, stay); d != "" {
		w.fail("diverged", "targets differ from the reference %.0fs after the last change, period %s: %s errors: %v", took.Seconds(), p, d, tailErrs(c.h.errs))
		return nil
	}
	w.counts["targets"] += c.countTargets()
	// triggers that find nothing to do change nothing
	c.writes = nil
	nerr := len(c.h.errs)
	time.Sleep(2*p + p/2)
	if len(c.writes) > 0 {
		w.fail("needless-write", "period %s: the targets were right but were written %d times in two and a half periods: %v", p, len(c.writes), c.writes[:min(4, len(c.writes))])
		return nil
	}
	if len(w.p.Faults) == 0 && len(c.h.errs) > nerr {
		w.fail("tick-error", "periodic triggers fail: %v", tailErrs(c.h.errs))
	}
	// the times of the triggers
	var at []time.Duration
	if i, k := c.probe(); i >= 0 {
		for n := int64(0); n < 4; n++ {
			t0 := now()
			if !c.tamper(i, k, pick(w.r, []string{"del", "change"}), n) {
				break
			}
			for !c.restored(i, k) && now()-t0 < 2*p+30*time.Second {
				time.Sleep(max(50*time.Millisecond, min(p/2000, time.Second)))
			}
			if !c.restored(i, k) {
				w.fail("tick-missing", "period %s: %s %s, changed by hand, was not restored for %.0fs", p, c.t.Tgts[i].Kind, k, (now() - t0).Seconds())
				return nil
			}
			at = append(at, now())
			c.sleepTo(now() + p/3) // the write may not be over: do not make it conflict
		}
		// failed triggers are retried in between, up to a thousand seconds later
		clean := len(w.p.Faults) == 0 && !c.faulty && len(c.h.errs) == 0
		for n := 1; n < len(at); n++ {
			w.counts["ticks_timed"]++
			if d := at[n] - at[n-1] - p; d > 2*time.Second || d < -2*time.Second && clean {
				w.fail("tick-period", "triggers at %v: %s apart, declared are %s", at, at[n]-at[n-1], p)
				break
			}
		}
		if w.p.Sched.StallPer == 0 && len(w.p.Faults) == 0 && len(at) > 0 {
			if ph := (at[0] - startAt) % p; ph > 5*time.Second && ph < p-time.Second {
				w.fail("tick-phase", "period %s: the operator started at %s, a trigger came at %s", p, startAt, at[0])
			}
		}
	}
	if d, _ := c.settle(bound, 5*time.Second); d != "" {
		w.fail("diverged", "after undoing what was tampered with: %s", d)
		return nil
	}
	// no triggers after a stop
	c.h.cancel()
	select {
	case <-c.h.done:
	case <-time.After(120 * time.Second):
		w.fail("stop-stuck", "the operator did not stop within 120s")
		return nil
	}
	time.Sleep(2 * time.Second)
	if i, k := c.probe(); i >= 0 && c.tamper(i, k, "del", 7) {
		time.Sleep(time.Second)
		c.writes = nil
		time.Sleep(3 * p)
		if c.restored(i, k) || len(c.writes) > 0 {
			w.fail("tick-after-stop", "period %s: targets written after the operator had stopped: %v", p, c.writes)
		}
	}
	return nil
}

func (c *conv) sleepTo(t time.Duration) {
	if d := t - now(); d > 0 {
		time.Sleep(d)
	}
}

// ---- one-shot sources ----

// runOneshot: controllers with one-shot sources are started and stopped;
// every start must trigger them exactly once.
func runOneshot(w *world) error {
	c := newConv(w)
	c.t = &tmpl{Name: "oneshot", Srcs: []string{"Alpha"}}
	c.t.Tgts = []tgt{{Kind: "Out", Ref: func(src []map[string]M, prev []map[string]M) map[string]M {
		res := map[string]M{}
		for _, o := range src[0] {
			k, n := mk(onsp(o), oname(o), nil, M{"spec": M{"val": sp(o)["val"]}})
			res[k] = n
		}
		return res
	}}}
	kind2 := w.p.cfgS("kind2")
	c.t.Ctrls = func(m modes) string {
		y := ctrlYAML("boot", []string{"{kind: Init, type: OneShot}"}, `- '@project': {metadata: {name: boot, namespace: ns1}, spec: {t: '$.metadata.labels["dcontroller.io/last-triggered"]', n: {'@len': ['$.metadata.name']}}}`,
			strings.Replace(tgtYAML(m, 0, "Doc", "Updater"), "Doc", w.p.cfgS("bootkind"), 1))
		return y + ctrlYAML("joined", []string{fmt.Sprintf("{kind: %s, type: OneShot}", kind2), srcYAML(c.t, m, 0, "")},
			fmt.Sprintf("- '@join': {'@exists': '$.%s.metadata.name'}\n- '@project': {metadata: {name: $.Alpha.metadata.name, namespace: $.Alpha.metadata.namespace}, spec: {val: $.Alpha.spec.val}}", kind2), tgtYAML(m, 0, "Out", "Updater"))
	}
	boot := w.p.cfgS("bootkind")
	var hits []time.Duration
	inner := w.srv.onWrite
	w.srv.onWrite = func(r *writeRec) {
		inner(r)
		if strings.HasPrefix(r.Client, "op") && !r.Noop && r.Kind == boot {
			if r.Verb != "status" {
				hits = append(hits, now())
			}
		}
	}
	shared := newShared()
	starts := int(w.p.cfgI("starts"))
	current := 0
	var all chan struct{}
	for n := 0; n < starts; n++ {
		current = n
		last := n == starts-1
		hits = nil
		y := c.t.Ctrls(c.m)
		o := hostOpts{node: 1, errCap: 64}
		if n > 0 {
			o.startAt = now() + time.Duration(w.p.StartAt)*time.Millisecond
		}
		if w.p.cfgB("shared") || c.m.Src[0] == "v" {
			o.shared = shared
		}
		h, err := w.newHost(opName, y, o)
		if err != nil {
			w.fail("no-start", "operator cannot be created: %v", err)
			return nil
		}
		c.h, c.views = h, h.op.GetClient()
		if c.m.Tgt[0] == "v" {
			wi, err := c.views.(client.WithWatch).Watch(h.ctx, cache.NewViewObjectList(opName, boot))
			if err != nil {
				return err
			}
			go func() {
				for e := range wi.ResultChan() {
					w.log("boot view %s", e.Type)
					if e.Type != watch.Deleted && n == current {
						hits = append(hits, now())
					}
				}
			}()
		}
		if all == nil {
			all = c.users(func(o opStep) error {
				if c.serverStep(o) {
					return nil
				}
				return c.apply(o)
			})
		}
		if !last {
			time.Sleep(time.Duration(w.p.cfgI("run_ms")) * time.Millisecond)
		} else {
			if !c.await(all) {
				return fmt.Errorf("steps did not end")
			}
			c.quiet()
			stay := 25 * time.Second
			if len(w.p.Faults) > 0 || c.faulty {
				stay = 110 * time.Second
			}
			if d, took := c.settle(3000*time.Second, stay); d != "" {
				w.fail("diverged", "targets differ from the reference %.0fs after the last change: %s", took.Seconds(), d)
				return nil
			}
			for i := 0; i < 3000 && len(hits) == 0; i++ {
				time.Sleep(time.Second)
			}
			time.Sleep(200 * time.Second)
		}
		w.log("start %d: %d hits", n, len(hits))
		if len(hits) > 1 {
			w.fail("oneshot-twice", "start %d of the controller: its target was written %d times, at %v", n, len(hits), hits)
		}
		if len(hits) == 0 && last {
			w.fail("oneshot-missing", "start %d of the controller: it was not triggered; errors: %v", n, tailErrs(h.errs))
		}
		w.counts["oneshots"] += len(hits)
		if !last {
			h.cancel()
			select {
			case <-h.done:
			case <-time.After(900 * time.Second):
				w.fail("stop-stuck", "the operator did not stop within 900s")
				return nil
			}
			time.Sleep(time.Second)
			// what goes away before the next start leaves its results behind: start afresh
			got, err := c.actual(0)
			if err != nil {
				return err
			}
			for _, k := range sortedKeys(got) {
				if c.m.Tgt[0] == "n" {
					w.srv.del("user", kindByName("Out"), k)
				} else if err := c.views.Delete(context.Background(), newView(opName, "Out", k, M{})); err != nil {
					return err
				}
			}
			if c.m.Tgt[0] == "v" {
				if err := c.views.Delete(context.Background(), newView(opName, boot, "ns1/boot", M{})); client.IgnoreNotFound(err) != nil {
					return err
				}
			}
		}
	}
	return nil
}

func genC11(r *rng) *plan {
	var p *plan
	if r.p(1, 3) {
		p = &plan{Prop: "C11", Scen: "oneshot", Seed: r.next(), Sched: genSched(r), Cfg: M{}}
		p.Cfg["tmpl"] = "proj"
		p.Cfg["src"], p.Cfg["tgt"] = pick(r, []string{"n", "v"}), pick(r, []string{"n", "v"})
		p.Cfg["kind2"] = pick(r, []string{"Init", "Start"})
		p.Cfg["bootkind"] = pick(r, []string{"Mid", "Doc"})
		if p.cfgS("tgt") == "n" {
			p.Cfg["bootkind"] = "Beta"
		}
		p.Cfg["shared"] = r.p(1, 2)
		p.Cfg["starts"] = 1 + r.n(3)
		span := pick(r, []int64{50, 1000, 10000, 60000})
		p.Cfg["run_ms"] = pick(r, []int64{0, 5, 100, 2000, 60000})
		p.Cfg["lat_us"] = pick(r, []int64{1, 1000, 5000, 50000})
		p.Cfg["wlat_us"] = pick(r, []int64{1, 1000, 20000, 300000})
		p.StartAt = pick(r, []int64{0, 5, 300})
		q := *p
		q.Cfg = M{"tmpl": "proj"}
		genSteps(r, &q, 1+r.n(8), span)
		p.Ops = q.Ops
		if r.p(1, 2) && p.cfgS("tgt") == "n" {
			genFaults(r, p, 1+r.n(3), span+1000)
		}
		for i := range p.Ops {
			p.EndAt = max(p.EndAt, p.Ops[i].T)
		}
		for _, f := range p.Faults {
			p.EndAt = max(p.EndAt, f.To)
		}
		return p
	}
	p = genConvBase(r, "C11", tmplNames(func(t *tmpl) bool { return true }))
	p.Scen = "tick"
	if r.p(1, 8) {
		delete(p.Cfg, "rand")
		p.Cfg["tmpl"] = "patchdoc"
		p.Cfg["src"], p.Cfg["tgt"] = pick(r, []string{"n", "v"}), pick(r, []string{"n", "v"})
	}
	per := pick(r, []string{"10s", "30s", "2m", "1h", ""})
	p.Cfg["period"] = per
	d := 5 * time.Minute
	if per != "" {
		d, _ = time.ParseDuration(per)
	}
	p.Cfg["period_ms"] = d.Milliseconds()
	p.Cfg["first"] = r.p(1, 2)
	span := pick(r, []int64{50, 1000, 10000, 3 * d.Milliseconds()})
	gp := p
	if p.cfgS("tmpl") == "patchdoc" {
		q := *p
		q.Cfg = M{"tmpl": "proj"}
		gp = &q
	}
	genSteps(r, gp, 1+r.n(12), span)
	p.Ops = gp.Ops
	if d >= time.Minute && r.p(1, 3) {
		p.Cfg["early"] = true
		span = 0
		for i := range p.Ops {
			span = max(span, p.Ops[i].T)
		}
		p.StartAt = span + 10
		p.EndAt = p.StartAt
		return p
	}
	p.StartAt = pick(r, []int64{0, 0, 5, 1000})
	for i, n := 0, r.n(6); i < n; i++ {
		p.Ops = append(p.Ops, opStep{T: r.i64(span + 1), Who: 8, Do: "tamper", Src: r.n(3), N: r.i64(20), S: pick(r, []string{"del", "change"})})
	}
	p.sortOps()
	p.EndAt = span + 100
	if r.p(1, 4) && strings.Contains(p.cfgS("src")+p.cfgS("tgt"), "n") {
		genFaults(r, p, 1+r.n(3), span+1000)
		for _, f := range p.Faults {
			p.EndAt = max(p.EndAt, f.To)
		}
	}
	return p
}
