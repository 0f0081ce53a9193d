package main

import (
	"context"
	"fmt"
	"strings"
	"time"

	apierrors "k8s.io/apimachinery/pkg/api/errors"
	"sigs.k8s.io/controller-runtime/pkg/client"

	"github.com/l7mp/dcontroller/pkg/cache"
)

// The convergence scenario: one operator over simulated sources, user changes
// and faults, then quiet; the targets must become what the reference says.

const opName = "op"

type conv struct {
	w     *world
	t     *tmpl
	m     modes
	h     *host
	node  uint32
	state []map[string]M // current sources, by index and key
	views client.Client  // view client of the running process
	// bookkeeping of target writes
	tgtWrites int
	reqs      map[string]int
	dels      map[string]int
	extraY    string // more controllers in the operator
	shared    *cache.CompositeCache
	faulty    bool // a fault step was performed
}

func modesOf(p *plan) modes {
	return modes{Src: strings.Split(p.cfgS("src"), ""), Tgt: strings.Split(p.cfgS("tgt"), "")}
}

func newConv(w *world) *conv {
	c := &conv{w: w, t: tmplOf(w.p), m: modesOf(w.p), reqs: map[string]int{}, dels: map[string]int{}}
	for range c.t.Srcs {
		c.state = append(c.state, map[string]M{})
	}
	w.srv.onWrite = func(r *writeRec) {
		w.log("api %s %s %s/%s noop=%v", r.Client, r.Verb, r.Kind, r.Key, r.Noop)
		if strings.HasPrefix(r.Client, "op") {
			c.tgtWrites++
			c.reqs[r.Kind+"|"+r.Key]++
			if r.Verb == "delete" {
				c.dels[r.Kind+"|"+r.Key]++
			}
		}
	}
	return c
}

func (c *conv) start(startAt time.Duration) error {
	c.node++
	o := hostOpts{node: c.node, startAt: startAt, errCap: 64}
	if c.w.p.cfgB("shared") {
		o.shared = newShared()
	}
	if c.w.p.cfgB("noerrread") {
		o.noErrRead, o.errCap = true, 0
	}
	m := modes{Src: append([]string{}, c.m.Src...), Tgt: append([]string{}, c.m.Tgt...)}
	h, err := c.w.newHost(opName, c.t.Ctrls(m)+c.extraY, o)
	if err != nil {
		return err
	}
	c.h = h
	c.views = h.op.GetClient()
	return nil
}

// apply performs one user step on a source.
func (c *conv) apply(o opStep) error {
	kind := c.t.Srcs[o.Src]
	cur := c.state[o.Src][o.Key]
	native := c.m.Src[o.Src] == "n"
	ns, name, _ := strings.Cut(o.Key, "/")
	switch o.Do {
	case "put", "touch", "set":
		n := M{"metadata": M{"name": name, "namespace": ns}}
		switch {
		case o.Do == "set":
			if cur == nil {
				return nil
			}
			n = cp(cur)
			var v any
			if o.Obj != nil {
				v = deepCopy(o.Obj["v"])
			}
			setPath(n, o.S, v)
		case o.Do == "touch":
			if cur == nil {
				return nil
			}
			n = cp(cur)
			a, _ := meta(n)["annotations"].(M)
			if a == nil {
				a = M{}
				meta(n)["annotations"] = a
			}
			a["touched"] = o.S
		default:
			if l, ok := o.Obj["labels"].(M); ok {
				meta(n)["labels"] = deepCopy(l)
			}
			n["spec"] = deepCopy(o.Obj["spec"])
			if cur != nil {
				if a, ok := meta(cur)["annotations"]; ok {
					meta(n)["annotations"] = deepCopy(a)
				}
				if a, ok := getPath(cur, ".metadata.labels.color").(string); ok {
					setPath(n, "metadata.labels.color", a)
				}
				if a, ok := cur["status"]; ok {
					n["status"] = deepCopy(a)
				}
			}
		}
		c.w.log("user %s %s %s", o.Do, kind, o.Key)
		if native {
			ki := kindByName(kind)
			if old, ok := c.w.srv.get(kind, o.Key); ok {
				x := cp(n)
				meta(x)["resourceVersion"] = meta(old)["resourceVersion"]
				sub := ""
				if o.Do == "set" && strings.HasPrefix(o.S, "status") {
					sub = "status"
				}
				if _, e := c.w.srv.update("user", ki, x, sub); e != nil {
					return e
				}
			} else if _, e := c.w.srv.create("user", ki, n); e != nil {
				return e
			}
		} else {
			v := newView(opName, kind, o.Key, n)
			got := newView(opName, kind, o.Key, M{})
			err := c.views.Get(context.Background(), client.ObjectKeyFromObject(v), got)
			switch {
			case apierrors.IsNotFound(err):
				if cur != nil {
					c.w.fail("source-lost", "view %s %s written by the user is not in the store", kind, o.Key)
				}
				err = c.views.Create(context.Background(), v)
			case err == nil:
				err = c.views.Update(context.Background(), v)
			}
			if err != nil {
				return err
			}
		}
		c.state[o.Src][o.Key] = n
	case "del":
		if cur == nil {
			return nil
		}
		c.w.log("user del %s %s", kind, o.Key)
		if native {
			if _, e := c.w.srv.del("user", kindByName(kind), o.Key); e != nil {
				return e
			}
		} else if err := c.views.Delete(context.Background(), newView(opName, kind, o.Key, M{})); err != nil {
			return err
		}
		delete(c.state[o.Src], o.Key)
	}
	return nil
}

func (c *conv) expected() []map[string]M {
	var prev []map[string]M
	for _, t := range c.t.Tgts {
		prev = append(prev, t.Ref(c.state, prev))
	}
	return prev
}

func (c *conv) actual(i int) (map[string]M, error) {
	t := c.t.Tgts[i]
	if c.m.Tgt[i] == "n" && !t.Mid {
		return c.w.srv.objs[t.Kind], nil
	}
	return listViews(c.views, opName, t.Kind)
}

// diff compares every target with the reference.
func (c *conv) diff() string {
	exp := c.expected()
	for i, t := range c.t.Tgts {
		got, err := c.actual(i)
		if err != nil {
			return "list " + t.Kind + ": " + err.Error()
		}
		got = fixRep(exp[i], got)
		want := contents(exp[i], c.t.Multi)
		if c.m.Tgt[i] == "n" && !t.Mid {
			if ki := kindByName(t.Kind); !ki.Status {
				for k, o := range exp[i] {
					o = cp(o)
					want[k] = content(o, c.t.Multi)
				}
			}
		}
		if d := diffMaps(want, contents(got, c.t.Multi)); d != "" {
			return t.Kind + ": " + d
		}
	}
	// the sources in the view store must be what the user wrote
	for i, k := range c.t.Srcs {
		if c.m.Src[i] == "v" {
			got, err := listViews(c.views, opName, k)
			if err != nil {
				return err.Error()
			}
			if d := diffMaps(contents(c.state[i], nil), contents(got, nil)); d != "" {
				return "source " + k + ": " + d
			}
		}
	}
	return ""
}

// settle waits until the targets match the reference and stay so.
func (c *conv) settle(bound, stay time.Duration) (string, time.Duration) {
	start := now()
	okSince := time.Duration(-1)
	last := ""
	for {
		d := c.diff()
		t := now()
		if d == "" {
			if okSince < 0 {
				okSince = t
			}
			if t-okSince >= stay {
				return "", okSince - start
			}
		} else {
			if okSince >= 0 {
				c.w.log("diverged again: %s", d)
			}
			okSince = -1
			last = d
			if t-start > bound {
				return last, t - start
			}
		}
		if t-start < 30*time.Second {
			time.Sleep(500 * time.Millisecond)
		} else {
			time.Sleep(2 * time.Second)
		}
	}
}

// users runs the plan's steps: one goroutine per "who".
func (c *conv) users(apply func(o opStep) error) chan struct{} {
	by := map[int][]opStep{}
	maxWho := 0
	for _, o := range c.w.p.Ops {
		by[o.Who] = append(by[o.Who], o)
		if o.Who > maxWho {
			maxWho = o.Who
		}
	}
	done := make(chan struct{}, maxWho+1)
	all := make(chan struct{})
	for i := 0; i <= maxWho; i++ {
		go func() {
			for _, o := range by[i] {
				if d := time.Duration(o.T)*time.Millisecond - now(); d > 0 {
					time.Sleep(d)
				}
				if err := apply(o); err != nil {
					c.w.fail("user-op", "%s: %v", o, err)
				}
				c.w.counts["op_"+o.Do]++
			}
			done <- struct{}{}
		}()
	}
	go func() {
		for i := 0; i <= maxWho; i++ {
			<-done
		}
		close(all)
	}()
	return all
}

// await waits for the users' steps; it tells whether they ended. Stalls can
// add up, so what counts is what happens once they are over.
func (c *conv) await(all chan struct{}) bool {
	var end time.Duration
	for _, o := range c.w.p.Ops {
		if d := time.Duration(o.T) * time.Millisecond; d > end {
			end = d
		}
	}
	select {
	case <-all:
		return true
	case <-time.After(end + 600*time.Second):
	}
	c.quiet()
	select {
	case <-all:
		return true
	case <-time.After(600 * time.Second):
	}
	return false
}

func (c *conv) quiet() {
	c.w.srv.quiet = true
	c.w.srv.latMax = 2 * time.Millisecond
	c.w.srv.watchLat = 2 * time.Millisecond
	dsimQuiet()
	c.w.log("quiet")
}

func (c *conv) serverStep(o opStep) bool {
	switch o.Do {
	case "drop":
		c.w.srv.dropWatches(o.S, pick(c.w.r, []error{nil, errReset}))
	case "compact":
		c.w.srv.compact()
		c.w.srv.dropWatches(o.S, errReset)
	default:
		return false
	}
	c.faulty = true
	c.w.log("fault %s %s", o.Do, o.S)
	return true
}

// runConv is the scenario of C01, C02 and C04.
func runConv(w *world) error {
	c := newConv(w)
	if err := c.start(time.Duration(w.p.StartAt) * time.Millisecond); err != nil {
		w.fail("no-start", "operator cannot be created: %v", err)
		return nil
	}
	all := c.users(func(o opStep) error {
		if c.serverStep(o) {
			return nil
		}
		return c.apply(o)
	})
	<-all
	if d := time.Duration(w.p.EndAt)*time.Millisecond - now(); d > 0 {
		time.Sleep(d)
	}
	c.quiet()
	// after faults the informers may be backing off for up to a minute, with
	// the target right by accident in the meantime
	stay := 25 * time.Second
	if len(w.p.Faults) > 0 || c.faulty {
		stay = 110 * time.Second
	}
	d, took := c.settle(3000*time.Second, stay)
	if d != "" {
		w.fail("diverged", "targets differ from the reference %.0fs after the last change and fault: %s errors: %v", took.Seconds(), d, tailErrs(c.h.errs))
	}
	w.counts["targets"] += c.countTargets()
	n := c.tgtWrites
	time.Sleep(30 * time.Second)
	if c.tgtWrites != n && d == "" {
		w.fail("busy", "%d API writes of the operator after everything had settled", c.tgtWrites-n)
	}
	return nil
}

func (c *conv) countTargets() int {
	n := 0
	for _, m := range c.expected() {
		n += len(m)
	}
	return n
}

func tailErrs(es []error) []string {
	var r []string
	for i := max(0, len(es)-2); i < len(es); i++ {
		r = append(r, fmt.Sprint(es[i]))
	}
	return r
}

// ---- plan generation ----

func genSpec(r *rng) M {
	l := []any{}
	for i, n := 0, r.n(4); i < n; i++ {
		l = append(l, fmt.Sprintf("e%d", r.n(3)))
	}
	nums := []any{}
	for i, n := 0, r.n(4); i < n; i++ {
		nums = append(nums, int64(r.n(4)))
	}
	s := M{"val": int64(r.n(4)), "key": fmt.Sprintf("k%d", r.n(3)), "grp": fmt.Sprintf("g%d", r.n(2)), "on": r.p(3, 4), "list": l,
		"nums": nums, "f": float64(r.n(3)) + 0.5, "m": M{"x": int64(r.n(3)), "y": fmt.Sprintf("y%d", r.n(2)), "z": M{"b": r.p(1, 2)}}}
	if r.p(1, 2) {
		s["opt"] = int64(r.n(3))
	}
	return s
}

// genSet changes one field of a source.
func genSet(r *rng, t *tmpl, o *opStep) {
	o.Do = "set"
	fs := []string{"spec.opt", "spec.f", "spec.m.x", "spec.m.z.b", "spec.nums", "spec.val", "spec.on", "spec.list"}
	if !t.FixedMeta {
		fs = append(fs, "metadata.labels.color", "metadata.annotations.memo", "metadata.labels.color", "status.s")
	}
	o.S = pick(r, fs)
	s := genSpec(r)
	switch o.S {
	case "metadata.labels.color":
		o.Obj = M{"v": pick(r, []any{"red", "blue"})}
	case "metadata.annotations.memo":
		o.Obj = M{"v": pick(r, []any{"m1", "m2"})}
	case "status.s":
		o.Obj = M{"v": r.i64(3)}
	case "spec.opt":
		o.Obj = M{"v": r.i64(3)}
	default:
		o.Obj = M{"v": getPath(s, strings.TrimPrefix(o.S, "spec"))}
		return
	}
	if r.p(1, 4) {
		o.Obj = nil
	}
}

// tier labels are a fixed function of the object name: see DESIGN.md (objects
// that leave a label selector).
func tierOf(key string) string {
	if strings.HasSuffix(key, "b") {
		return "t1"
	}
	return "t0"
}

func genConvBase(r *rng, prop string, names []string) *plan {
	p := &plan{Prop: prop, Seed: r.next(), Sched: genSched(r), Cfg: M{}}
	var t *tmpl
	if r.p(1, 2) {
		p.Cfg["rand"] = fixNum(genRand(r, prop))
		t = tmplOf(p)
	} else {
		t = tmplBy(pick(r, names))
	}
	p.Cfg["tmpl"] = t.Name
	src, tg := "", ""
	for range t.Srcs {
		if t.Native || r.p(1, 2) {
			src += "n"
		} else {
			src += "v"
		}
	}
	for range t.Tgts {
		if r.p(1, 2) || t.Name == "nchain" {
			tg += "n"
		} else {
			tg += "v"
		}
	}
	if t.Name == "configmap" {
		tg = "n"
	}
	p.Cfg["src"], p.Cfg["tgt"] = src, tg
	p.Cfg["shared"] = r.p(1, 2)
	p.Cfg["lat_us"] = pick(r, []int64{1, 1000, 5000, 50000})
	p.Cfg["wlat_us"] = pick(r, []int64{1, 1000, 20000, 300000})
	return p
}

// genSteps draws a history of source changes.
func genSteps(r *rng, p *plan, n int, span int64) {
	t := tmplOf(p)
	keys := []string{"ns1/a", "ns1/b", "ns2/a"}
	whos := 1 + r.n(3)
	burst := r.p(1, 3)
	var tcur int64
	for i := 0; i < n; i++ {
		switch {
		case burst && r.p(4, 5): // same instant
		default:
			tcur += r.i64(2*span/int64(n) + 1)
		}
		s := r.n(len(t.Srcs))
		k := r.n(len(keys))
		o := opStep{T: tcur, Who: (s*len(keys) + k) % whos, Src: s, Key: keys[k]}
		switch x := r.n(16); {
		case x >= 12:
			genSet(r, t, &o)
		case x < 8:
			o.Do = "put"
			o.Obj = M{"spec": genSpec(r), "labels": M{"tier": tierOf(o.Key)}}
		case x < 11:
			o.Do = "del"
		default:
			if t.FixedMeta {
				o.Do = "del"
			} else {
				o.Do = "touch"
				o.S = fmt.Sprintf("x%d", i)
			}
		}
		p.Ops = append(p.Ops, o)
	}
	p.sortOps()
}

func genC01(r *rng, names []string, prop string) *plan {
	p := genConvBase(r, prop, names)
	p.Scen = "conv"
	span := pick(r, []int64{0, 50, 1000, 10000})
	p.StartAt = pick(r, []int64{0, 0, 5, span / 2, span})
	genSteps(r, p, 1+r.n(14), span)
	p.EndAt = span + 100 + r.i64(2000)
	return p
}

func genFaults(r *rng, p *plan, n int, end int64) {
	for i := 0; i < n; i++ {
		from := r.i64(end)
		f := apiFault{From: from, To: from + 1 + r.i64(pick(r, []int64{10, 500, 5000, 40000}))}
		f.Kind = pick(r, []string{"e500", "e503", "e429", "reset", "lost", "lost", "slow", "partition", "stallwatch"})
		f.Per = pick(r, []int{1, 1, 2, 3, 10})
		f.Verbs = pick(r, []string{"", "w", "w", "r"})
		if f.Kind == "lost" {
			f.Verbs = "w"
		}
		if f.Kind == "partition" || f.Kind == "stallwatch" {
			f.Per = 1
		}
		p.Faults = append(p.Faults, f)
	}
	for i, k := 0, r.n(3); i < k; i++ {
		p.Ops = append(p.Ops, opStep{T: r.i64(end), Who: 9, Do: pick(r, []string{"drop", "drop", "compact"})})
	}
	p.sortOps()
}

func genC02(r *rng) *plan {
	p := genConvBase(r, "C02", tmplNames(func(t *tmpl) bool { return true }))
	p.Scen = "conv"
	if !strings.Contains(p.cfgS("src")+p.cfgS("tgt"), "n") {
		b := []byte(p.cfgS("tgt"))
		b[len(b)-1] = 'n'
		p.Cfg["tgt"] = string(b)
	}
	span := pick(r, []int64{50, 1000, 10000, 60000})
	p.StartAt = pick(r, []int64{0, 0, 5, span / 2})
	genSteps(r, p, 1+r.n(14), span)
	genFaults(r, p, 1+r.n(4), span+1000)
	p.EndAt = span + 1000
	for _, f := range p.Faults {
		if f.To > p.EndAt {
			p.EndAt = f.To
		}
	}
	return p
}
