package main

import (
	"context"
	"fmt"
	"strings"
	"time"

	apierrors "k8s.io/apimachinery/pkg/api/errors"
	toolscache "k8s.io/client-go/tools/cache"
	"sigs.k8s.io/controller-runtime/pkg/client"

	"github.com/go-logr/logr"

	"github.com/l7mp/dcontroller/pkg/cache"
	"github.com/l7mp/dcontroller/pkg/object"
)

// The multi scenario (C10): operators o0..o2 on one shared view store are
// started, stopped and replaced while users change base views. Operator i
// reads base views and the views of operators before it. Every incarnation of
// an operator marks what it writes with its own number.

type minput struct{ op, kind string }

type mspec struct {
	kind string   // copy, sel, join, gather, chain
	in   []minput // one or two
	d    int64
}

type minc struct {
	id      string
	spec    mspec
	h       *host
	stopReq bool
}

type mrec struct {
	name   string
	inc    *minc
	gvop   string
	kind   string
	state  map[string]string
	opened bool
	bad    string
}

type multi struct {
	w      *world
	shared cache.Cache
	views  client.Client
	ops    []*mop
	recs   []*mrec
	ticks  int
}

type mop struct {
	name string
	x    string // kind of its target
	incs []*minc
}

func (o *mop) live() *minc {
	if n := len(o.incs); n > 0 && !o.incs[n-1].stopReq {
		return o.incs[n-1]
	}
	return nil
}

func (in minput) yaml() string {
	return fmt.Sprintf("{apiGroup: %s.view.dcontroller.io, kind: %s}", in.op, in.kind)
}

func (s mspec) ctrls(x, inc string) string {
	proj := func(pre string, val string) string {
		return fmt.Sprintf("- '@project':\n    metadata: {name: $%s.metadata.name, namespace: $%s.metadata.namespace}\n    spec: {val: %s, grp: $%s.spec.grp, inc: %q}", pre, pre, val, pre, inc)
	}
	tg := fmt.Sprintf("{kind: %s, type: Updater}", x)
	one := []string{s.in[0].yaml()}
	switch s.kind {
	case "copy":
		return ctrlYAML("c", one, proj("", fmt.Sprintf("{'@add': [$.spec.val, %d]}", s.d)), tg)
	case "sel":
		return ctrlYAML("c", one, fmt.Sprintf("- '@select': {'@lt': [$.spec.val, %d]}\n", s.d+2)+proj("", "$.spec.val"), tg)
	case "join":
		a, b := s.in[0].kind, s.in[1].kind
		return ctrlYAML("c", []string{s.in[0].yaml(), s.in[1].yaml()}, fmt.Sprintf("- '@join': {'@and': [{'@eq': [$.%s.metadata.name, $.%s.metadata.name]}, {'@eq': [$.%s.metadata.namespace, $.%s.metadata.namespace]}]}\n", a, b, a, b)+
			proj("."+a, fmt.Sprintf("{'@add': [$.%s.spec.val, $.%s.spec.val]}", a, b)), tg)
	case "gather":
		return ctrlYAML("c", one, "- '@gather': [$.spec.grp, $.spec.val]\n"+
			fmt.Sprintf("- '@project':\n    metadata: {name: {'@concat': [g-, $.spec.grp]}, namespace: all}\n    spec: {val: {'@sum': $.spec.val}, vals: $.spec.val, grp: $.spec.grp, inc: %q}", inc), tg)
	case "chain":
		return ctrlYAML("c1", one, proj("", fmt.Sprintf("{'@add': [$.spec.val, %d]}", s.d)), fmt.Sprintf("{kind: M%s, type: Updater}", x)) +
			ctrlYAML("c2", []string{fmt.Sprintf("{kind: M%s}", x)}, fmt.Sprintf("- '@select': {'@lt': [$.spec.val, %d]}\n", 2*s.d+3)+proj("", "$.spec.val"), tg)
	}
	panic("multi: " + s.kind)
}

// ref evaluates the last controller (or the first, for the chain's middle kind).
func (s mspec) ref(x, inc string, get func(op, kind string) map[string]M, op string) map[string]map[string]M {
	res := map[string]map[string]M{x: {}}
	out := func(kind string, o M, val int64) {
		k, n := mk(onsp(o), oname(o), nil, M{"spec": M{"val": val, "grp": sp(o)["grp"], "inc": inc}})
		res[kind][k] = n
	}
	in := get(s.in[0].op, s.in[0].kind)
	switch s.kind {
	case "copy":
		for _, o := range in {
			out(x, o, num(sp(o)["val"])+s.d)
		}
	case "sel":
		for _, o := range in {
			if v := num(sp(o)["val"]); v < s.d+2 {
				out(x, o, v)
			}
		}
	case "join":
		b := get(s.in[1].op, s.in[1].kind)
		for k, o := range in {
			if p := b[k]; p != nil {
				out(x, o, num(sp(o)["val"])+num(sp(p)["val"]))
			}
		}
	case "gather":
		groups := map[string][]any{}
		for _, o := range in {
			groups[str(sp(o)["grp"])] = append(groups[str(sp(o)["grp"])], sp(o)["val"])
		}
		for g, vs := range groups {
			var sum int64
			for _, v := range vs {
				sum += num(v)
			}
			k, n := mk("all", "g-"+g, nil, M{"spec": M{"val": sum, "vals": vs, "grp": g, "inc": inc}})
			res[x][k] = n
		}
	case "chain":
		res["M"+x] = map[string]M{}
		for _, o := range in {
			out("M"+x, o, num(sp(o)["val"])+s.d)
		}
		for _, o := range get(op, "M"+x) {
			if v := num(sp(o)["val"]); v < 2*s.d+3 {
				out(x, o, v)
			}
		}
	}
	return res
}

func (m *multi) start(o opStep) {
	mo := m.ops[o.Src]
	if mo.live() != nil {
		return
	}
	var sp mspec
	sp.kind = o.S
	sp.d = o.N
	for _, e := range o.Obj["in"].([]any) {
		op, kind, _ := strings.Cut(str(e), "/")
		sp.in = append(sp.in, minput{op, kind})
	}
	inc := &minc{id: fmt.Sprintf("%s#%d", mo.name, len(mo.incs)), spec: sp}
	opt := hostOpts{node: 1, sharedAny: m.shared, errCap: 64, async: true, headless: m.w.p.cfgB("headless"), client: "op"}
	h, err := m.w.newHost(mo.name, sp.ctrls(mo.x, inc.id), opt)
	if err != nil {
		m.w.fail("no-start", "operator %s cannot be created: %v", inc.id, err)
		return
	}
	m.w.log("start %s %s %v", inc.id, sp.kind, sp.in)
	m.w.counts["operator_starts"]++
	inc.h = h
	mo.incs = append(mo.incs, inc)
}

func (m *multi) stop(i int, wait bool) {
	inc := m.ops[i].live()
	if inc == nil {
		return
	}
	m.w.log("stop %s", inc.id)
	m.w.counts["operator_stops"]++
	inc.stopReq = true
	inc.h.cancel()
	<-inc.h.done
	inc.h.stoppedAt = now()
}

// handler adds an event handler through the cache of a running operator.
func (m *multi) handler(o opStep) {
	inc := m.ops[o.Src].live()
	if inc == nil || inc.h.op == nil {
		return
	}
	op, kind, _ := strings.Cut(o.S, "/")
	r := &mrec{name: fmt.Sprintf("handler#%d of %s on %s", o.N, inc.id, o.S), inc: inc, gvop: op, kind: kind, state: map[string]string{}}
	inf, err := inc.h.op.GetManager().GetCache().GetInformer(context.Background(), newView(op, kind, "/", M{}))
	if err != nil {
		if !inc.stopReq {
			m.w.fail("no-informer", "%s: %v", r.name, err)
		}
		return
	}
	see := func(typ string, obj any, old any) {
		x := obj.(object.Object).UnstructuredContent()
		k, c := objKey(x), canon(x["spec"])
		if inc.h.stoppedAt > 0 && now() > inc.h.stoppedAt+5*time.Second {
			m.w.fail("event-after-stop", "%s saw %s %s %.0fs after the operator had stopped", r.name, typ, k, (now() - inc.h.stoppedAt).Seconds())
		}
		m.w.log("%s: %s %s %s", r.name, typ, k, c)
		cur, ok := r.state[k]
		switch {
		case typ == "add" && ok:
			m.w.fail("event-twice", "%s saw %s added that it had been told of already", r.name, k)
		case typ != "add" && !ok:
			m.w.fail("event-lost", "%s saw %s %s that it had not been told of", r.name, k, typ)
		case typ == "mod":
			oo, _ := old.(object.Object)
			if oo != nil && canon(oo.UnstructuredContent()["spec"]) != cur {
				m.w.fail("event-lost", "%s saw %s change from %s, last told was %s", r.name, k, canon(oo.UnstructuredContent()["spec"]), cur)
			} else if c == cur {
				m.w.fail("event-twice", "%s saw %s change to what it was: %s", r.name, k, c)
			}
		}
		if typ == "del" {
			delete(r.state, k)
		} else {
			r.state[k] = c
		}
		m.w.counts["handler_events"]++
	}
	m.w.log("%s opens", r.name)
	if _, err := inf.AddEventHandler(toolscache.ResourceEventHandlerFuncs{
		AddFunc:    func(o any) { see("add", o, nil) },
		UpdateFunc: func(a, b any) { see("mod", b, a) },
		DeleteFunc: func(o any) { see("del", o, nil) },
	}); err != nil {
		m.w.fail("no-informer", "%s: %v", r.name, err)
		return
	}
	r.opened = true
	m.recs = append(m.recs, r)
}

func (m *multi) apply(o opStep) error {
	ctx := context.Background()
	switch o.Do {
	case "start":
		m.start(o)
	case "stop":
		m.stop(o.Src, true)
	case "restart":
		m.stop(o.Src, true)
		m.start(o)
	case "handler":
		m.handler(o)
	case "put":
		v := newView("src", o.S, o.Key, M{"metadata": M{}, "spec": deepCopy(o.Obj["spec"])})
		got := newView("src", o.S, o.Key, M{})
		err := m.views.Get(ctx, client.ObjectKeyFromObject(v), got)
		switch {
		case apierrors.IsNotFound(err):
			err = m.views.Create(ctx, v)
		case err == nil:
			err = m.views.Update(ctx, v)
		}
		return err
	case "del":
		if err := m.views.Delete(ctx, newView("src", o.S, o.Key, M{})); err != nil && !apierrors.IsNotFound(err) {
			return err
		}
	}
	return nil
}

func (m *multi) diff() string {
	var lerr error
	get := func(op, kind string) map[string]M {
		l, err := listViews(m.views, op, kind)
		if err != nil {
			lerr = err
		}
		return l
	}
	for _, mo := range m.ops {
		inc := mo.live()
		if inc == nil {
			continue
		}
		if inc.h.op == nil {
			return inc.id + " is not running"
		}
		for kind, want := range inc.spec.ref(mo.x, inc.id, get, mo.name) {
			got := get(mo.name, kind)
			for k, o := range got {
				if want[k] == nil && str(sp(o)["inc"]) != inc.id {
					// left by an earlier incarnation, its inputs were gone
					// before this one could see them
					delete(got, k)
				}
			}
			if d := diffMaps(contents(want, []string{"vals"}), contents(got, []string{"vals"})); d != "" {
				return fmt.Sprintf("%s (%s of %v) %s/%s: %s errors: %v", inc.id, inc.spec.kind, inc.spec.in, mo.name, kind, d, tailErrs(inc.h.errs))
			}
		}
	}
	for _, r := range m.recs {
		if r.inc.stopReq {
			continue
		}
		want, got := map[string]string{}, map[string]string{}
		for k, o := range get(r.gvop, r.kind) {
			want[k] = canon(o["spec"])
		}
		for k, s := range r.state {
			got[k] = s
		}
		if d := diffMaps(want, got); d != "" {
			return fmt.Sprintf("%s: %s", r.name, d)
		}
	}
	if lerr != nil {
		return lerr.Error()
	}
	return ""
}

func runMulti(w *world) error {
	m := &multi{w: w}
	var vc *cache.ViewCache
	if w.p.cfgB("headless") {
		vc = cache.NewViewCache(cache.CacheOptions{Logger: logr.Discard()})
		m.shared = vc
	} else {
		c := newShared()
		vc = c.GetViewCache().(*cache.ViewCache)
		m.shared = c
	}
	if w.p.cfgB("startshared") {
		go vc.Start(context.Background())
	}
	m.views = vc.GetClient()
	for i := 0; i < 3; i++ {
		m.ops = append(m.ops, &mop{name: fmt.Sprintf("o%d", i), x: fmt.Sprintf("X%d", i)})
	}
	// who writes target views, and when
	for _, mo := range m.ops {
		for _, kind := range []string{mo.x, "M" + mo.x} {
			wi, err := vc.Watch(context.Background(), cache.NewViewObjectList(mo.name, kind))
			if err != nil {
				return err
			}
			go func() {
				for e := range wi.ResultChan() {
					o := e.Object.(object.Object).UnstructuredContent()
					w.log("store %s %s/%s %s %s", e.Type, mo.name, kind, objKey(o), canon(sp(o)))
					if e.Type == "DELETED" {
						continue
					}
					for _, inc := range mo.incs {
						if inc.id == str(sp(o)["inc"]) && inc.h.stoppedAt > 0 && now() > inc.h.stoppedAt+10*time.Second {
							w.fail("write-after-stop", "%s wrote %s %s %.0fs after it had stopped", inc.id, kind, objKey(o), (now() - inc.h.stoppedAt).Seconds())
						}
					}
				}
			}()
		}
	}
	c := &conv{w: w}
	all := c.users(m.apply)
	if !c.await(all) {
		var l []string
		for _, mo := range m.ops {
			for _, inc := range mo.incs {
				if inc.stopReq && !inc.h.stopped {
					l = append(l, inc.id)
				}
			}
		}
		w.fail("stop-stuck", "steps did not end; still stopping: %v", l)
		return nil
	}
	if d := time.Duration(w.p.EndAt)*time.Millisecond - now(); d > 0 {
		time.Sleep(d)
	}
	c.quiet()
	start := now()
	okSince := time.Duration(-1)
	for {
		d := m.diff()
		if d == "" {
			if okSince < 0 {
				okSince = now()
			}
			if now()-okSince > 15*time.Second {
				break
			}
		} else {
			okSince = -1
			if now()-start > 600*time.Second {
				w.fail("diverged", "%.0fs after the last change: %s", (now() - start).Seconds(), d)
				return nil
			}
		}
		time.Sleep(500 * time.Millisecond)
	}
	for _, mo := range m.ops {
		if inc := mo.live(); inc != nil {
			if inc.h.stopped {
				w.fail("stopped-alone", "%s stopped although nobody stopped it: %v", inc.id, inc.h.stopErr)
			}
			l, _ := listViews(m.views, mo.name, mo.x)
			w.counts["targets"] += len(l)
			w.counts["live_operators"]++
		}
	}
	return nil
}

func genC10(r *rng) *plan {
	p := &plan{Prop: "C10", Scen: "multi", Seed: r.next(), Sched: genSched(r), Cfg: M{}}
	p.Cfg["headless"] = r.p(1, 3)
	p.Cfg["startshared"] = r.p(1, 2)
	p.Cfg["lat_us"] = pick(r, []int64{1, 1000, 5000})
	span := pick(r, []int64{5, 50, 1000, 10000})
	inputs := func(i int) []any {
		all := []string{"src/A", "src/B"}
		for j := 0; j < i; j++ {
			all = append(all, fmt.Sprintf("o%d/X%d", j, j), fmt.Sprintf("o%d/X%d", j, j))
		}
		a := pick(r, all)
		b := a
		for b == a {
			b = pick(r, all)
		}
		return []any{a, b}
	}
	startStep := func(i int, t int64, do string) opStep {
		return opStep{T: t, Who: 10 + i, Do: do, Src: i, S: pick(r, []string{"copy", "sel", "join", "gather", "chain"}), N: r.i64(3), Obj: M{"in": inputs(i)}}
	}
	hid := int64(0)
	for i := 0; i < 3; i++ {
		t := r.i64(pick(r, []int64{1, span, span}) + 1)
		n := 1 + r.n(5)
		for k := 0; k < n; k++ {
			do := "start"
			if k > 0 {
				do = pick(r, []string{"stop", "start", "restart", "restart"})
			}
			p.Ops = append(p.Ops, startStep(i, t, do))
			t += r.i64(2*span/int64(n) + 1)
		}
		if r.p(4, 5) { // run at the end
			p.Ops = append(p.Ops, startStep(i, t, "start"))
		}
		for k, nh := 0, r.n(4); k < nh; k++ {
			hid++
			p.Ops = append(p.Ops, opStep{T: r.i64(2*span + 100), Who: 20 + i, Do: "handler", Src: i, N: hid,
				S: pick(r, []string{"src/A", "src/B", "o0/X0", "o1/X1", "o2/X2"})})
		}
	}
	keys := []string{"ns1/a", "ns1/b", "ns2/a"}
	n := 2 + r.n(16)
	for i := 0; i < n; i++ {
		k := r.n(len(keys))
		src := r.n(2)
		o := opStep{T: r.i64(2*span + 1), Who: (k + src) % 3, S: []string{"A", "B"}[src], Key: keys[k], Do: "put"}
		if r.p(1, 4) {
			o.Do = "del"
		} else {
			o.Obj = M{"spec": M{"val": r.i64(4), "grp": fmt.Sprintf("g%d", r.n(2)), "n": int64(i)}}
		}
		p.Ops = append(p.Ops, o)
	}
	p.EndAt = 2*span + 200
	p.sortOps()
	return p
}
