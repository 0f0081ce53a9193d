package main

import (
	"context"
	"fmt"
	"sort"
	"strings"
	"time"

	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
	"k8s.io/apimachinery/pkg/fields"
	"k8s.io/apimachinery/pkg/labels"
	"k8s.io/apimachinery/pkg/types"
	"k8s.io/apimachinery/pkg/watch"
	toolscache "k8s.io/client-go/tools/cache"
	"k8s.io/client-go/util/workqueue"
	"sigs.k8s.io/controller-runtime/pkg/client"

	opv1a1 "github.com/l7mp/dcontroller/pkg/api/operator/v1alpha1"
	"github.com/l7mp/dcontroller/pkg/cache"
	"github.com/l7mp/dcontroller/pkg/manager"
	"github.com/l7mp/dcontroller/pkg/object"
	"github.com/l7mp/dcontroller/pkg/reconciler"
)

// The watch scenario (C09): watches, informer handlers and controller sources
// with every kind of selector are opened, read and stopped while views
// change. Each must have seen exactly the transitions of the objects matching
// its selector, in order, from the moment it was opened.

// wver is one version of a view; del means absent.
type wver struct {
	id       string
	labels   M
	phase    string
	ready    bool
	del      bool
	inv, ret int // of the call that stored it
	failed   bool
}

type wkey struct {
	vers []*wver // in the order of the calls (single writer) or of their invocation
	cur  *wver   // what the single writer stored last
}

type wevent struct {
	typ  string // add, mod, del
	key  string
	id   string
	old  string // id of the old version, for informer handlers
	tick int
}

type watcher struct {
	name     string
	sel      string
	kind     int
	lo, hi   int // ticks around opening
	stopTick int // tick at which stopping had returned, 0 if never
	stopping int // tick at which stopping began
	events   []wevent
	closed   bool
	stop     func()
	api      bool // through the extension API server
	strictOp bool // informer handlers and sources: exact event types
}

func (w *watcher) match(key string, v *wver) bool {
	if v == nil || v.del {
		return false
	}
	ns, name, _ := strings.Cut(key, "/")
	for _, s := range strings.Split(w.sel, "+") {
		k, x, _ := strings.Cut(s, ":")
		switch k {
		case "label":
			if v.labels["tier"] != x {
				return false
			}
		case "phase":
			if v.phase != x {
				return false
			}
		case "ready":
			if fmt.Sprint(v.ready) != x {
				return false
			}
		case "name":
			if name != x {
				return false
			}
		case "fns", "ns":
			if ns != x {
				return false
			}
		}
	}
	return true
}

func selOpts(r *rng, sel string) []client.ListOption {
	var opts []client.ListOption
	fs := fields.Set{}
	for _, s := range strings.Split(sel, "+") {
		k, x, _ := strings.Cut(s, ":")
		switch k {
		case "label":
			if r.p(1, 2) {
				opts = append(opts, client.MatchingLabels{"tier": x})
			} else {
				opts = append(opts, client.MatchingLabelsSelector{Selector: labels.SelectorFromSet(labels.Set{"tier": x})})
			}
		case "ns":
			opts = append(opts, client.InNamespace(x))
		case "phase":
			fs["status.phase"] = x
		case "ready":
			fs["status.ready"] = x
		case "name":
			fs["metadata.name"] = x
		case "fns":
			fs["metadata.namespace"] = x
		}
	}
	if len(fs) > 0 {
		if r.p(1, 2) {
			opts = append(opts, client.MatchingFields(fs))
		} else {
			opts = append(opts, client.MatchingFieldsSelector{Selector: fields.SelectorFromSet(fs)})
		}
	}
	return opts
}

type watchRun struct {
	w        *world
	api      *extAPI
	hs       []storeClient
	vc       *cache.ViewCache
	del      *cache.DelegatingViewCache
	mgr      manager.Manager
	tick     int
	keys     []map[string]*wkey // by kind
	watchers []*watcher
	shared   bool
}

func (s *watchRun) now() int { s.tick++; return s.tick }

func (v *wver) obj(op, kind, key string) object.Object {
	return newView(op, kind, key, M{"spec": M{"id": v.id}, "status": M{"phase": v.phase, "ready": v.ready}, "metadata": M{"labels": deepCopy(v.labels)}})
}

// write performs one change of a view.
func (s *watchRun) write(o opStep) error {
	k := storeKinds[o.Src]
	wk := s.keys[o.Src][o.Key]
	if wk == nil {
		wk = &wkey{}
		s.keys[o.Src][o.Key] = wk
	}
	hd := s.hs[int(o.N)%len(s.hs)]
	if hd.api && (strings.HasPrefix(o.Key, "/") || s.shared) {
		hd = s.hs[0]
	}
	c := hd.c
	ctx := context.Background()
	v := &wver{id: fmt.Sprintf("v%d", o.N), inv: s.now()}
	if l, ok := o.Obj["labels"].(M); ok {
		v.labels = l
	}
	v.phase, _ = o.Obj["phase"].(string)
	v.ready, _ = o.Obj["ready"].(bool)
	var err error
	do := o.Do
	if do == "put" {
		do = "create"
		if wk.cur != nil && !wk.cur.del {
			do = "update"
		}
	}
	if s.shared && o.Who != 0 && do == "create" {
		do = "update"
	}
	switch do {
	case "create":
		err = c.Create(ctx, v.obj(k.op, k.kind, o.Key))
	case "update":
		err = c.Update(ctx, v.obj(k.op, k.kind, o.Key))
	case "patch":
		if wk.cur != nil && !wk.cur.del {
			v.labels = wk.cur.labels
			v.ready = wk.cur.ready
		}
		err = c.Patch(ctx, newView(k.op, k.kind, o.Key, M{}), client.RawPatch(types.MergePatchType, []byte(fmt.Sprintf(`{"spec":{"id":%q},"status":{"phase":%q}}`, v.id, v.phase))))
	case "del":
		v.del = true
		err = c.Delete(ctx, newView(k.op, k.kind, o.Key, M{}))
	case "over": // creation of a view that exists already: replaces it
		err = c.Create(ctx, v.obj(k.op, k.kind, o.Key))
	case "again": // the same once more: no change
		if wk.cur == nil || wk.cur.del || s.shared {
			return nil
		}
		x := *wk.cur
		return c.Update(ctx, x.obj(k.op, k.kind, o.Key))
	}
	v.ret = s.now()
	switch out := outcome(err); out {
	case "":
		if !s.shared && (wk.cur == nil || wk.cur.del) && do != "create" && do != "over" {
			s.w.fail("bad-result", "%s of the absent view %s succeeds", do, o.Key)
		}
	case "notfound":
		if !s.shared && wk.cur != nil && !wk.cur.del {
			s.w.fail("bad-result", "%s of the existing view %s: not found", do, o.Key)
		}
		v.failed = true
	default:
		return err
	}
	s.w.log("write %s %s/%s %s id=%s %v phase=%s ready=%v failed=%v", do, k.op, k.kind, o.Key, v.id, v.labels, v.phase, v.ready, v.failed)
	if v.failed {
		return nil
	}
	wk.vers = append(wk.vers, v)
	if o.Who == 0 || !s.shared {
		wk.cur = v
	}
	s.w.counts["changes"]++
	return nil
}

func eventID(o object.Object) string {
	if o == nil {
		return ""
	}
	id, _, _ := unstructured.NestedString(o.UnstructuredContent(), "spec", "id")
	return id
}

// open starts a watcher as the step says.
func (s *watchRun) open(o opStep) error {
	k := storeKinds[o.Src]
	wt := &watcher{name: fmt.Sprintf("%s#%d[%s]", o.Do, o.N, o.S), sel: o.S, kind: o.Src}
	r := newRng(s.w.p.Seed, fmt.Sprintf("watch%d", o.N))
	delay := time.Duration(o.Obj["delay_ms"].(int64)) * time.Millisecond
	first := time.Duration(o.Obj["first_ms"].(int64)) * time.Millisecond
	stopAt := time.Duration(o.Obj["stop_ms"].(int64)) * time.Millisecond
	ctx, cancel := context.WithCancel(context.Background())
	record := func(typ string, obj, old object.Object) {
		wt.events = append(wt.events, wevent{typ, objKey(obj.UnstructuredContent()), eventID(obj), eventID(old), s.now()})
		s.w.log("%s saw %s %s %s (old %s)", wt.name, typ, objKey(obj.UnstructuredContent()), eventID(obj), eventID(old))
		s.w.counts["events"]++
	}
	wt.lo = s.now()
	switch o.Do {
	case "watch":
		var wi watch.Interface
		var err error
		l := cache.NewViewObjectList(k.op, k.kind)
		opts := selOpts(r, o.S)
		n := r.n(3)
		if s.api != nil && r.p(1, 2) {
			n = 2
		}
		switch n {
		case 0:
			wi, err = s.vc.Watch(ctx, l, opts...)
		case 1:
			wi, err = s.del.Watch(ctx, l, opts...)
		default:
			hd := s.hs[r.n(len(s.hs))]
			if s.api != nil && r.p(1, 2) {
				for !hd.api {
					hd = s.hs[r.n(len(s.hs))]
				}
			}
			if strings.Contains(o.S, "phase") || strings.Contains(o.S, "ready") {
				hd = s.hs[0] // fields that the API does not select by
			}
			if hd.api {
				long := int64(1 << 30)
				opts = append(opts, &client.ListOptions{Raw: &metav1.ListOptions{TimeoutSeconds: &long}})
			}
			wi, err = hd.c.(interface {
				Watch(context.Context, client.ObjectList, ...client.ListOption) (watch.Interface, error)
			}).Watch(ctx, l, opts...)
			if hd.api {
				wt.api = true
				s.w.counts["opened_api"]++
			}
		}
		if err != nil {
			return err
		}
		wt.stop = wi.Stop
		if r.p(1, 2) {
			wt.stop = func() { // takes effect asynchronously
				cancel()
				time.Sleep(5 * time.Second)
			}
		} else if r.p(1, 2) {
			wt.stop = func() { wi.Stop(); wi.Stop(); cancel() }
		}
		go func() {
			time.Sleep(first)
			for e := range wi.ResultChan() {
				obj, ok := e.Object.(object.Object)
				if e.Type == watch.Error && wt.api && wt.stopping > 0 {
					continue // the client's own complaint about the stop
				}
				if !ok {
					s.w.fail("bad-event", "%s delivered %v", wt.name, e)
					continue
				}
				record(map[watch.EventType]string{watch.Added: "add", watch.Modified: "mod", watch.Deleted: "del"}[e.Type], obj, nil)
				time.Sleep(delay)
			}
			wt.closed = true
		}()
	case "handler":
		wt.strictOp = true
		var inf interface {
			AddEventHandler(toolscache.ResourceEventHandler) (toolscache.ResourceEventHandlerRegistration, error)
			RemoveEventHandler(toolscache.ResourceEventHandlerRegistration) error
		}
		var err error
		switch r.n(3) {
		case 0:
			inf, err = s.vc.GetInformerForKind(ctx, viewGVK(k.op, k.kind))
		case 1:
			inf, err = s.del.GetInformerForKind(ctx, viewGVK(k.op, k.kind))
		default:
			inf, err = s.mgr.GetCache().GetInformerForKind(ctx, viewGVK(k.op, k.kind))
		}
		if err != nil {
			return err
		}
		reg, err := inf.AddEventHandler(toolscache.ResourceEventHandlerFuncs{
			AddFunc: func(o any) { record("add", o.(object.Object), nil) },
			UpdateFunc: func(old, n any) {
				oo, _ := old.(object.Object)
				record("mod", n.(object.Object), oo)
			},
			DeleteFunc: func(o any) { record("del", o.(object.Object), nil) },
		})
		if err != nil {
			return err
		}
		wt.stop = func() {
			if err := inf.RemoveEventHandler(reg); err != nil {
				s.w.fail("bad-error", "handler cannot be removed: %v", err)
			}
			wt.closed = true
		}
	case "source":
		wt.strictOp = true
		src := opv1a1.Source{Resource: opv1a1.Resource{Kind: k.kind}}
		if _, ns, ok := strings.Cut(o.S, "ns:"); ok {
			src.Namespace = &ns
		}
		rs, err := reconciler.NewSource(s.mgr, k.op, src).GetSource()
		if err != nil {
			return err
		}
		q := workqueue.NewTypedRateLimitingQueue(workqueue.DefaultTypedControllerRateLimiter[reconciler.Request]())
		if err := rs.Start(ctx, q); err != nil {
			return err
		}
		if ss, ok := rs.(interface{ WaitForSync(context.Context) error }); ok {
			if err := ss.WaitForSync(ctx); err != nil {
				return err
			}
		}
		wt.stop = func() { cancel(); q.ShutDown() }
		go func() {
			time.Sleep(first)
			for {
				req, down := q.Get()
				if down {
					break
				}
				typ := map[object.DeltaType]string{object.Added: "add", object.Updated: "mod", object.Deleted: "del"}[req.EventType]
				if req.Object == nil || objKey(req.Object.UnstructuredContent()) != req.Namespace+"/"+req.Name {
					s.w.fail("bad-event", "%s: request %s/%s carries object %v", wt.name, req.Namespace, req.Name, req.Object)
				} else {
					record(typ, req.Object, nil)
				}
				q.Done(req)
				time.Sleep(delay)
			}
			wt.closed = true
		}()
	}
	wt.hi = s.now()
	s.watchers = append(s.watchers, wt)
	s.w.log("%s opened", wt.name)
	s.w.counts["opened_"+o.Do]++
	if stopAt > 0 {
		go func() {
			if d := stopAt - now(); d > 0 {
				time.Sleep(d)
			}
			wt.stopping = s.now()
			wt.stop()
			wt.stopTick = s.now()
			s.w.log("%s stopped", wt.name)
		}()
	}
	return nil
}

// judge compares what a watcher saw of one key with what happened to it.
func (s *watchRun) judge(wt *watcher, key string, wk *wkey) {
	var got []wevent
	for _, e := range wt.events {
		if e.key == key {
			got = append(got, e)
		}
	}
	show := func() string {
		var a, b []string
		for _, e := range got {
			a = append(a, e.typ+" "+e.id)
		}
		for _, v := range wk.vers {
			b = append(b, fmt.Sprintf("%s[%d,%d] del=%v match=%v", v.id, v.inv, v.ret, v.del, wt.match(key, v)))
		}
		return fmt.Sprintf("%s opened [%d,%d] stopped [%d,%d], key %s: events [%s], changes [%s]", wt.name, wt.lo, wt.hi, wt.stopping, wt.stopTick, key, strings.Join(a, ", "), strings.Join(b, ", "))
	}
	byID := map[string]*wver{}
	for _, v := range wk.vers {
		byID[v.id] = v
	}
	for _, e := range got {
		if v := byID[e.id]; v == nil {
			s.w.fail("invented-event", "event with unknown content: %s", show())
			return
		} else if wt.stopTick > 0 && v.inv > wt.stopTick {
			s.w.fail("event-after-stop", "a change made after the stop is delivered: %s", show())
			return
		}
	}
	if s.shared {
		s.judgeShared(wt, key, wk, got, show)
		return
	}
	// with a single writer the versions are totally ordered; the watch was
	// opened after version i-1 for some i compatible with real time
	ok := false
	for i := 0; i <= len(wk.vers) && !ok; i++ {
		if i > 0 && wk.vers[i-1].inv > wt.hi { // stored after the opening returned
			break
		}
		if i < len(wk.vers) && wk.vers[i].ret < wt.lo { // a later version was there before
			continue
		}
		var want []wevent
		var cur *wver
		if i > 0 {
			cur = wk.vers[i-1]
		}
		if wt.match(key, cur) {
			want = append(want, wevent{typ: "add", id: cur.id})
		}
		must := len(want) // events that must have been seen even by a stopped watch
		for _, v := range wk.vers[i:] {
			was, is := wt.match(key, cur), wt.match(key, v)
			switch {
			case is && was:
				want = append(want, wevent{typ: "mod", id: v.id, old: cur.id})
			case is:
				want = append(want, wevent{typ: "add", id: v.id})
			case was:
				want = append(want, wevent{typ: "del", id: cur.id})
				if !v.del {
					want[len(want)-1].old = v.id // may carry the new version
				}
			}
			cur = v
		}
		_ = must
		if len(got) > len(want) || wt.stopTick == 0 && len(got) < len(want) {
			continue
		}
		ok = true
		for j, e := range got {
			x := want[j]
			switch {
			case x.typ == "del" && e.typ == "del" && (e.id == x.id || x.old != "" && e.id == x.old):
			case x.typ == "add" && e.typ == "mod" && !wt.strictOp && e.id == x.id && !(j == 0 && i > 0 && wt.match(key, wk.vers[i-1])): // an object that starts to match
			case x.typ == e.typ && e.id == x.id && (e.old == "" || x.old == "" || e.old == x.old):
			default:
				ok = false
			}
		}
	}
	if !ok {
		s.w.fail("wrong-events", "%s", show())
	}
}

// judgeShared checks what several writers of one key allow to be checked.
func (s *watchRun) judgeShared(wt *watcher, key string, wk *wkey, got []wevent, show func() string) {
	byID := map[string]*wver{}
	for _, v := range wk.vers {
		byID[v.id] = v
	}
	present := false
	last := ""
	for j, e := range got {
		switch e.typ {
		case "add":
			if present {
				s.w.fail("wrong-events", "an object that was there is added: %s", show())
				return
			}
			present, last = true, e.id
		case "mod":
			if !present && (wt.sel == "" || wt.strictOp) {
				s.w.fail("wrong-events", "an absent object is modified: %s", show())
				return
			}
			present, last = true, e.id
		case "del":
			if !present {
				s.w.fail("wrong-events", "an absent object is deleted: %s", show())
				return
			}
			present = false
		}
		if e.typ != "del" {
			for _, f := range got[j+1:] {
				if f.typ != "del" && byID[f.id].ret < byID[e.id].inv {
					s.w.fail("wrong-order", "%s before %s: %s", e.id, f.id, show())
					return
				}
			}
		}
	}
	if wt.stopTick == 0 {
		k := storeKinds[wt.kind]
		ns, name, _ := strings.Cut(key, "/")
		o := newView(k.op, k.kind, key, M{})
		fin := ""
		if err := s.hs[0].c.Get(context.Background(), client.ObjectKey{Namespace: ns, Name: name}, o); err == nil {
			ph, _, _ := unstructured.NestedString(o.Object, "status", "phase")
			rd, _, _ := unstructured.NestedBool(o.Object, "status", "ready")
			lb, _, _ := unstructured.NestedMap(o.Object, "metadata", "labels")
			v := &wver{phase: ph, ready: rd, labels: lb}
			if wt.match(key, v) {
				fin = eventID(o)
			}
		}
		if present && last != fin || !present && fin != "" {
			s.w.fail("wrong-events", "the events do not lead to the final state %q: %s", fin, show())
		}
	}
}

func runWatch(w *world) error {
	hs, vc, del, mgr, err := storeHandles()
	if err != nil {
		return err
	}
	s := &watchRun{w: w, hs: hs, vc: vc, del: del, mgr: mgr, shared: w.p.cfgB("sharedkeys")}
	if w.p.cfgB("api") {
		api, err := newExtAPI(w, hs[2].c)
		if err != nil {
			return err
		}
		defer api.stop()
		s.api = api
		for i := 0; i < 4; i++ {
			c, err := api.client(storeGVKs())
			if err != nil {
				return err
			}
			s.hs = append(s.hs, storeClient{c, c, true})
		}
	}
	for range storeKinds {
		s.keys = append(s.keys, map[string]*wkey{})
	}
	ctx, cancel := context.WithCancel(context.Background())
	mgrDone := make(chan error, 1)
	go func() { mgrDone <- mgr.Start(ctx) }()
	go del.Start(ctx) //nolint:errcheck
	if w.p.cfgB("late") {
		time.Sleep(time.Millisecond)
	}
	c := &conv{w: w}
	all := c.users(func(o opStep) error {
		switch o.Do {
		case "watch", "handler", "source":
			return s.open(o)
		}
		return s.write(o)
	})
	if !c.await(all) {
		w.fail("blocked", "changes of views do not return: %s", strings.Join(repoGoroutines(), "\n"))
		return nil
	}
	if d := time.Duration(w.p.EndAt)*time.Millisecond - now(); d > 0 {
		time.Sleep(d)
	}
	dsimQuiet()
	time.Sleep(1500 * time.Second) // slow readers
	for _, wt := range s.watchers {
		var ks []string
		for k := range s.keys[wt.kind] {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, e := range wt.events {
			if s.keys[wt.kind][e.key] == nil {
				w.fail("invented-event", "%s saw an event of %s, which never existed", wt.name, e.key)
			}
		}
		for _, k := range ks {
			s.judge(wt, k, s.keys[wt.kind][k])
		}
		if wt.stopTick > 0 && !wt.closed {
			w.fail("not-closed", "the channel of %s was not closed after the stop", wt.name)
		}
		if wt.stopTick == 0 && wt.closed {
			w.fail("closed", "the channel of %s was closed though nobody stopped it", wt.name)
		}
		w.counts["watchers_judged"]++
	}
	// stop all and see them go
	for _, wt := range s.watchers {
		if wt.stopTick == 0 {
			wt.stopping = s.now()
			go wt.stop()
		}
	}
	cancel()
	<-mgrDone
	time.Sleep(60 * time.Second)
	for _, g := range repoGoroutines() {
		if strings.Contains(g, "ViewCache") && !strings.Contains(g, "main.runWatch(") {
			w.fail("leak", "a goroutine of the view store outlives its watches: %s", g)
			break
		}
	}
	return nil
}

func genC09(r *rng) *plan {
	p := &plan{Prop: "C09", Scen: "watch", Seed: r.next(), Sched: genSched(r), Cfg: M{}}
	if p.Sched.Mean == 0 && r.p(3, 4) {
		p.Sched.Policy, p.Sched.Mean = 1, pick(r, []uint64{3, 10, 30})
	}
	p.Cfg["late"] = r.p(1, 2)
	shared := r.p(1, 4)
	p.Cfg["sharedkeys"] = shared
	keys := []string{"ns1/a", "ns1/b", "ns2/a", "/c"}[:1+r.n(4)]
	kinds := 1 + r.n(2)
	writers := 1 + r.n(3)
	span := pick(r, []int64{0, 1, 20, 500, 5000})
	big := r.p(1, 12)
	n := 3 + r.n(30)
	if big {
		n = 350
	}
	var t int64
	for i := 0; i < n; i++ {
		if span > 0 && r.p(1, 3) {
			t += r.i64(3*span/int64(n) + 2)
		}
		ki, kk := r.n(kinds), r.n(len(keys))
		o := opStep{T: t, Src: ki, Key: keys[kk], N: int64(i)}
		o.Who = (ki*len(keys) + kk) % writers
		if shared {
			o.Who = r.n(writers)
		}
		o.Do = pick(r, []string{"put", "put", "put", "patch", "del", "again"})
		if shared && o.Who != 0 {
			o.Do = pick(r, []string{"put", "patch"})
		}
		if shared && o.Do == "del" && r.p(1, 2) {
			o.Do = "put"
		}
		o.Obj = M{"labels": M{"tier": fmt.Sprintf("t%d", r.n(2))}, "phase": fmt.Sprintf("P%d", r.n(2)), "ready": r.p(1, 2)}
		p.Ops = append(p.Ops, o)
	}
	end := t + 5
	for i, m := 0, 1+r.n(6); i < m; i++ {
		o := opStep{T: r.i64(end), Src: r.n(kinds), N: int64(1000 + i), Who: 4 + i}
		o.Do = pick(r, []string{"watch", "watch", "watch", "handler", "source"})
		switch o.Do {
		case "watch":
			o.S = pick(r, []string{"", "", "label:t0", "label:t1", "phase:P0", "ready:true", "name:a", "ns:ns1", "fns:ns2", "label:t0+ns:ns1", "label:t1+phase:P1", "ready:false+name:a", "ns:nope"})
		case "source":
			o.S = pick(r, []string{"", "", "ns:ns1"})
		}
		ob := M{"delay_ms": int64(0), "first_ms": int64(0), "stop_ms": int64(0)}
		if r.p(1, 3) {
			ob["delay_ms"] = pick(r, []int64{1, 50, 2000})
		}
		if r.p(1, 3) {
			ob["first_ms"] = pick(r, []int64{1, 100, 300000})
		}
		if r.p(1, 3) {
			ob["stop_ms"] = o.T + r.i64(end-o.T+5)
			if ob["stop_ms"] == int64(0) {
				ob["stop_ms"] = int64(1)
			}
		}
		o.Obj = ob
		p.Ops = append(p.Ops, o)
	}
	p.sortOps()
	p.EndAt = end
	return p
}
