package main

import (
	"context"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/go-logr/logr"
	apierrors "k8s.io/apimachinery/pkg/api/errors"
	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
	"k8s.io/apimachinery/pkg/types"
	toolscache "k8s.io/client-go/tools/cache"
	"sigs.k8s.io/controller-runtime/pkg/client"
	metricsserver "sigs.k8s.io/controller-runtime/pkg/metrics/server"

	"github.com/l7mp/dcontroller/pkg/cache"
	"github.com/l7mp/dcontroller/pkg/manager"
	"github.com/l7mp/dcontroller/pkg/object"
)

// The store scenario (C08): several clients with different handles of one
// shared view store work on a few views; every call is recorded with its
// invocation and return and the history of each kind must be linearizable.
// Everything a client passed in or received is overwritten with poison
// afterwards.

type storeClient struct {
	c      client.Client
	reader client.Reader
	api    bool // through the extension API server
}

var storeKinds = []struct{ op, kind string }{{"op1", "Alpha"}, {"op2", "Alpha"}, {"op1", "Beta"}}

// storeHandles builds the different ways to reach one view store.
func storeHandles() ([]storeClient, *cache.ViewCache, *cache.DelegatingViewCache, manager.Manager, error) {
	shared := newShared()
	vc := shared.GetViewCache().(*cache.ViewCache)
	del := cache.NewDelegatingViewCache(vc, cache.CacheOptions{})
	comp, err := cache.NewCompositeCache(nil, cache.CacheOptions{ViewCache: del, Logger: logr.Discard()})
	if err != nil {
		return nil, nil, nil, nil, err
	}
	cc, err := cache.NewClientForCache(nil, comp, client.Options{})
	if err != nil {
		return nil, nil, nil, nil, err
	}
	mgr, err := manager.New(nil, manager.Options{
		Logger:                 logr.Discard(),
		NewCache:               manager.CacheInjector(vc),
		LeaderElection:         false,
		HealthProbeBindAddress: "0",
		Metrics:                metricsserver.Options{BindAddress: "0"},
	})
	if err != nil {
		return nil, nil, nil, nil, err
	}
	return []storeClient{
		{vc.GetClient(), vc.GetClient(), false},
		{del.GetClient(), del, false},
		{cc, cc, false},
		{mgr.GetClient(), mgr.GetClient(), false},
		{mgr.GetClient(), mgr.GetCache(), false},
	}, vc, del, mgr, nil
}

var storeKeys = []string{"ns1/a", "ns1/b", "ns2/a", "/c"}

type histOp struct {
	who        int
	verb       string
	key        string
	id, fld    string
	sel        string
	inv, ret   int
	res        string // canonical result ("" for acknowledged writes)
	src        opStep
	completeOK bool
	api        bool
}

func (h histOp) String() string {
	return fmt.Sprintf("[%d,%d] c%d %s %s%s %s -> %s", h.inv, h.ret, h.who, h.verb, h.key, h.sel, h.id, h.res)
}

// vrec is the model of one view.
type vrec struct{ id, q, n, s string }

func (v vrec) view(op, kind, key string) *unstructured.Unstructured {
	o := M{"spec": M{"a": v.id, "c": M{"d": v.id, "l": []any{M{"x": v.id}}}, "q": v.q}, "status": M{"s": v.s},
		"metadata": M{"labels": M{"l": v.id, "par": parity(v.id)}, "annotations": M{"an": v.id}}}
	n := int64(len(v.id))
	if len(v.id) > 1 {
		n = int64(v.id[len(v.id)-1] - '0')
	}
	o["typed"] = M{"i": n, "f": float64(n) + 0.5, "b": n%2 == 0, "ls": []any{n, float64(n) + 0.25, n%3 == 0, M{"deep": []any{v.id}}}}
	if v.n != "" {
		o["spec"].(M)["n"] = M{"m": v.n}
	}
	return newView(op, kind, key, o)
}

func parity(id string) string {
	if strings.HasSuffix(id, "0") || strings.HasSuffix(id, "2") || strings.HasSuffix(id, "4") || strings.HasSuffix(id, "6") || strings.HasSuffix(id, "8") {
		return "even"
	}
	return "odd"
}

func viewCanon(o M) string {
	o = cp(o)
	if m, ok := o["metadata"].(M); ok {
		delete(m, "uid")
	}
	return canon(o)
}

// poison overwrites everything reachable from an object.
func poison(v any) {
	switch x := v.(type) {
	case M:
		for k, e := range x {
			switch e.(type) {
			case M, []any:
				poison(e)
			default:
				if k != "kind" && k != "apiVersion" {
					x[k] = "poison"
				}
			}
		}
		x["poison"] = "poison"
	case []any:
		for i, e := range x {
			switch e.(type) {
			case M, []any:
				poison(e)
			default:
				x[i] = "poison"
			}
		}
	}
}

type storeRun struct {
	w     *world
	hs    []storeClient
	tick  int
	hist  [][]*histOp // per kind
	api   *extAPI
	kept  []keptObj
	doneN int
}

type keptObj struct {
	o    *unstructured.Unstructured
	want string
	how  string
}

func (s *storeRun) keepOrPoison(o *unstructured.Unstructured, how string) {
	if s.w.r.p(1, 4) {
		s.kept = append(s.kept, keptObj{o, canon(o.Object), how})
		return
	}
	poison(o.Object)
}

func outcome(err error) string {
	switch {
	case err == nil:
		return ""
	case apierrors.IsNotFound(err):
		return "notfound"
	case apierrors.IsAlreadyExists(err):
		return "exists"
	}
	return "error: " + err.Error()
}

func (s *storeRun) do(o opStep) {
	k := storeKinds[o.Src]
	h := &histOp{who: o.Who, verb: o.Do, key: o.Key, id: fmt.Sprintf("v%d", o.N), sel: o.S, src: o}
	hd := s.hs[o.Who%len(s.hs)]
	if o.Who >= len(s.hs) {
		hd = s.hs[(o.Who*7+int(o.N))%len(s.hs)]
	}
	if hd.api && (strings.HasPrefix(o.Key, "/") || o.Do == "status") { // not served
		hd = s.hs[0]
	}
	h.api = hd.api
	ctx := context.Background()
	var passed []*unstructured.Unstructured
	s.tick++
	h.inv = s.tick
	s.hist[o.Src] = append(s.hist[o.Src], h)
	fresh := vrec{h.id, h.id, "", h.id}
	ns, name, _ := strings.Cut(o.Key, "/")
	// what is written may have been read from the store before
	written := func() *unstructured.Unstructured {
		v := fresh.view(k.op, k.kind, o.Key)
		switch o.N % 3 {
		case 1:
			got := newView(k.op, k.kind, o.Key, M{})
			if hd.reader.Get(ctx, client.ObjectKeyFromObject(got), got) == nil {
				u := got.GetUID()
				for f := range got.Object {
					delete(got.Object, f)
				}
				for f, e := range v.Object {
					got.Object[f] = e
				}
				got.SetUID(u)
				v = got
			}
		case 2:
			v.SetUID(object.NewUID(v.GroupVersionKind(), v.GetNamespace(), v.GetName()))
		}
		return v
	}
	switch o.Do {
	case "create":
		v := written()
		h.res = outcome(hd.c.Create(ctx, v))
		passed = append(passed, v)
	case "update":
		v := written()
		h.res = outcome(hd.c.Update(ctx, v))
		passed = append(passed, v)
	case "status":
		v := written()
		c := hd.c
		if _, ok := c.(*cache.CompositeClient); ok {
			c = s.hs[0].c // no native client to take the status writer from
		}
		h.res = outcome(c.Status().Update(ctx, v))
		passed = append(passed, v)
	case "patch":
		v := newView(k.op, k.kind, o.Key, M{})
		h.res = outcome(hd.c.Patch(ctx, v, client.RawPatch(types.MergePatchType, []byte(fmt.Sprintf(`{"spec":{"q":%q,"n":{"m":%q}}}`, h.id, h.id)))))
		passed = append(passed, v)
	case "delete":
		v := newView(k.op, k.kind, o.Key, M{})
		h.res = outcome(hd.c.Delete(ctx, v))
		passed = append(passed, v)
	case "get":
		v := newView(k.op, k.kind, o.Key, M{})
		if o.N%2 == 0 { // reuse of an object that already has content
			v = vrec{"old", "old", "old", "old"}.view(k.op, k.kind, o.Key)
		}
		err := hd.reader.Get(ctx, client.ObjectKey{Namespace: ns, Name: name}, v)
		h.res = outcome(err)
		if err == nil {
			h.res = viewCanon(v.Object)
			passed = append(passed, v)
		}
	case "delall":
		// one deletion per key, each taking effect at its own time
		v := newView(k.op, k.kind, o.Key, M{})
		var opts []client.DeleteAllOfOption
		if o.S == "ns1" {
			opts = append(opts, client.InNamespace("ns1"))
		}
		s.hist[o.Src] = s.hist[o.Src][:len(s.hist[o.Src])-1]
		var all []*histOp
		for _, key := range storeKeys {
			if o.S == "ns1" && !strings.HasPrefix(key, "ns1/") {
				continue
			}
			x := *h
			x.verb, x.key, x.sel = "delany", key, ""
			all = append(all, &x)
		}
		s.hist[o.Src] = append(s.hist[o.Src], all...)
		h.res = outcome(hd.c.DeleteAllOf(ctx, v, opts...))
		s.tick++
		for _, x := range all {
			x.ret, x.res, x.completeOK = s.tick, h.res, true
		}
		s.tick--
		passed = append(passed, v)
	case "list":
		l := cache.NewViewObjectList(k.op, k.kind)
		var opts []client.ListOption
		switch o.S {
		case "ns1":
			opts = append(opts, client.InNamespace("ns1"))
		case "even":
			opts = append(opts, client.MatchingLabels{"par": "even"})
		case "name":
			opts = append(opts, client.MatchingFields{"metadata.name": "a"})
		}
		err := hd.reader.List(ctx, l, opts...)
		h.res = outcome(err)
		if err == nil {
			var items []string
			for i := range l.Items {
				items = append(items, viewCanon(l.Items[i].Object))
				passed = append(passed, &l.Items[i])
			}
			sort.Strings(items)
			h.res = strings.Join(items, " ")
		}
	}
	s.tick++
	h.ret = s.tick
	h.completeOK = true
	if strings.HasPrefix(h.res, "error: ") || o.Do == "delall" && h.res != "" {
		s.w.fail("bad-error", "%s", h)
	}
	s.w.log("%s", h)
	for _, v := range passed {
		s.keepOrPoison(v, h.String())
	}
	s.w.counts["call_"+o.Do]++
}

// ---- the reference model and the search for a linearization ----

type storeState map[string]vrec

func (st storeState) key() string {
	ks := make([]string, 0, len(st))
	for k := range st {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&b, "%s=%v;", k, st[k])
	}
	return b.String()
}

// step applies an operation to the model and tells the result it must have.
func (st storeState) step(op, kind string, h *histOp) (storeState, string) {
	cur, ok := st[h.key]
	with := func(v vrec) storeState {
		n := storeState{}
		for k, e := range st {
			n[k] = e
		}
		n[h.key] = v
		return n
	}
	fresh := vrec{h.id, h.id, "", h.id}
	switch h.verb {
	case "create":
		return with(fresh), ""
	case "list":
		var items []string
		for k, v := range st {
			ns, name, _ := strings.Cut(k, "/")
			if h.sel == "ns1" && ns != "ns1" || h.sel == "even" && parity(v.id) != "even" || h.sel == "name" && name != "a" {
				continue
			}
			items = append(items, viewCanon(v.view(op, kind, k).Object))
		}
		sort.Strings(items)
		return st, strings.Join(items, " ")
	}
	if h.verb == "delany" {
		if !ok {
			return st, ""
		}
		n := with(cur)
		delete(n, h.key)
		return n, ""
	}
	if !ok {
		return st, "notfound"
	}
	switch h.verb {
	case "update":
		return with(fresh), ""
	case "status":
		cur.s = h.id
		return with(cur), ""
	case "patch":
		cur.q, cur.n = h.id, h.id
		return with(cur), ""
	case "delete":
		n := with(cur)
		delete(n, h.key)
		return n, ""
	case "get":
		return st, viewCanon(cur.view(op, kind, h.key).Object)
	}
	panic("verb")
}

func linearizable(op, kind string, hist []*histOp) (bool, int) {
	n := len(hist)
	seen := map[string]bool{}
	best := 0
	var dfs func(done []bool, cnt int, st storeState) bool
	dfs = func(done []bool, cnt int, st storeState) bool {
		if cnt > best {
			best = cnt
		}
		if cnt == n {
			return true
		}
		b := make([]byte, n)
		minRet := 1 << 60
		for i, h := range hist {
			b[i] = '0'
			if done[i] {
				b[i] = '1'
			} else if h.ret < minRet {
				minRet = h.ret
			}
		}
		k := string(b) + "|" + st.key()
		if seen[k] {
			return false
		}
		seen[k] = true
		for i, h := range hist {
			if done[i] || h.inv > minRet {
				continue
			}
			ns, want := st.step(op, kind, h)
			if want != h.res {
				continue
			}
			done[i] = true
			if dfs(done, cnt+1, ns) {
				return true
			}
			done[i] = false
		}
		return false
	}
	return dfs(make([]bool, n), 0, storeState{}), best
}

func runStore(w *world) error {
	hs, vc, del, _, err := storeHandles()
	if err != nil {
		return err
	}
	s := &storeRun{w: w, hs: hs, hist: make([][]*histOp, len(storeKinds))}
	if w.p.cfgB("api") {
		if s.api, err = newExtAPI(w, hs[2].c); err != nil {
			return err
		}
		defer s.api.stop()
		n := len(s.hs)
		for i := 0; i < n; i++ { // every other client
			c, err := s.api.client(storeGVKs())
			if err != nil {
				return err
			}
			s.hs = append(s.hs, storeClient{c, c, true})
			s.hs[i], s.hs[len(s.hs)-1] = s.hs[len(s.hs)-1], s.hs[i]
		}
		s.hs = append([]storeClient{s.hs[n]}, s.hs...)
		hs = s.hs
	}
	// watchers and handlers that vandalise what they get
	if w.p.cfgB("vandal") {
		for _, k := range storeKinds[:2] {
			wi, err := vc.Watch(context.Background(), cache.NewViewObjectList(k.op, k.kind))
			if err != nil {
				return err
			}
			go func() {
				for e := range wi.ResultChan() {
					if o, ok := e.Object.(*unstructured.Unstructured); ok {
						s.keepOrPoison(o, "watch event "+string(e.Type))
					}
				}
			}()
			inf, err := del.GetInformerForKind(context.Background(), viewGVK(k.op, k.kind))
			if err != nil {
				return err
			}
			vandal := func(o any) {
				if u, ok := o.(*unstructured.Unstructured); ok && u != nil {
					poison(u.Object)
				}
			}
			inf.AddEventHandler(toolscache.ResourceEventHandlerFuncs{ //nolint:errcheck
				AddFunc: vandal, UpdateFunc: func(o, n any) { vandal(o); vandal(n) }, DeleteFunc: vandal})
		}
	}
	c := &conv{w: w}
	all := c.users(func(o opStep) error { s.do(o); return nil })
	if !c.await(all) {
		w.fail("blocked", "calls to the view store do not return: %s", strings.Join(repoGoroutines(), "\n"))
		return nil
	}
	dsimQuiet()
	time.Sleep(time.Second)
	for i, k := range storeKinds {
		if len(s.hist[i]) == 0 {
			continue
		}
		// what every handle sees at the end belongs to the history as well
		for j, hd := range hs {
			l := cache.NewViewObjectList(k.op, k.kind)
			h := &histOp{who: 100 + j, verb: "list", id: "final"}
			s.tick++
			h.inv = s.tick
			h.res = outcome(hd.reader.List(context.Background(), l))
			if h.res == "" {
				var items []string
				for x := range l.Items {
					items = append(items, viewCanon(l.Items[x].Object))
					// names and identities must be those of the objects themselves
					u := &l.Items[x]
					if u.GetUID() == "" || u.GetUID() != object.NewUID(u.GroupVersionKind(), u.GetNamespace(), u.GetName()) {
						w.fail("bad-uid", "view %s has uid %q", objKey(u.Object), u.GetUID())
					}
				}
				sort.Strings(items)
				h.res = strings.Join(items, " ")
			}
			s.tick++
			h.ret = s.tick
			s.hist[i] = append(s.hist[i], h)
		}
		if ok, best := linearizable(k.op, k.kind, s.hist[i]); !ok {
			var ls []string
			for _, h := range s.hist[i] {
				ls = append(ls, h.String())
			}
			cl := "not-linearizable"
			if strings.Contains(strings.Join(ls, "\n"), "poison") {
				cl = "shared-value"
			}
			w.fail(cl, "no order of the calls on %s/%s explains their results (at most %d of %d): %s", k.op, k.kind, best, len(s.hist[i]), strings.Join(ls, "; "))
		}
		w.counts["histories"]++
		w.counts["calls_linearized"] += len(s.hist[i])
	}
	for _, k := range s.kept {
		if got := canon(k.o.Object); got != k.want {
			w.fail("shared-value", "an object handed over in %s changed later: %s to %s", k.how, k.want, got)
		}
	}
	return nil
}

func genC08(r *rng) *plan {
	p := &plan{Prop: "C08", Scen: "store", Seed: r.next(), Sched: genSched(r), Cfg: M{}}
	if p.Sched.Mean == 0 && r.p(3, 4) {
		p.Sched.Policy, p.Sched.Mean = 1, pick(r, []uint64{3, 10, 30})
	}
	p.Cfg["vandal"] = r.p(1, 2)
	nc := 2 + r.n(4)
	keys := storeKeys[:1+r.n(4)]
	kinds := 1 + r.n(len(storeKinds))
	var t int64
	for i, n := 0, 4+r.n(26); i < n; i++ {
		if r.p(1, 6) {
			t += r.i64(20)
		}
		o := opStep{T: t, Who: r.n(nc), Src: r.n(kinds), Key: pick(r, keys), N: int64(i)}
		o.Do = pick(r, []string{"create", "create", "update", "update", "patch", "patch", "status", "delete", "get", "get", "get", "list", "list"})
		if r.p(1, 25) {
			o.Do, o.S = "delall", pick(r, []string{"", "ns1"})
		}
		if o.Do == "list" {
			o.Key = ""
			o.S = pick(r, []string{"", "", "ns1", "even", "name"})
		}
		p.Ops = append(p.Ops, o)
	}
	p.EndAt = t + 1
	return p
}
