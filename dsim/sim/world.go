package main

import (
	"context"
	"fmt"
	"hash/fnv"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"github.com/go-logr/logr"
	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
	"k8s.io/apimachinery/pkg/runtime/schema"
	"k8s.io/client-go/rest"
	"sigs.k8s.io/controller-runtime/pkg/client"
	crlog "sigs.k8s.io/controller-runtime/pkg/log"
	"sigs.k8s.io/yaml"

	opv1a1 "github.com/l7mp/dcontroller/pkg/api/operator/v1alpha1"
	viewv1a1 "github.com/l7mp/dcontroller/pkg/api/view/v1alpha1"
	"github.com/l7mp/dcontroller/pkg/apiserver"
	"github.com/l7mp/dcontroller/pkg/cache"
	"github.com/l7mp/dcontroller/pkg/object"
	"github.com/l7mp/dcontroller/pkg/operator"
)

type world struct {
	p      *plan
	r      *rng
	srv    *apiServer
	viol   []violation
	counts map[string]int
	trace  []string
	keep   bool // record the trace
	thash  uint64
}

func newWorld(p *plan) *world {
	r := newRng(p.Seed, "world")
	w := &world{p: p, r: r, srv: newAPIServer(newRng(p.Seed, "srv")), counts: map[string]int{}, thash: 14695981039346656037}
	w.srv.faults = p.Faults
	if v := p.cfgI("lat_us"); v > 0 {
		w.srv.latMax = time.Duration(v) * time.Microsecond
	}
	if v := p.cfgI("wlat_us"); v > 0 {
		w.srv.watchLat = time.Duration(v) * time.Microsecond
	}
	return w
}

func (w *world) log(format string, a ...any) {
	s := fmt.Sprintf("%8.3f ", float64(now().Microseconds())/1e6*1) + fmt.Sprintf(format, a...)
	h := fnv.New64a()
	fmt.Fprintf(h, "%x|%s", w.thash, s)
	w.thash = h.Sum64()
	if w.keep {
		w.trace = append(w.trace, s)
	}
}

func (w *world) fail(class, format string, a ...any) {
	msg := fmt.Sprintf(format, a...)
	if len(w.viol) < 5 {
		w.viol = append(w.viol, violation{class, msg})
	}
	w.log("VIOLATION %s: %s", class, msg)
}

// ---- operators ----

func viewGVK(op, kind string) schema.GroupVersionKind { return viewv1a1.GroupVersionKind(op, kind) }

func parseCtrls(y string) (*opv1a1.OperatorSpec, error) {
	var s opv1a1.OperatorSpec
	if err := yaml.Unmarshal([]byte("controllers:\n"+indent(y, "  ")), &s); err != nil {
		return nil, fmt.Errorf("template: %w\n%s", err, y)
	}
	return &s, nil
}

type host struct {
	name      string
	node      uint32
	ctx       context.Context
	cancel    context.CancelFunc
	op        *operator.Operator
	done      chan error
	errs      []error
	errCh     chan error
	stopped   bool
	stopErr   error
	stoppedAt time.Duration
	ready     chan error
}

type hostOpts struct {
	node      uint32
	shared    *cache.CompositeCache
	sharedAny cache.Cache
	noErrRead bool // nobody reads the error channel
	errCap    int
	slowErr   time.Duration // time the reader takes for an error
	noErrCh   bool
	api       *apiserver.APIServer
	headless  bool
	startAt   time.Duration
	client    string
	async     bool // do not wait for the construction
}

// newHost builds an operator (like the operator controller or a user program
// would) and starts it at startAt. All its goroutines carry the node tag.
func (w *world) newHost(name, ctrls string, o hostOpts) (*host, error) {
	spec, err := parseCtrls(ctrls)
	if err != nil {
		return nil, err
	}
	h := &host{name: name, node: o.node, done: make(chan error, 1)}
	h.ctx, h.cancel = context.WithCancel(context.Background())
	ready := make(chan error, 2)
	h.ready = ready
	if !o.noErrCh {
		h.errCh = make(chan error, o.errCap)
	}
	if h.errCh != nil && !o.noErrRead {
		go func() {
			for {
				select {
				case e := <-h.errCh:
					h.errs = append(h.errs, e)
					w.counts["errors_reported"]++
					if o.slowErr > 0 {
						time.Sleep(o.slowErr)
					}
				case <-h.ctx.Done():
					return
				}
			}
		}()
	}
	go func() {
		dsimSetNode(o.node)
		var cfg *rest.Config
		if !o.headless {
			cl := o.client
			if cl == "" {
				cl = "op"
			}
			cfg = w.srv.config(cl)
		}
		opts := operator.Options{ErrorChannel: h.errCh, APIServer: o.api, Logger: logr.Discard()}
		if o.shared != nil {
			opts.Cache = o.shared
		}
		if o.sharedAny != nil {
			opts.Cache = o.sharedAny
		}
		var op *operator.Operator
		var err error
		for i := 0; i < 200; i++ { // like a restarted process: construction fails while the API is unavailable
			if op, err = operator.New(name, cfg, opts); err == nil {
				break
			}
			time.Sleep(500 * time.Millisecond)
		}
		if err != nil {
			ready <- err
			return
		}
		h.op = op
		op.AddSpec(spec)
		ready <- nil
		if d := o.startAt - now(); d > 0 {
			time.Sleep(d)
		}
		w.log("%s starts", name)
		err = op.Start(h.ctx)
		w.log("%s stopped err=%v", name, err)
		h.stopped = true
		h.stopErr = err
		h.done <- err
	}()
	if o.async {
		return h, nil
	}
	if err := <-ready; err != nil {
		return nil, err
	}
	return h, nil
}

func newView(op, kind, key string, obj M) object.Object {
	o := &unstructured.Unstructured{Object: cp(obj)}
	o.SetGroupVersionKind(viewGVK(op, kind))
	ns, name, _ := strings.Cut(key, "/")
	o.SetNamespace(ns)
	o.SetName(name)
	return o
}

func listViews(c client.Client, op, kind string) (map[string]M, error) {
	l := cache.NewViewObjectList(op, kind)
	if err := c.List(context.Background(), l); err != nil {
		return nil, err
	}
	res := map[string]M{}
	for i := range l.Items {
		o := l.Items[i].Object
		res[objKey(o)] = o
	}
	return res, nil
}

// diffMaps compares expected and actual contents.
func diffMaps(want, got map[string]string) string {
	ks := map[string]bool{}
	for k := range want {
		ks[k] = true
	}
	for k := range got {
		ks[k] = true
	}
	keys := make([]string, 0, len(ks))
	for k := range ks {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var b strings.Builder
	for _, k := range keys {
		e, eok := want[k]
		g, gok := got[k]
		switch {
		case !gok:
			fmt.Fprintf(&b, "missing %s: want %s; ", k, e)
		case !eok:
			fmt.Fprintf(&b, "extra %s: %s; ", k, g)
		case e != g:
			fmt.Fprintf(&b, "differs %s: want %s got %s; ", k, e, g)
		}
	}
	return b.String()
}

func contents(m map[string]M, multi []string) map[string]string {
	res := map[string]string{}
	for k, o := range m {
		res[k] = content(o, multi)
	}
	return res
}

func (w *world) result() *result {
	h, picks, choices, yields, stalls, _, dropped := dsimStats()
	return &result{Violations: w.viol, Hash: fmt.Sprintf("%016x", h), TraceHash: fmt.Sprintf("%016x", w.thash), SimMS: now().Milliseconds(),
		Picks: picks, Choices: choices, Yields: yields, Stalls: stalls, Dropped: dropped, Faults: w.srv.fired, Counts: w.counts, Trace: w.trace}
}

// stacks of all goroutines (for reports of stuck ones).
func allStacks() string {
	b := make([]byte, 4<<20)
	return string(b[:runtime.Stack(b, true)])
}

// repoGoroutines returns the stacks of live goroutines that run repository code.
func repoGoroutines() []string {
	var res []string
	for _, g := range strings.Split(allStacks(), "\n\n") {
		if strings.Contains(g, "l7mp/dcontroller/pkg/") {
			res = append(res, g)
		}
	}
	return res
}

// nodeGoroutines returns the stacks of the live goroutines of a node (or
// started by one of them).
func nodeGoroutines(node uint32) []string {
	var res []string
	for _, g := range strings.Split(allStacks(), "\n\n") {
		head, _, _ := strings.Cut(g, "\n")
		if strings.Contains(head, fmt.Sprintf(", node %d.", node)) {
			res = append(res, g)
		}
	}
	return res
}

func init() {
	debug.SetGCPercent(-1)
	crlog.SetLogger(logr.Discard())
}

func newShared() *cache.CompositeCache {
	c, err := cache.NewCompositeCache(nil, cache.CacheOptions{Logger: logr.Discard()})
	if err != nil {
		panic(err)
	}
	return c
}
