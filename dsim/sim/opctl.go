package main

import (
	"context"
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/go-logr/logr"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/runtime"
	clientgoscheme "k8s.io/client-go/kubernetes/scheme"
	ctrlrt "sigs.k8s.io/controller-runtime"
	crconfig "sigs.k8s.io/controller-runtime/pkg/config"
	metricsserver "sigs.k8s.io/controller-runtime/pkg/metrics/server"
	"sigs.k8s.io/yaml"

	opv1a1 "github.com/l7mp/dcontroller/pkg/api/operator/v1alpha1"
	"github.com/l7mp/dcontroller/pkg/cache"
	"github.com/l7mp/dcontroller/pkg/kubernetes/controllers"
	"github.com/l7mp/dcontroller/pkg/object"
)

// The operator controller scenario (C13): users create, change, delete and
// replace Operator resources while the operator controller runs. Every spec
// marks the objects it writes with its own number (inc).

// ostage is a controller of an operator.
type ostage struct {
	name     string
	in       string // "Alpha", "Beta" or "op/Kind" of a view
	out      string // "Out" or the kind of a view
	gather   bool
	critical bool
	yaml     string // a misconfigured controller
}

type ospec struct {
	op     string
	n      int // its number
	d      int64
	stages []ostage
}

func (s *ospec) inc() string { return fmt.Sprintf("%s#%d", s.op, s.n) }

func newOspec(op string, n int, kind string, d int64, cross string) *ospec {
	s := &ospec{op: op, n: n, d: d}
	add := func(name, in, out string) { s.stages = append(s.stages, ostage{name: name, in: in, out: out}) }
	switch kind {
	case "copy":
		add("c", "Alpha", "Out")
	case "view":
		add("c", "Alpha", "X")
	case "chain":
		add("c1", "Alpha", "M")
		add("c2", op+"/M", "Out")
	case "two":
		add("a", "Alpha", "Out")
		add("b", "Beta", "X")
	case "gather":
		s.stages = append(s.stages, ostage{name: "g", in: "Beta", out: "Out", gather: true})
	case "cross":
		add("x", cross+"/X", "Out")
		add("c", "Beta", "X")
	case "partly": // one of its controllers is misconfigured
		add("c", "Alpha", "Out")
		s.stages = append(s.stages, ostage{name: "bad", critical: true, yaml: "- {name: bad, sources: [], pipeline: [{'@select': true}], target: {kind: Zed, type: Updater}}\n"})
	case "broken":
		s.stages = append(s.stages, ostage{name: "bad", critical: true, yaml: "- {name: bad, sources: [{kind: P}, {kind: Q}], pipeline: [{'@select': true}], target: {kind: Zed, type: Updater}}\n"})
	case "malformed": // parts that the API server does not validate cannot be parsed
		if n%2 == 0 {
			add("c", "Alpha", "Out")
		}
		pred, pipe := "", "[{'@select': true}]"
		switch n % 3 {
		case 0:
			pipe = "[{'@whatever': true}]"
		case 1:
			pipe = "7"
		case 2:
			pred = ", predicate: {a: 1, b: 2}"
		}
		s.stages = append(s.stages, ostage{name: "bad", critical: true, yaml: "- {name: bad, sources: [{apiGroup: sim.io, version: v1, kind: Alpha" + pred + "}], pipeline: " + pipe + ", target: {kind: Zed, type: Updater}}\n"})
	default:
		panic("ospec " + kind)
	}
	return s
}

func (s *ospec) object() (M, error) {
	y := ""
	for _, t := range s.stages {
		if t.yaml != "" {
			y += t.yaml
			continue
		}
		src := fmt.Sprintf("{apiGroup: sim.io, version: v1, kind: %s}", t.in)
		if op, kind, ok := strings.Cut(t.in, "/"); ok {
			src = fmt.Sprintf("{apiGroup: %s.view.dcontroller.io, kind: %s}", op, kind)
		}
		name := "$.metadata.name"
		tg := fmt.Sprintf("{kind: %s, type: Updater}", t.out)
		if t.out == "Out" {
			tg = "{apiGroup: sim.io, version: v1, kind: Out, type: Updater}"
			name = fmt.Sprintf("{'@concat': ['%s-', $.metadata.name]}", s.op)
		}
		pipe := fmt.Sprintf("- '@project':\n    metadata: {name: %s, namespace: $.metadata.namespace}\n    spec: {val: {'@add': [$.spec.val, %d]}, grp: $.spec.grp, inc: %q}", name, s.d, s.inc())
		if t.gather {
			pipe = "- '@gather': [$.spec.grp, $.spec.val]\n" + fmt.Sprintf("- '@project':\n    metadata: {name: {'@concat': ['%s-', $.spec.grp]}, namespace: ns1}\n    spec: {val: {'@sum': $.spec.val}, grp: $.spec.grp, inc: %q}", s.op, s.inc())
		}
		y += ctrlYAML(t.name, []string{src}, pipe, tg)
	}
	var spec any
	if err := yaml.Unmarshal([]byte("controllers:\n"+indent(y, "  ")), &spec); err != nil {
		return nil, fmt.Errorf("%w in\n%s", err, y)
	}
	return M{"spec": fixNum(spec)}, nil
}

type octl struct {
	w       *world
	c       *conv
	node    uint32
	client  string
	ctx     context.Context
	cancel  context.CancelFunc
	ctl     *controllers.OpController
	done    bool
	err     error
	api     *cache.API
	shared  bool
	specs   map[string]*ospec // existing operator resources by name
	all     map[string]*ospec // every spec by inc
	count   map[string]int    // specs per operator
	newest  map[string]int    // the newest spec that has written, per operator
	absent  map[string]int64  // since when the controller does not know an operator (ms), -1: it does
	atBoot  map[string]bool   // targets that existed when the process was replaced
	restart chan bool
	quietT  time.Duration // when all was settled
	withAPI bool
	ext     *extAPI
	caches  chan error // the shared cache has stopped
	noWatch bool       // do not watch the operators' writes
}

func scheme() *runtime.Scheme {
	s := runtime.NewScheme()
	if err := clientgoscheme.AddToScheme(s); err != nil {
		panic(err)
	}
	if err := opv1a1.AddToScheme(s); err != nil {
		panic(err)
	}
	return s
}

// boot starts a process like main.go does.
func (c *octl) boot() {
	c.node++
	c.client = fmt.Sprintf("op-%d", c.node)
	c.ctx, c.cancel = context.WithCancel(context.Background())
	ctx, node, client := c.ctx, c.node, c.client
	c.ctl, c.api, c.ext = nil, nil, nil
	yes := true // several processes share this one
	go func() {
		dsimSetNode(node)
		cfg := c.w.srv.config(client)
		var api *cache.API
		var ctl *controllers.OpController
		for i := 0; ; i++ { // the process is restarted until it comes up
			var err error
			if api, err = cache.NewAPI(cfg, cache.APIOptions{CacheOptions: cache.CacheOptions{Logger: logr.Discard()}}); err == nil {
				var shared cache.Cache
				if c.shared {
					shared = api.Cache
				}
				if ctl, err = controllers.NewOpController(cfg, shared, ctrlrt.Options{
					Scheme: scheme(), Metrics: metricsserver.Options{BindAddress: "0"}, HealthProbeBindAddress: "0", Controller: crconfig.Controller{SkipNameValidation: &yes}, Logger: logr.Discard(),
				}); err == nil {
					break
				}
			}
			if i > 200 {
				c.w.fail("no-start", "the operator controller cannot be created: %v", err)
				return
			}
			time.Sleep(500 * time.Millisecond)
		}
		if c.node != node {
			return
		}
		if c.withAPI {
			ext, err := newExtAPI(c.w, api.Client)
			if err != nil {
				c.w.fail("no-start", "the API server cannot be created: %v", err)
				return
			}
			ctl.SetAPIServer(ext.s)
			c.ext = ext
		}
		c.api, c.ctl = api, ctl
		caches := make(chan error, 1)
		c.caches = caches
		go func() {
			dsimSetNode(node)
			caches <- api.Cache.Start(ctx)
		}()
		c.w.log("operator controller %d starts", node)
		err := ctl.Start(ctx)
		c.w.log("operator controller %d stopped err=%v", node, err)
		if c.node != node {
			return
		}
		if ctx.Err() == nil && len(c.w.p.Faults) > 0 && err != nil && strings.Contains(err.Error(), "timed out waiting for cache") {
			// the API server has been out of reach for long: Kubernetes restarts the process
			c.w.counts["process_restarts"]++
			c.restart <- true
			dsimKill(node)
			return
		}
		c.done, c.err = true, err
	}()
	if c.shared && !c.noWatch { // who writes views, in what order
		go func() {
			for c.api == nil && c.node == node {
				time.Sleep(10 * time.Millisecond)
			}
			if c.node != node {
				return
			}
			vc := c.api.GetCache().GetViewCache()
			for i := 0; i < 3; i++ {
				for _, kind := range []string{"X", "M"} {
					wi, err := vc.Watch(context.Background(), cache.NewViewObjectList(fmt.Sprintf("o%d", i), kind))
					if err != nil {
						c.w.fail("watch", "%v", err)
						return
					}
					go func() {
						for e := range wi.ResultChan() {
							o := e.Object.(object.Object).UnstructuredContent()
							if e.Type != "DELETED" && c.node == node {
								c.wrote(fmt.Sprintf("view %s/%s", kind, objKey(o)), str(sp(o)["inc"]))
							}
						}
					}()
				}
			}
		}()
	}
}

// wrote is told of each write to a target.
func (c *octl) wrote(what, inc string) {
	s := c.all[inc]
	if s == nil {
		return
	}
	c.w.log("%s wrote %s", inc, what)
	c.w.counts["target_writes"]++
	if n := c.newest[s.op]; s.n < n {
		c.w.fail("old-writes", "%s wrote %s after its successor %s#%d had written", inc, what, s.op, n)
	} else {
		c.newest[s.op] = s.n
	}
	if t := c.absent[s.op]; t >= 0 && c.ctl != nil && c.ctl.GetOperator(s.op) == nil && now() > time.Duration(t)*time.Millisecond+c.grace() {
		c.w.fail("ghost-writes", "%s wrote %s %.0fs after its operator had been removed", inc, what, (now() - time.Duration(t)*time.Millisecond).Seconds())
	}
	if c.quietT > 0 && (c.specs[s.op] == nil || c.specs[s.op].n != s.n) {
		c.w.fail("ghost-writes", "%s wrote %s although it is not the current spec of %s", inc, what, s.op)
	}
}

// grace is the time an operator may take to stop: more if its goroutines stall.
func (c *octl) grace() time.Duration {
	if c.w.p.Sched.StallPer > 0 {
		return 200 * time.Second
	}
	return 10 * time.Second
}

// poll tracks which operators the controller knows.
func (c *octl) poll() {
	for {
		for i := 0; i < 3; i++ {
			op := fmt.Sprintf("o%d", i)
			if c.ctl == nil || c.ctl.GetOperator(op) != nil {
				c.absent[op] = -1
			} else if c.absent[op] < 0 {
				c.absent[op] = now().Milliseconds()
			}
		}
		time.Sleep(200 * time.Millisecond)
	}
}

func (c *octl) apply(o opStep) error {
	ki := kindByName("Operator")
	op := fmt.Sprintf("o%d", o.Src)
	switch o.Do {
	case "put", "del":
		kind := kindByName(o.S)
		cur, ok := c.w.srv.get(o.S, o.Key)
		ns, name, _ := strings.Cut(o.Key, "/")
		switch {
		case o.Do == "del" && ok:
			if _, e := c.w.srv.del("user", kind, o.Key); e != nil {
				return e
			}
		case o.Do == "put":
			n := M{"metadata": M{"name": name, "namespace": ns}, "spec": deepCopy(o.Obj["spec"])}
			var e *apiErr
			if ok {
				meta(n)["resourceVersion"] = meta(cur)["resourceVersion"]
				_, e = c.w.srv.update("user", kind, n, "")
			} else {
				_, e = c.w.srv.create("user", kind, n)
			}
			if e != nil {
				return e
			}
		}
	case "apply", "replace":
		cur, ok := c.w.srv.get("Operator", "/"+op)
		if o.Do == "replace" && ok {
			if _, e := c.w.srv.del("user", ki, "/"+op); e != nil {
				return e
			}
			ok = false
		}
		s := newOspec(op, c.count[op], o.S, o.N, o.Key)
		c.count[op]++
		n, err := s.object()
		if err != nil {
			return err
		}
		n["metadata"] = M{"name": op}
		c.all[s.inc()] = s
		var e *apiErr
		if ok {
			if m, k := meta(cur)["labels"]; k {
				meta(n)["labels"] = deepCopy(m)
			}
			meta(n)["resourceVersion"] = meta(cur)["resourceVersion"]
			_, e = c.w.srv.update("user", ki, n, "")
		} else {
			_, e = c.w.srv.create("user", ki, n)
		}
		if e != nil {
			return e
		}
		c.specs[op] = s
		c.w.log("apply %s %s", s.inc(), o.S)
	case "delete":
		if _, ok := c.w.srv.get("Operator", "/"+op); ok {
			if _, e := c.w.srv.del("user", ki, "/"+op); e != nil {
				return e
			}
			delete(c.specs, op)
			c.w.log("delete %s", op)
		}
	case "touch":
		if cur, ok := c.w.srv.get("Operator", "/"+op); ok {
			n := cp(cur)
			meta(n)["labels"] = M{"touched": fmt.Sprint(o.T)}
			if _, e := c.w.srv.update("user", ki, n, ""); e != nil {
				return e
			}
		}
	case "crash":
		dsimKill(c.node)
		c.w.srv.fired["crash"]++
		c.dead()
	default:
		c.c.serverStep(o)
	}
	return nil
}

func (c *octl) dead() {
	c.w.srv.disconnect(c.client)
	c.w.log("crash of %d", c.node)
	for k := range c.w.srv.objs["Out"] {
		c.atBoot[k] = true
	}
	c.boot()
}

func (c *octl) get(op, kind string) map[string]M {
	if !c.shared {
		cur := c.ctl.GetOperator(op)
		if cur == nil {
			return nil
		}
		l, _ := listViews(cur.GetClient(), op, kind)
		return l
	}
	l, err := listViews(c.api.GetCache().GetViewCache().GetClient(), op, kind)
	if err != nil {
		return map[string]M{"error": {"spec": M{"err": err.Error()}}}
	}
	return l
}

func (c *octl) diff() string {
	if c.ctl == nil {
		return "the operator controller is not up"
	}
	for i := 0; i < 3; i++ {
		op := fmt.Sprintf("o%d", i)
		s := c.specs[op]
		cur := c.ctl.GetOperator(op)
		if s == nil {
			if cur != nil {
				return fmt.Sprintf("%s has been deleted but is there", op)
			}
			continue
		}
		if cur == nil {
			return fmt.Sprintf("%s is not running", s.inc())
		}
		// status
		res, _ := c.w.srv.get("Operator", "/"+op)
		var typed opv1a1.Operator
		b, _ := json.Marshal(M{"metadata": res["metadata"], "status": res["status"]})
		if err := json.Unmarshal(b, &typed); err != nil {
			return err.Error()
		}
		var want, have []string
		for _, t := range s.stages {
			want = append(want, t.name)
		}
		for _, t := range typed.Status.Controllers {
			have = append(have, t.Name)
		}
		sort.Strings(want)
		sort.Strings(have)
		if strings.Join(want, ",") != strings.Join(have, ",") {
			return fmt.Sprintf("the status of %s reports controllers %v, not %v", s.inc(), have, want)
		}
		for _, t := range typed.Status.Controllers {
			st := s.stage(t.Name)
			if len(t.Conditions) != 1 || t.Conditions[0].ObservedGeneration != typed.Generation {
				return fmt.Sprintf("the status of %s at generation %d: controller %s: %+v", s.inc(), typed.Generation, t.Name, t.Conditions)
			}
			if rd := ready(&t); (rd == metav1.ConditionFalse) != st.critical || st.critical && len(t.LastErrors) == 0 {
				return fmt.Sprintf("the status of %s: controller %s is ready: %s, errors %v", s.inc(), t.Name, rd, t.LastErrors)
			}
			if len(t.LastErrors) > 10 {
				return fmt.Sprintf("the status of %s: controller %s has %d errors", s.inc(), t.Name, len(t.LastErrors))
			}
		}
		// targets
		for _, t := range s.stages {
			if t.critical {
				continue
			}
			var in map[string]M
			if o, k, ok := strings.Cut(t.in, "/"); ok {
				in = c.get(o, k)
			} else {
				in = c.w.srv.objs[t.in]
			}
			exp := map[string]M{}
			pre := ""
			if t.out == "Out" {
				pre = op + "-"
			}
			sums := map[string]int64{}
			for _, o := range in {
				sums[str(sp(o)["grp"])] += num(sp(o)["val"])
				if !t.gather {
					k, n := mk(onsp(o), pre+oname(o), nil, M{"spec": M{"val": num(sp(o)["val"]) + s.d, "grp": sp(o)["grp"], "inc": s.inc()}})
					exp[k] = n
				}
			}
			if t.gather {
				for g, v := range sums {
					k, n := mk("ns1", pre+g, nil, M{"spec": M{"val": v, "grp": g, "inc": s.inc()}})
					exp[k] = n
				}
			}
			got := map[string]M{}
			if t.out == "Out" {
				for k, o := range c.w.srv.objs["Out"] {
					if strings.HasPrefix(oname(o), pre) {
						got[k] = o
					}
				}
			} else {
				got = c.get(op, t.out)
			}
			for k, o := range got {
				if exp[k] == nil && (str(sp(o)["inc"]) != s.inc() || c.atBoot[k]) {
					delete(got, k) // left by an earlier spec or process
				}
			}
			if d := diffMaps(contents(exp, nil), contents(got, nil)); d != "" {
				var le []string
				for _, st := range cur.GetStatus(0).Controllers {
					le = append(le, st.LastErrors...)
				}
				return fmt.Sprintf("%s controller %s (%s to %s): %s errors: %v", s.inc(), t.name, t.in, t.out, d, le)
			}
		}
	}
	return c.discovery()
}

// discovery compares what the extension API server advertises and serves with
// the views of the declared operators.
func (c *octl) discovery() string {
	if !c.withAPI {
		return ""
	}
	r := c.ext.raw("GET", "/apis", "", "", "Accept", "application/json;g=apidiscovery.k8s.io;v=v2;as=APIGroupDiscoveryList")
	if r.err != nil || r.code != 200 {
		return fmt.Sprintf("discovery: %d %v %s", r.code, r.err, short(string(r.body)))
	}
	found := map[string]string{}
	l, _ := r.obj["items"].([]any)
	for _, e := range l {
		n := str(meta(e.(M))["name"])
		op, ok := strings.CutSuffix(n, ".view.dcontroller.io")
		if !ok {
			continue
		}
		found[op] = ""
		vs, _ := e.(M)["versions"].([]any)
		for _, v := range vs {
			rs, _ := v.(M)["resources"].([]any)
			for _, x := range rs {
				rk, _ := x.(M)["responseKind"].(M)
				found[op] += str(rk["kind"]) + ","
			}
		}
	}
	for i := 0; i < 3; i++ {
		op := fmt.Sprintf("o%d", i)
		must, may := map[string]bool{}, map[string]bool{}
		if s := c.specs[op]; s != nil {
			for _, t := range s.stages {
				if t.critical {
					for _, k := range []string{"Zed", "P", "Q"} {
						may[k] = true
					}
					continue
				}
				if t.out != "Out" {
					must[t.out] = true
				}
				if o, k, ok := strings.Cut(t.in, "/"); ok && o == op {
					must[k] = true
				}
			}
		}
		for _, k := range strings.Split(strings.TrimSuffix(found[op], ","), ",") {
			if k != "" && !must[k] && !may[k] {
				return fmt.Sprintf("the API server advertises %s of %s, whose spec is %+v", found[op], op, c.specs[op])
			}
			delete(must, k)
		}
		if len(must) > 0 {
			return fmt.Sprintf("the API server advertises %q of %s, whose spec is %+v", found[op], op, c.specs[op])
		}
		if _, ok := found[op]; ok && found[op] == "" {
			return fmt.Sprintf("the API server advertises group %s with no kinds", op)
		}
		for _, k := range []string{"X", "M"} {
			in := strings.Contains(found[op], k+",")
			r := c.ext.raw("GET", fmt.Sprintf("/apis/%s.view.dcontroller.io/v1alpha1/%s", op, strings.ToLower(k)), "", "")
			if r.err != nil || (r.code == 200) != in {
				return fmt.Sprintf("the API server advertises %q of %s and answers %d %v to a list of %s", found[op], op, r.code, r.err, k)
			}
			if !in {
				continue
			}
			l, _ := r.obj["items"].([]any)
			got := map[string]M{}
			for _, e := range l {
				got[objKey(e.(M))] = e.(M)
			}
			if d := diffMaps(contents(c.get(op, k), nil), contents(got, nil)); d != "" {
				return fmt.Sprintf("views %s of %s in the store and through the API: %s", k, op, d)
			}
		}
	}
	return ""
}

func (s *ospec) stage(name string) *ostage {
	for i := range s.stages {
		if s.stages[i].name == name {
			return &s.stages[i]
		}
	}
	return &ostage{}
}

func (c *octl) settle(bound, stay time.Duration) string {
	start := now()
	okSince := time.Duration(-1)
	for {
		if c.done {
			return fmt.Sprintf("the operator controller stopped by itself: %v", c.err)
		}
		d := c.diff()
		if d == "" {
			if okSince < 0 {
				okSince = now()
			}
			if now()-okSince >= stay {
				return ""
			}
		} else {
			okSince = -1
			if now()-start > bound {
				return d
			}
		}
		time.Sleep(time.Second)
	}
}

func runOpctl(w *world) error {
	c := &octl{w: w, specs: map[string]*ospec{}, all: map[string]*ospec{}, count: map[string]int{}, newest: map[string]int{},
		absent: map[string]int64{}, atBoot: map[string]bool{}, shared: w.p.cfgB("shared")}
	c.c = &conv{w: w}
	c.withAPI = w.p.cfgB("api")
	for i := 0; i < 3; i++ {
		c.absent[fmt.Sprintf("o%d", i)] = -1
	}
	w.srv.onWrite = func(r *writeRec) {
		w.log("api %s %s %s/%s noop=%v", r.Client, r.Verb, r.Kind, r.Key, r.Noop)
		if strings.HasPrefix(r.Client, "op-") && r.Kind == "Out" && r.Verb != "delete" && r.New != nil {
			c.wrote("Out/"+r.Key, str(sp(r.New)["inc"]))
		}
	}
	c.restart = make(chan bool, 1)
	go c.poll()
	go func() {
		for range c.restart {
			c.dead()
		}
	}()
	for i, o := range w.p.Ops {
		if o.T < 0 { // before the controller starts
			if err := c.apply(o); err != nil {
				return err
			}
			w.p.Ops[i].Do = "nop"
		}
	}
	if d := time.Duration(w.p.StartAt)*time.Millisecond - now(); d > 0 {
		time.Sleep(d)
	}
	c.boot()
	all := c.c.users(c.apply)
	if !c.c.await(all) {
		return fmt.Errorf("steps did not end")
	}
	if d := time.Duration(w.p.EndAt)*time.Millisecond - now(); d > 0 {
		time.Sleep(d)
	}
	c.c.quiet()
	if d := c.settle(3000*time.Second, 30*time.Second); d != "" {
		w.fail("diverged", "%.0fs after the last change: %s", (now() - time.Duration(w.p.EndAt)*time.Millisecond).Seconds(), d)
		return nil
	}
	w.counts["operators"] += len(c.specs)
	// everybody who runs reacts to changes: only the declared operators may
	c.quietT = now()
	for _, kind := range []string{"Alpha", "Beta"} {
		for _, key := range []string{"ns1/a", "ns2/new"} {
			if err := c.apply(opStep{Do: "put", S: kind, Key: key, Obj: M{"spec": M{"val": int64(77), "grp": "g7"}}}); err != nil {
				return err
			}
		}
	}
	time.Sleep(3 * time.Second)
	if d := c.settle(300*time.Second, 10*time.Second); d != "" {
		w.fail("not-running", "after all had settled the sources changed: %s", d)
	}
	return nil
}

func genC13(r *rng) *plan {
	p := &plan{Prop: "C13", Scen: "opctl", Seed: r.next(), Sched: genSched(r), Cfg: M{}}
	p.Cfg["shared"] = r.p(3, 4)
	p.Cfg["lat_us"] = pick(r, []int64{1, 1000, 5000, 50000})
	p.Cfg["wlat_us"] = pick(r, []int64{1, 1000, 20000, 300000})
	span := pick(r, []int64{5, 100, 1000, 10000, 60000})
	kinds := []string{"copy", "copy", "view", "chain", "two", "gather", "partly", "broken"}
	if r.p(1, 3) {
		kinds = append(kinds, "malformed", "malformed")
	}
	if p.cfgB("shared") {
		kinds = append(kinds, "cross", "cross")
	}
	spec := func(i int, t int64, do string) opStep {
		o := opStep{T: t, Who: 10 + i, Do: do, Src: i, S: pick(r, kinds), N: r.i64(3)}
		if o.S == "cross" {
			o.Key = fmt.Sprintf("o%d", r.n(3))
			if o.Key == fmt.Sprintf("o%d", i) {
				o.S = "copy"
			}
		}
		return o
	}
	p.StartAt = pick(r, []int64{0, 0, 10, 200})
	for i, ops := 0, 1+r.n(3); i < ops; i++ {
		t := r.i64(span + 1)
		if r.p(1, 3) { // exists before the controller starts
			t = 0
			p.Ops = append(p.Ops, spec(i, -1, "apply"))
		}
		n := r.n(7)
		for k := 0; k < n; k++ {
			do := pick(r, []string{"apply", "apply", "apply", "delete", "replace", "touch"})
			p.Ops = append(p.Ops, spec(i, t, do))
			if r.p(1, 2) {
				t += r.i64(2*span/int64(n) + 1)
			}
		}
		if r.p(3, 4) {
			p.Ops = append(p.Ops, spec(i, t, "apply"))
		}
	}
	keys := []string{"ns1/a", "ns1/b", "ns2/a"}
	for i, n := 0, r.n(14); i < n; i++ {
		o := opStep{T: r.i64(2*span + 1), Who: r.n(3), S: pick(r, []string{"Alpha", "Beta"}), Do: "put"}
		o.Key = keys[o.Who]
		if r.p(1, 4) {
			o.Do = "del"
		} else {
			o.Obj = M{"spec": M{"val": r.i64(4), "grp": fmt.Sprintf("g%d", r.n(2)), "n": int64(i)}}
		}
		p.Ops = append(p.Ops, o)
	}
	p.EndAt = 2*span + 500
	if r.p(1, 2) {
		genFaults(r, p, 1+r.n(3), 2*span+300)
		for _, f := range p.Faults {
			if f.To > p.EndAt {
				p.EndAt = f.To
			}
		}
	}
	if r.p(1, 6) {
		p.Ops = append(p.Ops, opStep{T: r.i64(2*span + 300), Who: 15, Do: "crash"})
	}
	p.sortOps()
	return p
}
