package main

import (
	"bufio"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"sort"
	"strings"
	"time"

	"github.com/l7mp/dcontroller/pkg/cache"
)

// The shutdown scenario (C17): an operator, an operator controller or an API
// server is stopped at an instant of the run's choosing: before or during
// start-up, around a request or a write, or with errors, events, HTTP
// requests and watches in flight.

type stopRun struct {
	w       *world
	c       *conv
	cancel  func()
	fired   time.Duration // when the stop was asked for (-1: not yet)
	done    time.Duration // when it was over (-1: not yet)
	n       int64         // requests or writes to wait for
	client  func() string
	why     string
	node    uint32
	watches int // open watches on the extension API
	reqs    int // HTTP requests not yet answered
}

// stop asks for the stop.
func (s *stopRun) stop(why string) {
	if s.fired >= 0 {
		return
	}
	s.fired, s.why = now(), why
	s.w.log("stop (%s)", why)
	s.w.srv.fired["stop_"+why]++
	s.cancel()
	go func() { // slow machines get well, eventually
		time.Sleep(3 * time.Second)
		dsimQuiet()
	}()
}

// arm waits for the instant of the stop.
func (s *stopRun) arm() {
	s.fired, s.done = -1, -1
	trig := s.w.p.cfgS("trig")
	s.n = s.w.p.cfgI("trig_n")
	old := s.w.srv.onWrite
	s.w.srv.onWrite = func(r *writeRec) {
		if old != nil {
			old(r)
		}
		if r.Client == s.client() && trig == "write" && s.fired < 0 {
			if s.n--; s.n < 0 {
				s.stop("write")
			}
		}
	}
	s.w.srv.onReq = func(client, method, path string) {
		if client != s.client() {
			return
		}
		if s.done >= 0 && (method != "GET" || now() > s.done+stopBound) {
			s.w.fail("request-after-stop", "%s %s %.3fs after the stop was over (%.3fs after it was asked for)", method, path, (now() - s.done).Seconds(), (now() - s.fired).Seconds())
		}
		if trig == "req" && s.fired < 0 {
			if s.n--; s.n < 0 {
				s.stop("request")
			}
		}
	}
	go func() {
		t := time.Duration(s.w.p.EndAt) * time.Millisecond
		if trig == "time" {
			t = time.Duration(s.w.p.cfgI("stop_us")) * time.Microsecond
		}
		if d := t - now(); d > 0 {
			time.Sleep(d)
		}
		s.stop("time")
	}()
}

// bound is the time a stop may take.
const stopBound = 100 * time.Second

// over waits for something to end after the stop.
func (s *stopRun) over(what string, ch <-chan error) bool {
	for s.fired < 0 {
		time.Sleep(20 * time.Millisecond)
	}
	t := s.fired + stopBound - now()
	if t < time.Millisecond {
		t = time.Millisecond
	}
	select {
	case err := <-ch:
		s.w.log("%s has stopped: %v", what, err)
		if err != nil {
			s.w.fail("stop-error", "%s: stopped by its context after %.3fs with error: %v", what, (now() - s.fired).Seconds(), err)
		}
		k := "stop_ms_max_" + strings.ReplaceAll(what, " ", "_")
		if ms := int((now() - s.fired).Milliseconds()); ms > s.w.counts[k] {
			s.w.counts[k] = ms
		}
		return true
	case <-time.After(t):
		s.w.fail("no-stop", "%s is still running %.0fs after its context was cancelled: %s", what, stopBound.Seconds(), strings.Join(repoGoroutines(), "\n"))
		return false
	}
}

// leftovers checks that the goroutines of the stopped parts are gone.
func (s *stopRun) leftovers(node uint32) {
	var gs []string
	for i := 0; i < 30; i++ {
		gs = gs[:0]
		for _, g := range nodeGoroutines(node) {
			if !spared(g) {
				gs = append(gs, g)
			}
		}
		if len(gs) == 0 {
			return
		}
		time.Sleep(2 * time.Second)
	}
	sort.Strings(gs)
	s.w.fail("goroutine-leak", "%d goroutines left %.0fs after the stop: %s", len(gs), (now() - s.fired).Seconds(), strings.Join(gs, "\n\n"))
}

// spared goroutines are allowed to live on.
func spared(g string) bool {
	return false
}

func runStop(w *world) error {
	s := &stopRun{w: w, node: 1}
	switch w.p.cfgS("mode") {
	case "op":
		return s.runOp()
	case "ctl":
		return s.runCtl()
	default:
		return s.runAPI()
	}
}

func (s *stopRun) runOp() error {
	w := s.w
	c := newConv(w)
	s.c = c
	inner := c.t.Ctrls
	t := *c.t
	extra := ""
	for _, m := range strings.Split(w.p.cfgS("misconf"), ",") {
		for j := range misconfs {
			if m == misconfs[j].name && m != "" {
				extra += misconfs[j].yaml
			}
		}
	}
	if p := w.p.cfgS("period"); p != "" {
		extra += "- {name: tick, sources: [{kind: T, type: Periodic, parameters: {period: " + p + "}}], pipeline: [{'@project': {metadata: {name: tick}, spec: {v: 1}}}], target: {kind: Ticked, type: Updater}}\n"
	}
	if w.p.cfgB("oneshot") {
		extra += "- {name: once, sources: [{kind: O, type: OneShot}], pipeline: [{'@project': {metadata: {name: once}, spec: {v: 1}}}], target: {kind: Onced, type: Updater}}\n"
	}
	t.Ctrls = func(m modes) string { return inner(m) + extra }
	c.t = &t
	o := hostOpts{node: s.node, errCap: int(w.p.cfgI("errcap")), startAt: time.Duration(w.p.StartAt) * time.Millisecond}
	reader := w.p.cfgS("reader")
	o.noErrRead = reader == "none"
	o.noErrCh = reader == "nochan"
	o.slowErr = time.Duration(w.p.cfgI("slow_ms")) * time.Millisecond
	var shared *cache.CompositeCache
	shCtx, shCancel := context.WithCancel(context.Background())
	shDone := make(chan error, 1)
	if w.p.cfgB("shared") {
		shared = newShared()
		o.shared = shared
		go func() {
			dsimSetNode(s.node)
			shDone <- shared.Start(shCtx)
		}()
	}
	s.client = func() string { return "op" }
	s.cancel = func() {
		if c.h != nil {
			c.h.cancel()
		}
	}
	h, err := w.newHost(opName, c.t.Ctrls(c.m), o)
	if err != nil {
		return err
	}
	c.h = h
	c.views = h.op.GetClient()
	s.arm()
	all := c.users(func(o opStep) error {
		if c.serverStep(o) {
			return nil
		}
		return c.apply(o)
	})
	if !s.over("operator", h.done) {
		return nil
	}
	s.done = now()
	// what it had written stays as it is
	snap := func() []map[string]string {
		var res []map[string]string
		for i := range c.t.Tgts {
			m, err := c.actual(i)
			if err != nil {
				w.fail("user-op", "list: %v", err)
			}
			res = append(res, contents(m, nil))
		}
		return res
	}
	before := snap()
	shCancel()
	if shared != nil && !s.over("shared cache", shDone) {
		return nil
	}
	if !c.await(all) {
		w.fail("blocked", "the users' steps do not end: %s", strings.Join(repoGoroutines(), "\n"))
		return nil
	}
	// the users go on after the stop
	for i := range c.t.Srcs {
		for _, key := range []string{"ns1/a", "ns2/new"} {
			if err := c.apply(opStep{Do: "put", Src: i, Key: key, Obj: M{"spec": M{"val": int64(7), "key": "k7", "grp": "g7", "on": true, "list": []any{int64(7)}}, "labels": M{"tier": tierOf(key)}}}); err != nil {
				return err
			}
		}
	}
	time.Sleep(pick(w.r, []time.Duration{time.Second, 100 * time.Second, 400 * time.Second}))
	for i, m := range snap() {
		if d := diffMaps(before[i], m); d != "" {
			w.fail("write-after-stop", "target %s changed after the operator had stopped: %s", c.t.Tgts[i].Kind, d)
		}
	}
	s.leftovers(s.node)
	return nil
}

func (s *stopRun) runCtl() error {
	w := s.w
	c := &octl{w: w, specs: map[string]*ospec{}, all: map[string]*ospec{}, count: map[string]int{}, newest: map[string]int{},
		absent: map[string]int64{}, atBoot: map[string]bool{}, shared: w.p.cfgB("shared"), noWatch: true}
	c.c = &conv{w: w}
	c.withAPI = w.p.cfgB("api")
	for i := 0; i < 3; i++ {
		c.absent[fmt.Sprintf("o%d", i)] = -1
	}
	w.srv.onWrite = func(r *writeRec) {
		w.log("api %s %s %s/%s noop=%v", r.Client, r.Verb, r.Kind, r.Key, r.Noop)
	}
	c.restart = make(chan bool, 1)
	go func() {
		for range c.restart {
			c.dead()
		}
	}()
	for i, o := range w.p.Ops {
		if o.T < 0 { // before the controller starts
			if err := c.apply(o); err != nil {
				return err
			}
			w.p.Ops[i].Do = "nop"
		}
	}
	if d := time.Duration(w.p.StartAt)*time.Millisecond - now(); d > 0 {
		time.Sleep(d)
	}
	s.client = func() string { return c.client }
	var ext *extAPI
	s.cancel = func() {
		c.cancel()
		if ext = c.ext; ext != nil {
			ext.stop()
		}
	}
	c.boot()
	s.arm()
	all := c.c.users(func(o opStep) error {
		if strings.HasPrefix(o.Do, "http-") {
			if c.ext != nil {
				s.http(c.ext, o, rawPath(fmt.Sprintf("o%d", o.Src), o.S, "ns1", ""))
			}
			return nil
		}
		return c.apply(o)
	})
	for s.fired < 0 || c.ctl == nil {
		time.Sleep(20 * time.Millisecond)
		if s.fired >= 0 && now() > s.fired+stopBound && c.ctl == nil {
			w.counts["never_started"]++
			return nil
		}
	}
	done := make(chan error, 1)
	go func() {
		for !c.done {
			time.Sleep(5 * time.Millisecond)
		}
		done <- c.err
	}()
	if !s.over("operator controller", done) || !s.over("shared cache", c.caches) {
		return nil
	}
	s.done = now()
	if c.withAPI {
		if ext == nil { // it was created after the stop
			c.ext.stop()
		}
		if !s.over("API server", c.ext.done) {
			return nil
		}
		s.apiGone(c.ext)
	}
	if !c.c.await(all) {
		w.fail("blocked", "the users' steps do not end: %s", strings.Join(repoGoroutines(), "\n"))
		return nil
	}
	for _, kind := range []string{"Alpha", "Beta"} {
		for _, key := range []string{"ns1/a", "ns2/new"} {
			if err := c.apply(opStep{Do: "put", S: kind, Key: key, Obj: M{"spec": M{"val": int64(77), "grp": "g7"}}}); err != nil {
				return err
			}
		}
	}
	time.Sleep(pick(w.r, []time.Duration{time.Second, 100 * time.Second, 400 * time.Second}))
	if c.ext != nil {
		c.ext.http.CloseIdleConnections()
	}
	s.leftovers(c.node)
	return nil
}

// http performs a client's step on the extension API.
func (s *stopRun) http(a *extAPI, o opStep, path string) {
	w := s.w
	w.counts[o.Do]++
	url := "http://" + a.addr + path
	begun := now()
	switch o.Do {
	case "http-watch":
		s.reqs++
		go func() {
			resp, err := a.http.Get(url + "?watch=true&timeoutSeconds=3000")
			s.reqs--
			if err != nil {
				return
			}
			defer resp.Body.Close()
			if resp.StatusCode != 200 {
				return
			}
			s.watches++
			sc := bufio.NewReader(resp.Body)
			for {
				l, err := sc.ReadString('\n')
				if err != nil {
					break
				}
				w.counts["watch_events"]++
				_ = l
			}
			s.watches--
			w.log("watch of %s ended", path)
		}()
	case "http-list":
		s.reqs++
		resp, err := a.http.Get(url)
		if err == nil {
			_, _ = io.ReadAll(resp.Body)
			resp.Body.Close()
		}
		s.reqs--
	case "http-post":
		s.reqs++
		b, _ := json.Marshal(M{"apiVersion": fmt.Sprintf("%s.view.dcontroller.io/v1alpha1", fmt.Sprintf("o%d", o.Src)), "kind": o.S, "metadata": M{"name": fmt.Sprintf("p%d", o.N), "namespace": "ns1"}, "spec": M{"n": o.N}})
		resp, err := a.http.Post(url, "application/json", strings.NewReader(string(b)))
		if err == nil {
			_, _ = io.ReadAll(resp.Body)
			resp.Body.Close()
			if resp.StatusCode < 300 && s.done >= 0 && begun > s.done {
				w.fail("write-after-stop", "POST %s begun after the stop was answered %d", path, resp.StatusCode)
			}
		}
		s.reqs--
	case "http-half":
		conn, err := a.net.dial(context.Background(), "tcp", a.addr)
		if err != nil {
			return
		}
		switch o.N % 4 {
		case 0: // nothing is sent
		case 1: // a part of the head
			fmt.Fprintf(conn, "GET %s HTTP/1.1\r\nHos", path)
		case 2: // a part of the body
			fmt.Fprintf(conn, "POST %s HTTP/1.1\r\nHost: x\r\nContent-Type: application/json\r\nContent-Length: 1000\r\n\r\n{\"kind\":", path)
		default: // a watch that is not read
			fmt.Fprintf(conn, "GET %s?watch=true&timeoutSeconds=3000 HTTP/1.1\r\nHost: x\r\n\r\n", path)
		}
	}
}

// apiGone checks that the API server has ended its connections and its port
// is free.
func (s *stopRun) apiGone(a *extAPI) {
	for i := 0; i < 60 && (s.watches > 0 || s.reqs > 0 || a.net.open() > 0); i++ {
		time.Sleep(time.Second)
	}
	if s.watches > 0 || s.reqs > 0 {
		s.w.fail("open-requests", "%d watches and %d requests still open %.0fs after the API server was stopped", s.watches, s.reqs, (now() - s.fired).Seconds())
	}
	l, err := a.net.listen("tcp", a.addr)
	if err != nil {
		s.w.fail("port-in-use", "%s %.0fs after the API server was stopped: %v", a.addr, (now() - s.fired).Seconds(), err)
		return
	}
	l.Close()
	if n := a.net.open(); n > 0 {
		s.w.fail("open-connections", "%d connections still open %.0fs after the API server was stopped", n, (now() - s.fired).Seconds())
	}
}

func (s *stopRun) runAPI() error {
	w := s.w
	hs, _, _, _, err := storeHandles()
	if err != nil {
		return err
	}
	cl := hs[2].c
	ready := make(chan error, 1)
	var a *extAPI
	go func() {
		dsimSetNode(s.node)
		var err error
		a, err = newExtAPIAt(w, cl, time.Duration(w.p.StartAt)*time.Millisecond)
		ready <- err
	}()
	if err := <-ready; err != nil {
		return err
	}
	if err := a.s.RegisterGVKs(storeGVKs()); err != nil {
		return err
	}
	s.client = func() string { return "" }
	s.cancel = a.stop
	s.arm()
	c := &conv{w: w}
	all := c.users(func(o opStep) error {
		op, kind := storeKinds[o.Src%len(storeKinds)].op, storeKinds[o.Src%len(storeKinds)].kind
		switch {
		case strings.HasPrefix(o.Do, "http-"):
			s.http(a, opStep{Do: o.Do, S: kind, N: o.N}, rawPath(op, kind, "ns1", ""))
		case o.Do == "put":
			v := newView(op, kind, fmt.Sprintf("ns1/u%d", o.N), M{"spec": M{"t": o.T}})
			if err := cl.Create(context.Background(), v); err != nil {
				_ = cl.Delete(context.Background(), v)
			}
		case o.Do == "reg":
			_ = a.s.RegisterGVKs(storeGVKs())
		case o.Do == "unreg":
			a.s.UnregisterGVKs(storeGVKs())
		}
		return nil
	})
	if !s.over("API server", a.done) {
		return nil
	}
	s.done = now()
	if !c.await(all) {
		w.fail("blocked", "requests to the extension API are not answered: %s", strings.Join(repoGoroutines(), "\n"))
		return nil
	}
	s.apiGone(a)
	a.http.CloseIdleConnections()
	s.leftovers(s.node)
	return nil
}

var _ = http.MethodGet

func genC17(r *rng) *plan {
	var p *plan
	mode := pick(r, []string{"op", "op", "op", "ctl", "ctl", "api", "api"})
	switch mode {
	case "op":
		p = genConvBase(r, "C17", tmplNames(func(t *tmpl) bool { return true }))
		span := pick(r, []int64{0, 50, 1000, 10000})
		p.StartAt = pick(r, []int64{0, 0, 5, span / 2, span})
		genSteps(r, p, 1+r.n(14), span)
		p.EndAt = span + 100 + r.i64(2000)
		if r.p(1, 3) {
			genFaults(r, p, 1+r.n(4), span+1000)
		}
		p.Cfg["reader"] = pick(r, []string{"prompt", "prompt", "slow", "none", "none", "nochan"})
		p.Cfg["errcap"] = pick(r, []int64{0, 1, 16, 64})
		p.Cfg["slow_ms"] = 0
		if p.cfgS("reader") == "slow" {
			p.Cfg["slow_ms"] = pick(r, []int64{10, 1000, 20000})
		}
		mis := ""
		if r.p(1, 2) {
			for i, n := 0, 1+r.n(3); i < n; i++ {
				if m := misconfs[r.n(len(misconfs))].name; m != "" && !strings.Contains(","+mis+",", ","+m+",") {
					mis += "," + m
				}
			}
		}
		p.Cfg["misconf"] = strings.TrimPrefix(mis, ",")
		p.Cfg["period"] = pick(r, []string{"", "", "1ms", "500ms", "10s"})
		p.Cfg["oneshot"] = r.p(1, 3)
	case "ctl":
		p = genC13(r)
		p.Cfg["api"] = r.p(3, 4)
		p.Cfg["net_us"] = pick(r, []int64{0, 1, 100, 3000})
		var ops []opStep
		for _, o := range p.Ops {
			if o.Do != "crash" {
				ops = append(ops, o)
			}
		}
		p.Ops = ops
		for i, n := 0, r.n(6); i < n; i++ {
			p.Ops = append(p.Ops, opStep{T: p.StartAt + r.i64(p.EndAt), Who: 20 + i, Do: pick(r, []string{"http-watch", "http-watch", "http-list", "http-post", "http-half"}), Src: r.n(3), S: pick(r, []string{"x", "m"}), N: r.i64(8)})
		}
		p.sortOps()
	default:
		p = &plan{Seed: r.next(), Sched: genSched(r), Cfg: M{}}
		p.Cfg["net_us"] = pick(r, []int64{0, 1, 100, 3000})
		span := pick(r, []int64{0, 10, 1000, 10000})
		p.StartAt = pick(r, []int64{0, 0, 5})
		kinds := 1 + r.n(4)
		for i, n := 0, r.n(20); i < n; i++ {
			o := opStep{T: r.i64(span + 1), Who: r.n(5), Do: pick(r, []string{"http-watch", "http-watch", "http-watch", "http-list", "http-post", "http-half", "put", "put", "put", "put", "reg", "unreg"}), Src: r.n(kinds), N: r.i64(8)}
			if (o.Do == "http-watch" || o.Do == "reg") && r.p(2, 3) {
				o.T /= 10
			}
			p.Ops = append(p.Ops, o)
		}
		p.sortOps()
		p.EndAt = span + r.i64(200)
	}
	p.Prop, p.Scen = "C17", "stop"
	p.Cfg["mode"] = mode
	trig := pick(r, []string{"time", "time", "req", "write"})
	if mode == "api" {
		trig = "time"
	}
	p.Cfg["trig"] = trig
	p.Cfg["trig_n"] = r.i64(pick(r, map[bool][]int64{true: {1, 1, 3, 8}, false: {3, 12, 40}}[trig == "write"]))
	switch r.n(4) {
	case 0: // around the start
		p.Cfg["stop_us"] = p.StartAt*1000 + r.i64(pick(r, []int64{10, 1000, 30000, 300000}))
	case 1: // before it
		p.Cfg["stop_us"] = r.i64(p.StartAt*1000 + 1)
	default:
		p.Cfg["stop_us"] = p.StartAt*1000 + r.i64(p.EndAt*1000+1)
	}
	return p
}
