package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"

	"k8s.io/apimachinery/pkg/labels"
	utiljson "k8s.io/apimachinery/pkg/util/json"
	"k8s.io/client-go/rest"
)

// The simulated Kubernetes API server: an in-process http.RoundTripper over an
// atomic object store with resource versions, watches and a fault model. It is
// never instrumented with preemption points and never blocks while it touches
// the store, so every operation on it is atomic.

type M = map[string]any

type kindInfo struct {
	Group, Version, Kind, Plural string
	Namespaced, Status, CRD      bool
}

var kinds = []kindInfo{
	{"", "v1", "ConfigMap", "configmaps", true, false, false},
	{"", "v1", "Secret", "secrets", true, false, false},
	{"", "v1", "Service", "services", true, true, false},
	{"", "v1", "Pod", "pods", true, true, false},
	{"apps", "v1", "Deployment", "deployments", true, true, false},
	{"dcontroller.io", "v1alpha1", "Operator", "operators", false, true, true},
	{"sim.io", "v1", "Alpha", "alphas", true, true, true},
	{"sim.io", "v1", "Beta", "betas", true, true, true},
	{"sim.io", "v1", "Gamma", "gammas", true, true, true},
	{"sim.io", "v1", "Out", "outs", true, true, true},
	{"sim.io", "v1", "Out2", "out2s", true, false, true},
}

func kindByName(kind string) *kindInfo {
	for i := range kinds {
		if kinds[i].Kind == kind {
			return &kinds[i]
		}
	}
	return nil
}

type apiEvent struct {
	rv   int64
	kind string
	typ  string // ADDED MODIFIED DELETED
	obj  M
	old  M // content before (MODIFIED)
}

type apiFault struct {
	From  int64  `json:"from"` // ms
	To    int64  `json:"to"`
	Kind  string `json:"kind"`
	Per   int    `json:"per,omitempty"`   // 1 in Per requests
	Verbs string `json:"verbs,omitempty"` // "", "w" (writes), "r" (reads)
	Only  string `json:"only,omitempty"`  // kind filter
}

type writeRec struct {
	Seq    int64
	T      time.Duration
	Client string
	Verb   string
	Kind   string
	Key    string
	Noop   bool
	Old    M
	New    M
}

type watchConn struct {
	id     int
	kind   string
	ns     string
	sel    labels.Selector
	name   string
	q      []watchItem
	wake   chan struct{}
	closed bool
	endErr error
	lastAt time.Duration
	client string
}

type watchItem struct {
	at   time.Duration
	data []byte
	eof  bool
	err  error
}

type apiServer struct {
	rv        int64
	objs      map[string]map[string]M
	log       []apiEvent
	compacted int64
	watches   map[int]*watchConn
	nextWatch int
	uidc      int64

	r        *rng
	latMax   time.Duration // request latency bound
	watchLat time.Duration // watch event latency bound
	faults   []apiFault
	quiet    bool // no faults any more
	fired    map[string]int
	writes   []writeRec
	onWrite  func(w *writeRec)
	requests int
	reqSince map[string]int  // write requests per client
	lists    map[string]bool // client|kind: has listed
	kill     killPoint
	reject   func(client string, ki *kindInfo, o M) *apiErr // admission
	onReq    func(client, method, path string)              // a request begins
}

// killPoint makes a client's process die around one of its write requests.
type killPoint struct {
	client string
	n      int64 // the n-th write from now
	after  bool  // after the request took effect
}

func (s *apiServer) dieAt(client string, write, after bool) {
	k := &s.kill
	if !write || k.client == "" || k.client != client || k.after != after {
		return
	}
	if k.n--; k.n <= 0 {
		k.client = ""
		s.fired["crash_at_write"]++
		dsimKill(dsimNode())
		runtime.Gosched()
	}
}

// disconnect ends the watches of a dead client.
func (s *apiServer) disconnect(client string) {
	for id, w := range s.watches {
		if w.client == client {
			w.closed = true
			delete(s.watches, id)
		}
	}
}

func newAPIServer(r *rng) *apiServer {
	return &apiServer{objs: map[string]map[string]M{}, watches: map[int]*watchConn{}, r: r, rv: 100,
		fired: map[string]int{}, lists: map[string]bool{}, reqSince: map[string]int{}, latMax: 5 * time.Millisecond, watchLat: 5 * time.Millisecond}
}

func (s *apiServer) config(client string) *rest.Config {
	return &rest.Config{Host: "http://sim", Transport: &simTransport{s: s, client: client}, QPS: 500, Burst: 1000}
}

// ---- store ----

func meta(o M) M {
	m, _ := o["metadata"].(M)
	if m == nil {
		m = M{}
		o["metadata"] = m
	}
	return m
}
func str(v any) string { s, _ := v.(string); return s }
func objKey(o M) string {
	m := meta(o)
	return str(m["namespace"]) + "/" + str(m["name"])
}
func deepCopy(v any) any {
	switch x := v.(type) {
	case M:
		n := make(M, len(x))
		for k, e := range x {
			n[k] = deepCopy(e)
		}
		return n
	case []any:
		n := make([]any, len(x))
		for i, e := range x {
			n[i] = deepCopy(e)
		}
		return n
	default:
		return v
	}
}
func cp(o M) M { return deepCopy(o).(M) }

type apiErr struct {
	code   int
	reason string
	msg    string
}

func (e *apiErr) Error() string { return fmt.Sprintf("%d %s: %s", e.code, e.reason, e.msg) }

func (s *apiServer) bump() int64 { s.rv++; return s.rv }

func (s *apiServer) get(kind, key string) (M, bool) {
	o, ok := s.objs[kind][key]
	return o, ok
}

func contentEqual(a, b M) bool {
	x, y := cp(a), cp(b)
	for _, o := range []M{x, y} {
		m := meta(o)
		delete(m, "resourceVersion")
		delete(m, "generation")
		delete(m, "managedFields")
		if l, ok := m["labels"].(M); ok && len(l) == 0 {
			delete(m, "labels")
		}
		if l, ok := m["annotations"].(M); ok && len(l) == 0 {
			delete(m, "annotations")
		}
	}
	return reflect.DeepEqual(x, y)
}

func specPart(o M) M {
	n := M{}
	for k, v := range o {
		if k != "metadata" && k != "status" && k != "apiVersion" && k != "kind" {
			n[k] = v
		}
	}
	return n
}

func gen(o M) int64 {
	switch g := meta(o)["generation"].(type) {
	case int64:
		return g
	case float64:
		return int64(g)
	}
	return 0
}

func (s *apiServer) record(client, verb, kind, key string, old, new M, noop bool) {
	w := writeRec{Seq: int64(len(s.writes)), T: now(), Client: client, Verb: verb, Kind: kind, Key: key, Old: old, New: new, Noop: noop}
	s.writes = append(s.writes, w)
	s.reqSince[client]++
	if s.onWrite != nil {
		s.onWrite(&w)
	}
}

func (s *apiServer) create(client string, ki *kindInfo, o M) (M, *apiErr) {
	o = cp(o)
	m := meta(o)
	if str(m["name"]) == "" {
		return nil, &apiErr{422, "Invalid", "name required"}
	}
	if rv := str(m["resourceVersion"]); rv != "" {
		return nil, &apiErr{400, "BadRequest", "resourceVersion should not be set on objects to be created"}
	}
	if !ki.Namespaced && str(m["namespace"]) != "" {
		return nil, &apiErr{400, "BadRequest", "namespace on cluster-scoped object"}
	}
	if ki.Namespaced && str(m["namespace"]) == "" {
		return nil, &apiErr{400, "BadRequest", "namespace required"}
	}
	key := objKey(o)
	if s.reject != nil {
		if e := s.reject(client, ki, o); e != nil {
			return nil, e
		}
	}
	if _, ok := s.objs[ki.Kind][key]; ok {
		return nil, &apiErr{409, "AlreadyExists", key + " already exists"}
	}
	if ki.Status {
		delete(o, "status")
	}
	s.uidc++
	m["uid"] = fmt.Sprintf("uid-%d", s.uidc)
	m["creationTimestamp"] = time.Now().UTC().Format(time.RFC3339)
	m["resourceVersion"] = strconv.FormatInt(s.bump(), 10)
	if ki.CRD || ki.Kind != "ConfigMap" && ki.Kind != "Secret" {
		m["generation"] = int64(1)
	}
	o["apiVersion"], o["kind"] = gvString(ki), ki.Kind
	if s.objs[ki.Kind] == nil {
		s.objs[ki.Kind] = map[string]M{}
	}
	s.objs[ki.Kind][key] = o
	s.record(client, "create", ki.Kind, key, nil, o, false)
	s.emit(apiEvent{rv: s.rv, kind: ki.Kind, typ: "ADDED", obj: o})
	return o, nil
}

func (s *apiServer) update(client string, ki *kindInfo, o M, sub string) (M, *apiErr) {
	o = cp(o)
	m := meta(o)
	key := objKey(o)
	old, ok := s.objs[ki.Kind][key]
	if !ok {
		return nil, &apiErr{404, "NotFound", ki.Plural + " \"" + str(m["name"]) + "\" not found"}
	}
	om := meta(old)
	if s.reject != nil {
		if e := s.reject(client, ki, o); e != nil {
			return nil, e
		}
	}
	if rv := str(m["resourceVersion"]); rv != "" {
		if rv != str(om["resourceVersion"]) {
			return nil, &apiErr{409, "Conflict", "the object has been modified; please apply your changes to the latest version and try again"}
		}
	} else if ki.CRD {
		return nil, &apiErr{422, "Invalid", "metadata.resourceVersion: must be specified for an update"}
	}
	if u := str(m["uid"]); u != "" && u != str(om["uid"]) {
		return nil, &apiErr{409, "Conflict", "uid precondition failed"}
	}
	switch {
	case sub == "status":
		n := cp(old)
		if st, ok := o["status"]; ok {
			n["status"] = st
		} else {
			delete(n, "status")
		}
		o = n
	case ki.Status:
		if st, ok := old["status"]; ok {
			o["status"] = deepCopy(st)
		} else {
			delete(o, "status")
		}
	}
	m = meta(o)
	o["apiVersion"], o["kind"] = gvString(ki), ki.Kind
	m["uid"], m["creationTimestamp"] = om["uid"], om["creationTimestamp"]
	if g, ok := om["generation"]; ok {
		m["generation"] = g
	} else {
		delete(m, "generation")
	}
	if contentEqual(o, old) {
		s.record(client, "update", ki.Kind, key, old, old, true)
		return old, nil
	}
	if _, ok := om["generation"]; ok && !reflect.DeepEqual(specPart(o), specPart(old)) {
		m["generation"] = gen(old) + 1
	}
	m["resourceVersion"] = strconv.FormatInt(s.bump(), 10)
	s.objs[ki.Kind][key] = o
	s.record(client, "update", ki.Kind, key, old, o, false)
	s.emit(apiEvent{rv: s.rv, kind: ki.Kind, typ: "MODIFIED", obj: o, old: old})
	return o, nil
}

func (s *apiServer) del(client string, ki *kindInfo, key string) (M, *apiErr) {
	old, ok := s.objs[ki.Kind][key]
	if !ok {
		return nil, &apiErr{404, "NotFound", ki.Plural + " \"" + key + "\" not found"}
	}
	delete(s.objs[ki.Kind], key)
	o := cp(old)
	meta(o)["resourceVersion"] = strconv.FormatInt(s.bump(), 10)
	s.record(client, "delete", ki.Kind, key, old, nil, false)
	s.emit(apiEvent{rv: s.rv, kind: ki.Kind, typ: "DELETED", obj: o, old: old})
	return o, nil
}

func gvString(ki *kindInfo) string {
	if ki.Group == "" {
		return ki.Version
	}
	return ki.Group + "/" + ki.Version
}

func (s *apiServer) list(kind string) []M {
	keys := make([]string, 0, len(s.objs[kind]))
	for k := range s.objs[kind] {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	res := make([]M, len(keys))
	for i, k := range keys {
		res[i] = s.objs[kind][k]
	}
	return res
}

// ---- watches ----

func (w *watchConn) match(o M) bool {
	if w.ns != "" && str(meta(o)["namespace"]) != w.ns {
		return false
	}
	if w.name != "" && str(meta(o)["name"]) != w.name {
		return false
	}
	if w.sel != nil && !w.sel.Matches(labelsOf(o)) {
		return false
	}
	return true
}

func labelsOf(o M) labels.Set {
	l := labels.Set{}
	if m, ok := meta(o)["labels"].(M); ok {
		for k, v := range m {
			l[k] = str(v)
		}
	}
	return l
}

func (s *apiServer) emit(e apiEvent) {
	s.log = append(s.log, e)
	ids := make([]int, 0, len(s.watches))
	for id := range s.watches {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		s.feed(s.watches[id], e)
	}
}

func (s *apiServer) feed(w *watchConn, e apiEvent) {
	if w.closed || w.kind != e.kind {
		return
	}
	typ := e.typ
	switch typ {
	case "MODIFIED":
		was, is := w.match(e.old), w.match(e.obj)
		switch {
		case was && is:
		case is:
			typ = "ADDED"
		case was:
			typ = "DELETED"
		default:
			return
		}
	default:
		if !w.match(e.obj) {
			return
		}
	}
	b, _ := json.Marshal(M{"type": typ, "object": e.obj})
	w.push(watchItem{at: s.watchAt(w), data: append(b, '\n')})
}

func (s *apiServer) watchAt(w *watchConn) time.Duration {
	at := now() + time.Duration(s.r.i64(int64(s.watchLat)+1))
	if !s.quiet {
		ms := now().Milliseconds()
		for i := range s.faults {
			f := &s.faults[i]
			if f.Kind == "stallwatch" && ms >= f.From && ms < f.To && (f.Only == "" || f.Only == w.kind) {
				if t := time.Duration(f.To) * time.Millisecond; t > at {
					at = t
					s.fired["stallwatch"]++
				}
			}
		}
	}
	if at < w.lastAt {
		at = w.lastAt
	}
	w.lastAt = at
	return at
}

func (w *watchConn) push(it watchItem) {
	w.q = append(w.q, it)
	select {
	case w.wake <- struct{}{}:
	default:
	}
}

// dropWatches ends the watch streams that match, mid-flight.
func (s *apiServer) dropWatches(only string, err error) {
	ids := make([]int, 0, len(s.watches))
	for id := range s.watches {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		w := s.watches[id]
		if only != "" && w.kind != only {
			continue
		}
		w.closed = true
		w.q = nil
		w.push(watchItem{eof: true, err: err})
		delete(s.watches, id)
		s.fired["watchdrop"]++
	}
}

func (s *apiServer) compact() {
	s.compacted = s.rv
	s.fired["compact"]++
}

type watchBody struct {
	s      *apiServer
	w      *watchConn
	ctx    context.Context
	done   chan struct{}
	isDone bool
	rest   []byte
	until  <-chan time.Time
}

func (b *watchBody) Read(p []byte) (int, error) {
	for {
		if len(b.rest) > 0 {
			n := copy(p, b.rest)
			b.rest = b.rest[n:]
			return n, nil
		}
		select {
		case <-b.done:
			return 0, io.EOF
		case <-b.ctx.Done():
			return 0, b.ctx.Err()
		default:
		}
		if len(b.w.q) > 0 {
			it := b.w.q[0]
			if d := it.at - now(); d > 0 {
				t := time.NewTimer(d)
				select {
				case <-t.C:
				case <-b.done:
					t.Stop()
					return 0, io.EOF
				case <-b.ctx.Done():
					t.Stop()
					return 0, b.ctx.Err()
				case <-b.w.wake: // maybe dropped
					t.Stop()
				}
				continue
			}
			b.w.q = b.w.q[1:]
			if it.eof {
				b.w.q = []watchItem{it}
				if it.err != nil {
					return 0, it.err
				}
				return 0, io.EOF
			}
			b.rest = it.data
			continue
		}
		select {
		case <-b.w.wake:
		case <-b.until:
			b.Close()
			return 0, io.EOF
		case <-b.done:
			return 0, io.EOF
		case <-b.ctx.Done():
			return 0, b.ctx.Err()
		}
	}
}

func (b *watchBody) Close() error {
	if !b.isDone {
		b.isDone = true
		close(b.done)
	}
	b.w.closed = true
	delete(b.s.watches, b.w.id)
	return nil
}

// ---- HTTP ----

type simTransport struct {
	s      *apiServer
	client string
}

func jsonResp(req *http.Request, code int, v any) *http.Response {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return &http.Response{StatusCode: code, Status: strconv.Itoa(code) + " " + http.StatusText(code), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{"Content-Type": []string{"application/json"}}, Body: io.NopCloser(bytes.NewReader(b)), ContentLength: int64(len(b)), Request: req}
}

func statusObj(e *apiErr) M {
	return M{"kind": "Status", "apiVersion": "v1", "metadata": M{}, "status": "Failure", "message": e.msg, "reason": e.reason, "code": e.code}
}

func (t *simTransport) RoundTrip(req *http.Request) (*http.Response, error) {
	s := t.s
	ctx := req.Context()
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	var body []byte
	if req.Body != nil {
		body, _ = io.ReadAll(req.Body)
		req.Body.Close()
	}
	p, q := req.URL.Path, req.URL.Query()
	ki, ns, name, sub, ok := parsePath(p)
	write := req.Method != "GET"
	watch := q.Get("watch") == "true" || q.Get("watch") == "1"
	s.requests++
	if s.onReq != nil {
		s.onReq(t.client, req.Method, p)
	}
	if err := sleepCtx(ctx, time.Duration(s.r.i64(int64(s.latMax)+1))); err != nil {
		return nil, err
	}
	lost := false
	if !s.quiet && ok {
		ms := now().Milliseconds()
		for i := range s.faults {
			f := &s.faults[i]
			if ms < f.From || ms >= f.To || f.Only != "" && f.Only != ki.Kind {
				continue
			}
			if f.Verbs == "w" && !write || f.Verbs == "r" && write {
				continue
			}
			if f.Per > 1 && s.r.n(f.Per) != 0 {
				continue
			}
			switch f.Kind {
			case "e500", "e503", "e429":
				s.fired[f.Kind]++
				code, _ := strconv.Atoi(f.Kind[1:])
				reason := map[int]string{500: "InternalError", 503: "ServiceUnavailable", 429: "TooManyRequests"}[code]
				r := jsonResp(req, code, statusObj(&apiErr{code, reason, "injected"}))
				return r, nil
			case "reset":
				s.fired["reset"]++
				return nil, errReset
			case "lost":
				if write {
					lost = true
				}
			case "slow":
				s.fired["slow"]++
				if err := sleepCtx(ctx, time.Duration(s.r.i64(3000))*time.Millisecond); err != nil {
					return nil, err
				}
			case "partition":
				s.fired["partition"]++
				if err := sleepCtx(ctx, time.Duration(f.To)*time.Millisecond-now()); err != nil {
					return nil, err
				}
				return nil, errReset
			}
		}
	}
	if watch && ok {
		return s.serveWatch(req, ctx, t.client, ki, ns, q)
	}
	s.dieAt(t.client, write, false)
	code, v := s.serve(t.client, req.Method, p, q, body, ki, ns, name, sub, ok)
	resp := jsonResp(req, code, v) // snapshot now
	s.dieAt(t.client, write, true)
	if lost && code < 300 {
		s.fired["lost"]++
		return nil, errReset
	}
	if err := sleepCtx(ctx, time.Duration(s.r.i64(int64(s.latMax)+1))); err != nil {
		return nil, err
	}
	return resp, nil
}

func parsePath(p string) (ki *kindInfo, ns, name, sub string, ok bool) {
	parts := strings.Split(strings.Trim(p, "/"), "/")
	var group, version string
	switch {
	case len(parts) >= 3 && parts[0] == "api":
		version = parts[1]
		parts = parts[2:]
	case len(parts) >= 4 && parts[0] == "apis":
		group, version = parts[1], parts[2]
		parts = parts[3:]
	default:
		return
	}
	if len(parts) >= 3 && parts[0] == "namespaces" {
		ns = parts[1]
		parts = parts[2:]
	}
	for i := range kinds {
		k := &kinds[i]
		if k.Group == group && k.Version == version && k.Plural == parts[0] {
			ki = k
		}
	}
	if ki == nil {
		return
	}
	if len(parts) > 1 {
		name = parts[1]
	}
	if len(parts) > 2 {
		sub = parts[2]
	}
	return ki, ns, name, sub, true
}

func (s *apiServer) serveWatch(req *http.Request, ctx context.Context, client string, ki *kindInfo, ns string, q url.Values) (*http.Response, error) {
	if q.Get("sendInitialEvents") != "" {
		return jsonResp(req, 422, statusObj(&apiErr{422, "Invalid", "sendInitialEvents is forbidden"})), nil
	}
	rv, _ := strconv.ParseInt(q.Get("resourceVersion"), 10, 64)
	if rv < s.compacted {
		s.fired["expired"]++
		return jsonResp(req, 410, statusObj(&apiErr{410, "Expired", "too old resource version"})), nil
	}
	s.nextWatch++
	w := &watchConn{id: s.nextWatch, kind: ki.Kind, ns: ns, wake: make(chan struct{}, 1), client: client}
	if ls := q.Get("labelSelector"); ls != "" {
		w.sel, _ = labels.Parse(ls)
	}
	if fs := q.Get("fieldSelector"); strings.HasPrefix(fs, "metadata.name=") {
		w.name = strings.TrimPrefix(fs, "metadata.name=")
	}
	for _, e := range s.log {
		if e.rv > rv {
			s.feed(w, e)
		}
	}
	s.watches[w.id] = w
	b := &watchBody{s: s, w: w, ctx: ctx, done: make(chan struct{})}
	if ts, _ := strconv.Atoi(q.Get("timeoutSeconds")); ts > 0 {
		b.until = time.After(time.Duration(ts) * time.Second)
	}
	return &http.Response{StatusCode: 200, Status: "200 OK", Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{"Content-Type": []string{"application/json"}}, Body: b, ContentLength: -1, Request: req}, nil
}

func (s *apiServer) serve(client, method, p string, q url.Values, body []byte, ki *kindInfo, ns, name, sub string, ok bool) (int, any) {
	fail := func(e *apiErr) (int, any) { return e.code, statusObj(e) }
	if !ok {
		if v := discovery(p); v != nil {
			return 200, v
		}
		return fail(&apiErr{404, "NotFound", "the server could not find the requested resource: " + p})
	}
	key := ns + "/" + name
	switch method {
	case "GET":
		if name != "" {
			if o, ok := s.get(ki.Kind, key); ok {
				return 200, o
			}
			return fail(&apiErr{404, "NotFound", ki.Plural + " \"" + name + "\" not found"})
		}
		f := watchConn{ns: ns}
		if ls := q.Get("labelSelector"); ls != "" {
			f.sel, _ = labels.Parse(ls)
		}
		if fs := q.Get("fieldSelector"); strings.HasPrefix(fs, "metadata.name=") {
			f.name = strings.TrimPrefix(fs, "metadata.name=")
		}
		s.lists[client+"|"+ki.Kind] = true
		items := []any{}
		for _, o := range s.list(ki.Kind) {
			if f.match(o) {
				items = append(items, o)
			}
		}
		return 200, M{"kind": ki.Kind + "List", "apiVersion": gvString(ki), "metadata": M{"resourceVersion": strconv.FormatInt(s.rv, 10)}, "items": items}
	case "POST", "PUT", "PATCH":
		var o M
		if err := utiljson.Unmarshal(body, &o); err != nil {
			return fail(&apiErr{400, "BadRequest", err.Error()})
		}
		if method == "PATCH" {
			cur, ok := s.get(ki.Kind, key)
			if !ok {
				return fail(&apiErr{404, "NotFound", name + " not found"})
			}
			o = mergePatch(cp(cur), o)
		}
		m := meta(o)
		if str(m["namespace"]) == "" && ns != "" {
			m["namespace"] = ns
		}
		if name != "" && str(m["name"]) != name || ns != "" && str(m["namespace"]) != ns {
			return fail(&apiErr{400, "BadRequest", "the name of the object does not match the name on the URL"})
		}
		var res M
		var e *apiErr
		code := 200
		if method == "POST" {
			code = 201
			res, e = s.create(client, ki, o)
		} else {
			if sub != "" && (sub != "status" || !ki.Status) {
				return fail(&apiErr{404, "NotFound", "the server could not find the requested resource"})
			}
			res, e = s.update(client, ki, o, sub)
		}
		if e != nil {
			return fail(e)
		}
		return code, res
	case "DELETE":
		if _, e := s.del(client, ki, key); e != nil {
			return fail(e)
		}
		return 200, M{"kind": "Status", "apiVersion": "v1", "metadata": M{}, "status": "Success"}
	}
	return fail(&apiErr{405, "MethodNotAllowed", method})
}

func mergePatch(o, p M) M {
	for k, v := range p {
		if v == nil {
			delete(o, k)
			continue
		}
		if pm, ok := v.(M); ok {
			om, ok := o[k].(M)
			if !ok {
				om = M{}
			}
			o[k] = mergePatch(om, pm)
			continue
		}
		o[k] = v
	}
	return o
}

func discovery(p string) any {
	p = strings.Trim(p, "/")
	switch p {
	case "api":
		return M{"kind": "APIVersions", "versions": []any{"v1"}, "serverAddressByClientCIDRs": []any{}}
	case "apis":
		gs := []any{}
		seen := map[string]bool{}
		for i := range kinds {
			k := &kinds[i]
			if k.Group == "" || seen[k.Group] {
				continue
			}
			seen[k.Group] = true
			gs = append(gs, groupObj(k))
		}
		return M{"kind": "APIGroupList", "apiVersion": "v1", "groups": gs}
	}
	parts := strings.Split(p, "/")
	var group, version string
	switch {
	case len(parts) == 2 && parts[0] == "api":
		version = parts[1]
	case len(parts) == 3 && parts[0] == "apis":
		group, version = parts[1], parts[2]
	case len(parts) == 2 && parts[0] == "apis":
		for i := range kinds {
			if kinds[i].Group == parts[1] {
				g := groupObj(&kinds[i])
				g["kind"], g["apiVersion"] = "APIGroup", "v1"
				return g
			}
		}
		return nil
	default:
		return nil
	}
	rs := []any{}
	gv := version
	if group != "" {
		gv = group + "/" + version
	}
	for i := range kinds {
		k := &kinds[i]
		if k.Group != group || k.Version != version {
			continue
		}
		verbs := []any{"create", "delete", "get", "list", "patch", "update", "watch"}
		rs = append(rs, M{"name": k.Plural, "singularName": strings.ToLower(k.Kind), "namespaced": k.Namespaced, "kind": k.Kind, "verbs": verbs})
		if k.Status {
			rs = append(rs, M{"name": k.Plural + "/status", "singularName": "", "namespaced": k.Namespaced, "kind": k.Kind, "verbs": []any{"get", "patch", "update"}})
		}
	}
	if len(rs) == 0 {
		return nil
	}
	return M{"kind": "APIResourceList", "apiVersion": "v1", "groupVersion": gv, "resources": rs}
}

func groupObj(k *kindInfo) M {
	v := M{"groupVersion": k.Group + "/" + k.Version, "version": k.Version}
	return M{"name": k.Group, "versions": []any{v}, "preferredVersion": v}
}
