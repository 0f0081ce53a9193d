package main

import (
	"context"
	"encoding/json"
	"fmt"
	"net/url"
	"reflect"
	"sort"
	"strings"
	"time"

	apierrors "k8s.io/apimachinery/pkg/api/errors"
	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
	"sigs.k8s.io/controller-runtime/pkg/client"

	"github.com/l7mp/dcontroller/pkg/object"
)

// Plain HTTP requests of every kind, good and bad: each client has views of
// its own, so the answer to every request and what it leaves in the store
// follow from the requests before, whatever the other clients do.

type rawRun struct {
	w       *world
	a       *extAPI
	c       client.Client // a store client
	state   map[string]M  // op/Kind/ns/name to content
	applies int
	broke   bool // connections are being broken
	auth    *authRun
}

const mergePatchCT = "application/merge-patch+json"

func rawPath(op, kind, ns, name string) string {
	p := fmt.Sprintf("/apis/%s.view.dcontroller.io/v1alpha1/namespaces/%s/%s", op, ns, strings.ToLower(kind))
	if name != "" {
		p += "/" + name
	}
	return p
}

// rawBody is a view with the content.
func rawBody(op, kind, ns, name string, c M) M {
	o := cp(c)
	md := M{"namespace": ns}
	if name != "" {
		md["name"] = name
	}
	if l := o["labels"]; l != nil {
		md["labels"] = l
		delete(o, "labels")
	}
	o["metadata"] = md
	o["apiVersion"] = op + ".view.dcontroller.io/v1alpha1"
	o["kind"] = kind
	return o
}

// rawContent is the content of a view.
func rawContent(o M) M {
	c := cp(o)
	l, ok := meta(c)["labels"].(M)
	for _, k := range []string{"metadata", "apiVersion", "kind"} {
		delete(c, k)
	}
	if ok && len(l) > 0 {
		c["labels"] = l
	}
	return c
}

// rfc7386 is the reference of merge patches.
func rfc7386(t, p any) any {
	pm, ok := p.(M)
	if !ok {
		return p
	}
	tm, ok := t.(M)
	if !ok {
		tm = M{}
	}
	n := cp(tm)
	for k, v := range pm {
		if v == nil {
			delete(n, k)
		} else {
			n[k] = rfc7386(n[k], v)
		}
	}
	return n
}

func jsonNum(v any) any {
	b, _ := json.Marshal(v)
	var x any
	json.Unmarshal(b, &x) //nolint:errcheck
	return x
}

func sameJSON(a, b any) bool { return reflect.DeepEqual(jsonNum(a), jsonNum(b)) }

func (s *rawRun) store(op, kind, ns, name string) (M, error) {
	o := object.NewViewObject(op, kind)
	err := s.c.Get(context.Background(), client.ObjectKey{Namespace: ns, Name: name}, o)
	if apierrors.IsNotFound(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	return rawContent(o.Object), nil
}

func (s *rawRun) do(o opStep) error {
	i := strings.Split(o.Key, "/") // op/Kind/ns/name
	op, kind, ns, name := i[0], i[1], i[2], i[3]
	key := o.Key
	cur := s.state[key]
	s.w.counts["op_"+o.Do]++
	path, coll := rawPath(op, kind, ns, name), rawPath(op, kind, ns, "")
	dry := o.S == "dry"
	if dry {
		path += "?dryRun=All"
		coll += "?dryRun=All"
	}
	var r rawResp
	var codes []int
	var want M // the object answered
	next := cur
	js := func(v any) string { b, _ := json.Marshal(v); return string(b) }
	if o.Obj == nil {
		o.Obj = M{}
	}
	raw, verdict := s.a.raw, mayPass
	if s.auth != nil {
		if o.Obj != nil && (o.Do == "post" || o.Do == "put" || o.Do == "merge" || o.Do == "apply" || o.Do == "swrite") {
			o.Obj = cp(o.Obj)
			o.Obj["secret"] = secretOf(key)
		}
		raw = func(method, path, ct, body string, hdr ...string) rawResp {
			var r rawResp
			r, verdict = s.auth.raw(o, method, path, ct, body, hdr...)
			return r
		}
	}
	body := rawBody(op, kind, ns, name, o.Obj)
	switch o.Do {
	case "get":
		r = raw("GET", path, "", "")
		codes, want = []int{200}, cur
		if cur == nil {
			codes = []int{404}
		}
	case "post":
		r = raw("POST", coll, "application/json", js(body))
		codes, next, want = []int{201}, o.Obj, o.Obj
	case "put":
		r = raw("PUT", path, "application/json", js(body))
		codes, next, want = []int{200}, o.Obj, o.Obj
		if cur == nil {
			codes, next, want = []int{404}, nil, nil
		}
	case "merge":
		p := cp(o.Obj)
		if l, ok := p["labels"]; ok {
			delete(p, "labels")
			p["metadata"] = M{"labels": l}
		}
		r = raw("PATCH", path, mergePatchCT, js(p))
		codes = []int{200}
		if cur == nil {
			codes = []int{404}
			break
		}
		next = rfc7386(cur, o.Obj).(M)
		if l, ok := next["labels"].(M); ok && len(l) == 0 {
			delete(next, "labels")
		}
		want = next
	case "json": // set data.x to a value, if it has another
		v, old := o.Obj["to"], o.Obj["from"]
		p := []any{}
		if old != nil {
			p = append(p, M{"op": "test", "path": "/data/x", "value": old})
		}
		p = append(p, M{"op": "add", "path": "/data/x", "value": v})
		r = raw("PATCH", path, "application/json-patch+json", js(p))
		codes = []int{200}
		if cur == nil {
			codes = []int{404}
			break
		}
		d, ok := cur["data"].(M)
		if !ok || old != nil && !sameJSON(d["x"], old) {
			codes = []int{400, 409, 422}
			break
		}
		next = cp(cur)
		next["data"].(M)["x"] = v
		want = next
	case "apply": // by a manager who never applied before
		s.applies++
		p := rawPath(op, kind, ns, name) + fmt.Sprintf("?force=true&fieldManager=m%d", s.applies)
		if dry {
			p += "&dryRun=All"
		}
		r = raw("PATCH", p, "application/apply-patch+yaml", js(body))
		codes, next = []int{200}, rfc7386(cur, o.Obj).(M)
		if cur == nil {
			codes, next = []int{201, 404, 500}, nil // the server does not create views this way
			break
		}
		want = next
	case "delete":
		r = raw("DELETE", path, "", "")
		codes, next = []int{200}, nil
		if cur == nil {
			codes = []int{404}
		}
	case "delall": // by a label of its own
		sel := "?labelSelector=" + url.QueryEscape("mine="+name)
		if dry {
			sel += "&dryRun=All"
		}
		r = raw("DELETE", rawPath(op, kind, ns, "")+sel, "", "")
		codes = []int{200}
		if l, ok := cur["labels"].(M); ok && l["mine"] == name {
			next = nil
		}
	case "list":
		p := rawPath(op, kind, ns, "")
		if o.N == 1 {
			p = fmt.Sprintf("/apis/%s.view.dcontroller.io/v1alpha1/%s", op, strings.ToLower(kind))
		}
		in := cur
		switch o.S {
		case "mine":
			p += "?labelSelector=" + url.QueryEscape("mine="+name)
			if l, ok := cur["labels"].(M); !ok || l["mine"] != name {
				in = nil
			}
		case "name":
			p += "?fieldSelector=" + url.QueryEscape("metadata.name="+name)
		}
		r = raw("GET", p, "", "")
		codes = []int{200}
		if r.err == nil && r.code == 200 {
			var found []M
			items, _ := r.obj["items"].([]any)
			seen := map[string]bool{}
			for _, it := range items {
				m, _ := it.(M)
				k := objKey(m)
				if seen[k] {
					s.w.fail("bad-list", "%s lists %s twice", p, k)
				}
				seen[k] = true
				if str(m["kind"]) != kind || str(m["apiVersion"]) != op+".view.dcontroller.io/v1alpha1" {
					s.w.fail("bad-list", "%s lists a %s %s", p, m["apiVersion"], m["kind"])
				}
				if (o.S == "mine" || o.S == "name") && str(meta(m)["name"]) != name || o.N != 1 && str(meta(m)["namespace"]) != ns {
					s.w.fail("bad-list", "%s lists %s", p, k)
				}
				if k == ns+"/"+name {
					found = append(found, rawContent(m))
				}
			}
			if (in != nil) != (len(found) == 1) || in != nil && !sameJSON(found[0], in) {
				s.w.fail("wrong-answer", "%s lists %s as %s, which is %s", p, key, js(found), js(in))
			}
		}
	case "table":
		r = raw("GET", path, "", "", "Accept", "application/json;as=Table;v=v1;g=meta.k8s.io,application/json")
		codes = []int{200}
		if cur == nil {
			codes = []int{404}
		} else if r.err == nil && r.code == 200 {
			rows, _ := r.obj["rows"].([]any)
			if str(r.obj["kind"]) != "Table" || len(rows) != 1 || !strings.Contains(js(rows[0]), js(name)) {
				s.w.fail("wrong-answer", "the table of %s is %s", key, r.body)
			}
		}
	case "bad": // requests that must be refused and change nothing
		r, codes = s.bad(raw, o, op, kind, ns, name, cur)
		next = cur
	case "swrite": // changes made by others in the store itself
		u := &unstructured.Unstructured{Object: body}
		if cur == nil {
			if err := s.c.Create(context.Background(), u); err != nil {
				s.w.fail("store", "create %s: %v", key, err)
			}
		} else if err := s.c.Update(context.Background(), u); err != nil {
			s.w.fail("store", "update %s: %v", key, err)
		}
		s.state[key] = o.Obj
		return nil
	case "sdelete":
		if cur != nil {
			if err := s.c.Delete(context.Background(), &unstructured.Unstructured{Object: body}); err != nil {
				s.w.fail("store", "delete %s: %v", key, err)
			}
		}
		delete(s.state, key)
		return nil
	case "disc", "watch", "trick":
		if s.auth != nil {
			s.auth.other(s, raw, &verdict, o)
		}
		return nil
	case "reset":
		s.w.srv.fired["connection-reset"] += s.a.net.resetAll()
		return nil
	}
	if dry {
		next = cur
	}
	if s.auth != nil && r.err == nil {
		if r.code == 401 && verdict&may401 != 0 || r.code == 403 && verdict&may403 != 0 || verdict&mayPass == 0 {
			next, want = cur, nil
		}
		if verdict&mayPass == 0 {
			codes = nil
		}
		if verdict&may401 != 0 {
			codes = append(codes, 401)
		}
		if verdict&may403 != 0 {
			codes = append(codes, 403)
		}
		s.auth.answered(o, verdict, r)
	}
	s.w.log("%s %s %s: %d %s (had %s)", o.Do, o.S, key, r.code, short(string(r.body)), js(cur))
	got, err := s.store(op, kind, ns, name)
	if err != nil {
		s.w.fail("store", "get %s: %v", key, err)
	}
	show := func() string {
		return fmt.Sprintf("%s of %s %s (%s)", o.Do, key, o.S, js(o.Obj))
	}
	if r.err != nil {
		if s.broke { // done or not done
			if !sameJSON(got, cur) && !sameJSON(got, next) {
				s.w.fail("wrong-effect", "%s got no answer and left %s in the store, which was %s", show(), js(got), js(cur))
			}
			// it may still be under way
			time.Sleep(10 * time.Second)
			if got, err = s.store(op, kind, ns, name); err != nil {
				s.w.fail("store", "get %s: %v", key, err)
			}
			if !sameJSON(got, cur) && !sameJSON(got, next) {
				s.w.fail("wrong-effect", "%s got no answer and left %s in the store, which was %s", show(), js(got), js(cur))
			}
			s.set(key, got)
			s.w.counts["no_answer"]++
			return nil
		}
		s.w.fail("no-answer", "%s: %v", show(), r.err)
		return nil
	}
	if o.Do == "apply" && cur == nil && r.code == 201 && !dry {
		next = o.Obj
	}
	ok := false
	for _, c := range codes {
		ok = ok || c == r.code
	}
	if !ok {
		s.w.fail("wrong-status", "%s with %s in the store is answered %d %s instead of %v", show(), js(cur), r.code, short(string(r.body)), codes)
	}
	s.w.counts[fmt.Sprintf("status_%d", r.code)]++
	if r.code >= 400 && (o.Do != "bad" || r.code != 404) && (str(r.obj["kind"]) != "Status" || apiNum(r.obj["code"]) != int64(r.code)) {
		s.w.fail("wrong-status", "%s is answered %d with a body that is not a Status: %s", show(), r.code, short(string(r.body)))
	}
	if want != nil && !sameJSON(rawContent(r.obj), want) {
		s.w.fail("wrong-answer", "%s answers %s instead of %s", show(), js(rawContent(r.obj)), js(want))
	}
	if want != nil && (objKey(r.obj) != ns+"/"+name || str(r.obj["kind"]) != kind) {
		s.w.fail("wrong-answer", "%s answers with %s %s", show(), r.obj["kind"], objKey(r.obj))
	}
	if !sameJSON(got, next) {
		s.w.fail("wrong-effect", "%s answered %d and left %s in the store instead of %s", show(), r.code, js(got), js(next))
	}
	s.set(key, got)
	return nil
}

func (s *rawRun) set(key string, c M) {
	if c == nil {
		delete(s.state, key)
	} else {
		s.state[key] = c
	}
}

func apiNum(v any) int64 {
	switch x := v.(type) {
	case float64:
		return int64(x)
	case int64:
		return x
	}
	return -1
}

func short(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

var badReqs = []string{"version", "group", "resource", "sub", "syntax", "nsbody", "namebody", "noname", "media", "patchmedia", "native", "patchsyntax", "getstatus"}

func (s *rawRun) bad(raw func(method, path, ct, body string, hdr ...string) rawResp, o opStep, op, kind, ns, name string, cur M) (rawResp, []int) {
	path, coll := rawPath(op, kind, ns, name), rawPath(op, kind, ns, "")
	b := rawBody(op, kind, ns, name, M{"data": M{"bad": true}})
	verb := "POST"
	if o.N%2 == 1 {
		verb = "PUT"
	}
	at := func() string {
		if verb == "PUT" {
			return path
		}
		return coll
	}
	js := func(v any) string { b, _ := json.Marshal(v); return string(b) }
	send := func(p string, v any) rawResp { return raw(verb, p, "application/json", js(v)) }
	clientErr := []int{400, 404, 405, 409, 415, 422}
	switch o.S {
	case "version":
		return raw("GET", strings.Replace(path, "v1alpha1", "v7", 1), "", ""), []int{404}
	case "group":
		return raw("GET", strings.Replace(path, op+".view", "other.view", 1), "", ""), []int{404}
	case "resource":
		return raw("GET", rawPath(op, "Nothing", ns, name), "", ""), []int{404}
	case "native":
		return raw("GET", "/apis/apps/v1/namespaces/ns1/deployments/a", "", ""), []int{404}
	case "getstatus":
		return raw("GET", path+"/status", "", ""), []int{404}
	case "sub":
		return raw("PUT", path+"/status", "application/json", js(b)), []int{404}
	case "syntax":
		if verb == "PUT" && cur == nil {
			return raw(verb, at(), "application/json", "{\"kind\": "), []int{400, 404}
		}
		return raw(verb, at(), "application/json", "{\"kind\": "), []int{400}
	case "nsbody":
		meta(b)["namespace"] = "elsewhere"
		return send(at(), b), clientErr
	case "namebody":
		meta(b)["name"] = name + "x"
		return raw("PUT", path, "application/json", js(b)), clientErr
	case "noname":
		delete(meta(b), "name")
		return raw("POST", coll, "application/json", js(b)), clientErr
	case "media":
		return raw(verb, at(), "text/plain", js(b)), []int{415}
	case "patchmedia":
		return raw("PATCH", path, "text/plain", js(b)), []int{415}
	case "patchsyntax":
		return raw("PATCH", path, mergePatchCT, "{\"kind\": "), []int{400, 404}
	}
	return rawResp{err: fmt.Errorf("unknown request %s", o.S)}, nil
}

func runRaw(w *world) error {
	hs, _, _, _, err := storeHandles()
	if err != nil {
		return err
	}
	s := &rawRun{w: w, c: hs[2].c, state: map[string]M{}}
	if s.a, err = newExtAPI(w, hs[2].c); err != nil {
		return err
	}
	defer s.a.stop()
	if err := s.a.s.RegisterGVKs(storeGVKs()); err != nil {
		return err
	}
	time.Sleep(time.Second)
	s.broke = w.p.cfgB("resets")
	c := &conv{w: w}
	all := c.users(s.do)
	if !c.await(all) {
		w.fail("blocked", "requests to the extension API are not answered: %s", strings.Join(repoGoroutines(), "\n"))
		return nil
	}
	// nothing else was left behind
	for _, k := range storeKinds {
		m, err := listViews(s.c, k.op, k.kind)
		if err != nil {
			return err
		}
		var extra []string
		for key := range m {
			if s.state[k.op+"/"+k.kind+"/"+key] == nil {
				extra = append(extra, key)
			}
		}
		sort.Strings(extra)
		if len(extra) > 0 {
			w.fail("wrong-effect", "nobody created %s/%s %v", k.op, k.kind, extra)
		}
	}
	return nil
}

func genRaw(r *rng) *plan {
	p := &plan{Scen: "apiraw", Seed: r.next(), Sched: genSched(r), Cfg: M{}}
	nc := 1 + r.n(3)
	p.Cfg["resets"] = r.p(1, 4)
	content := func(name string) M {
		c := M{}
		if r.p(4, 5) {
			c["data"] = M{"x": genJSON(r, 0), "y": genJSON(r, 2)}
		}
		if r.p(1, 2) {
			c["spec"] = M{"s": genJSON(r, 1)}
		}
		if r.p(1, 2) {
			l := M{}
			if r.p(2, 3) {
				l["mine"] = name
			} else {
				l["tier"] = "t0"
			}
			c["labels"] = l
		}
		return c
	}
	t := int64(1000)
	for i, n := 0, 10+r.n(30); i < n; i++ {
		t += int64(r.n(3)) * pick(r, []int64{0, 1, 20})
		who := 1 + r.n(nc)
		k := storeKinds[r.n(len(storeKinds))]
		name := fmt.Sprintf("c%d-%s", who, pick(r, []string{"a", "b.x"}))
		o := opStep{T: t, Who: who, Key: fmt.Sprintf("%s/%s/%s/%s", k.op, k.kind, pick(r, []string{"ns1", "ns2"}), name)}
		switch r.n(20) {
		case 0, 1:
			o.Do = "get"
		case 2, 3, 4, 5:
			o.Do, o.Obj = "post", content(name)
		case 6, 7:
			o.Do, o.Obj = "put", content(name)
		case 8, 9:
			o.Do, o.Obj = "merge", content(name)
			for _, k := range []string{"data", "spec", "labels"} {
				if r.p(1, 4) {
					if m, ok := o.Obj[k].(M); ok && r.p(1, 2) {
						for f := range m {
							m[f] = nil
						}
					} else {
						o.Obj[k] = nil
					}
				}
			}
		case 10:
			o.Do, o.Obj = "json", M{"to": genJSON(r, 1)}
			if r.p(1, 2) {
				o.Obj["from"] = genJSON(r, 0)
			}
		case 11:
			o.Do = "delete"
		case 12:
			o.Do = "delall"
		case 13, 14:
			o.Do, o.S, o.N = "list", pick(r, []string{"", "mine", "name"}), int64(r.n(2))
		case 15:
			o.Do = "table"
			if r.p(1, 2) {
				o.Do, o.Obj = "apply", content(name)
			}
		case 16, 17:
			o.Do, o.S, o.N = "bad", pick(r, badReqs), int64(r.n(2))
		case 18:
			o.Do, o.Obj = "swrite", content(name)
		case 19:
			o.Do = "sdelete"
			if p.cfgB("resets") && r.p(1, 2) {
				o.Do, o.Who = "reset", nc+1
			}
		}
		switch o.Do {
		case "post", "put", "merge", "json", "delete", "delall", "apply":
			if r.p(1, 6) {
				o.S = "dry"
			}
		}
		p.Ops = append(p.Ops, o)
	}
	p.EndAt = t + 2000
	return p
}

func genJSON(r *rng, deep int) any {
	if deep > 0 && r.p(1, 2) {
		if r.p(1, 2) {
			return M{"k": genJSON(r, deep-1), "é\"/": genJSON(r, deep-1)}
		}
		return []any{genJSON(r, deep-1), genJSON(r, deep-1)}
	}
	return pick(r, []any{int64(0), int64(-3), int64(1) << 53, 1.5, 1e30, "", "x", "ü<&>", true, false, int64(7)})
}
