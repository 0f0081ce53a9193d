package main

import (
	"context"
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"time"

	apierrors "k8s.io/apimachinery/pkg/api/errors"
	"k8s.io/apimachinery/pkg/types"
	"sigs.k8s.io/controller-runtime/pkg/client"
)

// The ownership scenario (C06): controllers and other clients write the same
// objects. Nothing the controllers do not own may change by their hands.

type ownTmpl struct {
	Name    string
	Ctrl    func(src, tgt string) string
	Srcs    []string
	Kind    string // target kind
	View    bool   // the target may be a view
	Patcher bool
	Self    int                                   // index of the source that is the target, -1 if none
	Want    func(src []map[string]M) map[string]M // key -> owned fields
	Fields  []string                              // paths of the owned fields
}

func ownSrc(kind, how string) string {
	if how == "n" {
		return fmt.Sprintf("{apiGroup: sim.io, version: v1, kind: %s}", kind)
	}
	return fmt.Sprintf("{kind: %s}", kind)
}

var ownTmpls = []*ownTmpl{
	{Name: "updater", Srcs: []string{"Alpha"}, Kind: "Out", View: true, Self: -1,
		Ctrl: func(s, t string) string {
			return ctrlYAML("c1", []string{s}, projPipe, t)
		},
		Want: func(src []map[string]M) map[string]M { return projRef(src, nil) }},
	{Name: "updatercm", Srcs: []string{"Alpha"}, Kind: "ConfigMap", Self: -1,
		Ctrl: func(s, t string) string {
			return ctrlYAML("c1", []string{s}, `
- '@project':
    metadata: {name: '$.metadata.name', namespace: '$.metadata.namespace', annotations: {note: '$.spec.key'}}
    data: {k: '$.spec.key', g: '$.spec.grp'}
`, t)
		},
		Want: func(src []map[string]M) map[string]M {
			res := map[string]M{}
			for _, o := range src[0] {
				k, n := mk(onsp(o), oname(o), nil, M{"data": M{"k": sp(o)["key"], "g": sp(o)["grp"]}})
				meta(n)["annotations"] = M{"note": sp(o)["key"]}
				res[k] = n
			}
			return res
		}},
	{Name: "patcher", Srcs: []string{"Alpha"}, Kind: "Out", View: true, Patcher: true, Self: -1,
		Fields: []string{"metadata.labels.grp", "metadata.annotations.note", "spec.p.x", "spec.v", "status.seen"},
		Ctrl: func(s, t string) string {
			return ctrlYAML("c1", []string{s}, `
- '@select': {'@eq': ['$.spec.on', true]}
- '@project':
    metadata: {name: '$.metadata.name', namespace: '$.metadata.namespace', labels: {grp: '$.spec.grp'}, annotations: {note: '$.spec.key'}}
    spec: {v: '$.spec.val', p: {x: '$.spec.key'}}
    status: {seen: '$.spec.val'}
`, t)
		},
		Want: func(src []map[string]M) map[string]M {
			res := map[string]M{}
			for _, o := range src[0] {
				if truth(sp(o)["on"]) {
					k, n := mk(onsp(o), oname(o), M{"grp": sp(o)["grp"]}, M{"spec": M{"v": sp(o)["val"], "p": M{"x": sp(o)["key"]}}, "status": M{"seen": sp(o)["val"]}})
					meta(n)["annotations"] = M{"note": sp(o)["key"]}
					res[k] = n
				}
			}
			return res
		}},
	{Name: "typedpatcher", Srcs: []string{"Alpha"}, Kind: "Out", View: true, Patcher: true, Self: -1,
		Fields: []string{"spec.f", "spec.b", "spec.p", "spec.deep.m.x", "spec.deep.m.z.b", "spec.i"},
		Ctrl: func(s, t string) string {
			return ctrlYAML("c1", []string{s}, `
- '@select': {'@eq': ['$.spec.on', true]}
- '@project':
    metadata: {name: '$.metadata.name', namespace: '$.metadata.namespace'}
    spec: {f: '$.spec.f', b: '$.spec.m.z.b', i: '$.spec.val', p: {f: {'@sum': ['$.spec.f', 1.25]}, k: '$.spec.key'}, deep: {m: {x: '$.spec.m.x', z: '$.spec.m.z'}}}
`, t)
		},
		Want: func(src []map[string]M) map[string]M {
			res := map[string]M{}
			for _, o := range src[0] {
				if truth(sp(o)["on"]) {
					m := sp(o)["m"].(M)
					k, n := mk(onsp(o), oname(o), nil, M{"spec": M{"f": sp(o)["f"], "b": m["z"].(M)["b"], "i": sp(o)["val"],
						"p": M{"f": sp(o)["f"].(float64) + 1.25, "k": sp(o)["key"]}, "deep": M{"m": M{"x": m["x"], "z": M{"b": m["z"].(M)["b"]}}}}})
					res[k] = n
				}
			}
			return res
		}},
	{Name: "listpatcher", Srcs: []string{"Alpha"}, Kind: "Out", View: true, Patcher: true, Self: -1,
		Fields: []string{"spec.items", "spec.p.x"},
		Ctrl: func(s, t string) string {
			return ctrlYAML("c1", []string{s}, `
- '@select': {'@eq': ['$.spec.on', true]}
- '@project':
    metadata: {name: '$.metadata.name', namespace: '$.metadata.namespace'}
    spec: {items: ['$.spec.val', '$.spec.key'], p: {x: '$.spec.key'}}
`, t)
		},
		Want: func(src []map[string]M) map[string]M {
			res := map[string]M{}
			for _, o := range src[0] {
				if truth(sp(o)["on"]) {
					k, n := mk(onsp(o), oname(o), nil, M{"spec": M{"items": []any{sp(o)["val"], sp(o)["key"]}, "p": M{"x": sp(o)["key"]}}})
					res[k] = n
				}
			}
			return res
		}},
	{Name: "selfpatch", Srcs: []string{"Alpha"}, Kind: "Alpha", View: true, Patcher: true, Self: 0,
		Fields: []string{"metadata.annotations.note", "metadata.labels.hot", "status.seen"},
		Ctrl: func(s, t string) string {
			return ctrlYAML("c1", []string{s}, `
- '@select': {'@eq': ['$.spec.on', true]}
- '@project':
    metadata: {name: '$.metadata.name', namespace: '$.metadata.namespace', annotations: {note: '$.spec.key'}, labels: {hot: 'yes'}}
    status: {seen: '$.spec.val'}
`, t)
		},
		Want: func(src []map[string]M) map[string]M {
			res := map[string]M{}
			for _, o := range src[0] {
				if truth(sp(o)["on"]) {
					k, n := mk(onsp(o), oname(o), M{"hot": "yes"}, M{"status": M{"seen": sp(o)["val"]}})
					meta(n)["annotations"] = M{"note": sp(o)["key"]}
					res[k] = n
				}
			}
			return res
		}},
	{Name: "joinpatch", Srcs: []string{"Alpha", "Beta"}, Kind: "Beta", View: true, Patcher: true, Self: 1,
		Fields: []string{"metadata.annotations.note", "spec.q.v"},
		Ctrl: func(s, t string) string {
			return ctrlYAML("c1", strings.Split(s, "|"), `
- '@join': {'@and': [{'@eq': ['$.Alpha.metadata.name', '$.Beta.metadata.name']}, {'@eq': ['$.Alpha.metadata.namespace', '$.Beta.metadata.namespace']}, {'@eq': ['$.Alpha.spec.grp', '$.Beta.spec.grp']}]}
- '@project':
    metadata: {name: '$.Beta.metadata.name', namespace: '$.Beta.metadata.namespace', annotations: {note: '$.Alpha.spec.key'}}
    spec: {q: {v: '$.Alpha.spec.val'}}
`, t)
		},
		Want: func(src []map[string]M) map[string]M {
			res := map[string]M{}
			for k, a := range src[0] {
				if b := src[1][k]; b != nil && sp(a)["grp"] == sp(b)["grp"] {
					_, n := mk(onsp(a), oname(a), nil, M{"spec": M{"q": M{"v": sp(a)["val"]}}})
					meta(n)["annotations"] = M{"note": sp(a)["key"]}
					res[k] = n
				}
			}
			return res
		}},
}

func ownBy(name string) *ownTmpl {
	for _, t := range ownTmpls {
		if t.Name == name {
			return t
		}
	}
	panic("no template " + name)
}

// leaves flattens an object into path -> value; lists are leaves.
func leaves(o M) map[string]string {
	res := map[string]string{}
	var walk func(p string, v any)
	walk = func(p string, v any) {
		if m, ok := v.(M); ok {
			for k, e := range m {
				q := k
				if p != "" {
					q = p + "." + k
				}
				walk(q, e)
			}
			return
		}
		if l, ok := v.([]any); ok && len(l) == 0 {
			return
		}
		res[p] = canon(v)
	}
	n := cp(o)
	m := meta(n)
	for _, k := range []string{"resourceVersion", "generation", "uid", "creationTimestamp", "managedFields", "name", "namespace"} {
		delete(m, k)
	}
	delete(n, "apiVersion")
	delete(n, "kind")
	walk("", n)
	return res
}

type own struct {
	w     *world
	t     *ownTmpl
	src   []string // n or v
	tgt   string
	h     *host
	views client.Client
	state []map[string]M // sources as the users wrote them
	other map[string]M   // what others put on the targets
}

func (c *own) owned(path string) bool {
	if c.t.Patcher {
		for _, f := range c.t.Fields {
			if path == f || strings.HasPrefix(path, f+".") {
				return true
			}
		}
		return false
	}
	// an Updater owns the content and the labels and annotations it names
	if !strings.HasPrefix(path, "metadata.") {
		return true
	}
	switch path {
	case "metadata.labels.app", "metadata.labels.grp", "metadata.annotations.note":
		return true
	}
	return false
}

// onOpWrite judges one native write of the operator.
func (c *own) onOpWrite(r *writeRec) {
	if r.Kind != c.t.Kind {
		c.w.fail("foreign-write", "the operator wrote %s %s %s, which is no target", r.Verb, r.Kind, r.Key)
		return
	}
	switch r.Verb {
	case "delete":
		if c.t.Patcher {
			c.w.fail("patcher-delete", "the operator deleted %s %s of a Patcher target", r.Kind, r.Key)
		}
		delete(c.other, r.Key)
	case "create":
		if c.t.Patcher {
			c.w.fail("patcher-create", "the operator created %s %s of a Patcher target", r.Kind, r.Key)
		}
	case "update":
		a, b := leaves(r.Old), leaves(r.New)
		for _, p := range unionKeys(a, b) {
			if !c.owned(p) && a[p] != b[p] {
				c.w.fail("clobbered", "the operator changed %s of %s %s, which belongs to others: %s -> %s", p, r.Kind, r.Key, show(a[p]), show(b[p]))
				return
			}
		}
	}
}

func show(s string) string {
	if s == "" {
		return "(none)"
	}
	return s
}

func unionKeys(a, b map[string]string) []string {
	m := map[string]bool{}
	for k := range a {
		m[k] = true
	}
	for k := range b {
		m[k] = true
	}
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (c *own) isNative(i int) bool { return c.src[i] == "n" }

// write applies a change to an object as another client would: atomically.
func (c *own) write(kind, key string, native bool, fn func(o M) M) (bool, error) {
	ns, name, _ := strings.Cut(key, "/")
	if native {
		old, ok := c.w.srv.get(kind, key)
		var n M
		if ok {
			n = fn(cp(old))
		} else {
			n = fn(nil)
		}
		if n == nil {
			return false, nil
		}
		meta(n)["name"], meta(n)["namespace"] = name, ns
		ki := kindByName(kind)
		if !ok {
			st := n["status"]
			delete(meta(n), "resourceVersion")
			cur, e := c.w.srv.create("user", ki, n)
			if e != nil {
				return false, e
			}
			if st != nil {
				x := cp(cur)
				x["status"] = st
				if _, e := c.w.srv.update("user", ki, x, "status"); e != nil {
					return false, e
				}
			}
			return true, nil
		}
		cur, e := c.w.srv.update("user", ki, n, "")
		if e != nil {
			return false, e
		}
		if ki.Status && !reflect.DeepEqual(cur["status"], n["status"]) {
			x := cp(cur)
			x["status"] = n["status"]
			if _, e := c.w.srv.update("user", ki, x, "status"); e != nil {
				return false, e
			}
		}
		return true, nil
	}
	// a view: changes to existing views are merge patches
	v := newView(opName, kind, key, M{})
	err := c.views.Get(context.Background(), client.ObjectKeyFromObject(v), v)
	if apierrors.IsNotFound(err) {
		n := fn(nil)
		if n == nil {
			return false, nil
		}
		return true, c.views.Create(context.Background(), newView(opName, kind, key, n))
	}
	if err != nil {
		return false, err
	}
	old := cp(v.UnstructuredContent())
	n := fn(cp(old))
	if n == nil {
		return false, nil
	}
	p := mergeDiff(old, n)
	b, _ := json.Marshal(p)
	return true, c.views.Patch(context.Background(), newView(opName, kind, key, M{}), client.RawPatch(types.MergePatchType, b))
}

// mergeDiff is the merge patch from a to b.
func mergeDiff(a, b M) M {
	p := M{}
	for k, v := range b {
		am, ok1 := a[k].(M)
		bm, ok2 := v.(M)
		switch {
		case ok1 && ok2:
			if d := mergeDiff(am, bm); len(d) > 0 {
				p[k] = d
			}
		case !reflect.DeepEqual(a[k], v):
			p[k] = v
		}
	}
	for k := range a {
		if _, ok := b[k]; !ok {
			p[k] = nil
		}
	}
	return p
}

func isList(v any) bool { _, ok := v.([]any); return ok }

func setPath(o M, path string, v any) {
	ps := strings.Split(path, ".")
	for _, p := range ps[:len(ps)-1] {
		n, ok := o[p].(M)
		if !ok {
			n = M{}
			o[p] = n
		}
		o = n
	}
	if v == nil {
		delete(o, ps[len(ps)-1])
		return
	}
	o[ps[len(ps)-1]] = v
}

func (c *own) apply(o opStep) error {
	switch o.Do {
	case "put": // a source
		kind := c.t.Srcs[o.Src]
		c.w.log("user put %s %s", kind, o.Key)
		_, err := c.write(kind, o.Key, c.isNative(o.Src), func(old M) M {
			n := old
			if n == nil {
				n = M{}
				c.other2(o.Src, o.Key, nil)
			}
			s, _ := n["spec"].(M)
			if s == nil {
				s = M{}
				n["spec"] = s
			}
			for k, v := range o.Obj["spec"].(M) {
				if !isList(v) { // views patch lists by index
					s[k] = deepCopy(v)
				}
			}
			if o.Obj["spec"].(M)["opt"] == nil {
				delete(s, "opt")
			}
			return n
		})
		c.state[o.Src][o.Key] = M{"metadata": M{"namespace": strings.Split(o.Key, "/")[0], "name": strings.Split(o.Key, "/")[1]}, "spec": o.Obj["spec"]}
		if c.t.Self == o.Src {
			for k, v := range o.Obj["spec"].(M) {
				if !isList(v) {
					c.note(o.Key, "spec."+k, deepCopy(v))
				}
			}
			if o.Obj["spec"].(M)["opt"] == nil {
				c.note(o.Key, "spec.opt", nil)
			}
		}
		return err
	case "del":
		kind := c.t.Srcs[o.Src]
		if c.state[o.Src][o.Key] == nil {
			return nil
		}
		c.w.log("user del %s %s", kind, o.Key)
		delete(c.state[o.Src], o.Key)
		if c.t.Self == o.Src {
			delete(c.other, o.Key)
		}
		if c.isNative(o.Src) {
			if _, e := c.w.srv.del("user", kindByName(kind), o.Key); e != nil {
				return e
			}
			return nil
		}
		return c.views.Delete(context.Background(), newView(opName, kind, o.Key, M{}))
	case "mk": // a target object of a patcher, made by the user
		_, err := c.write(c.t.Kind, o.Key, c.tgt == "n", func(old M) M {
			if old != nil {
				return nil
			}
			c.other[o.Key] = M{}
			c.note(o.Key, "spec.own", int64(1))
			c.note(o.Key, "metadata.labels.made", "user")
			return cp(c.other[o.Key])
		})
		return err
	case "foreign": // another client sets or removes one of its fields
		var v any
		if o.Obj != nil {
			v = o.Obj["v"]
		}
		did, err := c.write(c.t.Kind, o.Key, c.tgt == "n", func(old M) M {
			if old == nil {
				return nil
			}
			setPath(old, o.S, v)
			if c.tgt == "n" {
				c.note(o.Key, o.S, v)
			}
			return old
		})
		if err != nil && c.tgt != "n" && apierrors.IsNotFound(err) {
			return nil // deleted meanwhile
		}
		if err == nil && did {
			c.w.counts["foreign_writes"]++
			if c.tgt != "n" {
				c.note(o.Key, o.S, v)
			}
		}
		return err
	}
	return nil
}

func (c *own) other2(src int, key string, _ any) {
	if c.t.Self == src {
		c.other[key] = M{}
	}
}

// note records a field that belongs to others.
func (c *own) note(key, path string, v any) {
	if c.other[key] == nil {
		c.other[key] = M{}
	}
	setPath(c.other[key], path, v)
}

func (c *own) diff() string {
	want := map[string]map[string]string{}
	exp := c.t.Want(c.state)
	if c.t.Patcher {
		for k, o := range c.other {
			want[k] = leaves(o)
			for p, v := range leaves(expOr(exp[k])) {
				want[k][p] = v
			}
		}
	} else {
		for k, o := range exp {
			want[k] = leaves(o)
			for p, v := range leaves(expOr(c.other[k])) {
				if !c.owned(p) {
					want[k][p] = v
				}
			}
		}
	}
	var got map[string]M
	if c.tgt == "n" {
		got = c.w.srv.objs[c.t.Kind]
	} else {
		var err error
		if got, err = listViews(c.views, opName, c.t.Kind); err != nil {
			return err.Error()
		}
	}
	have := map[string]map[string]string{}
	for k, o := range got {
		have[k] = leaves(o)
	}
	var b strings.Builder
	ks := map[string]string{}
	for k := range want {
		ks[k] = ""
	}
	for k := range have {
		ks[k] = ""
	}
	for _, k := range unionKeys(ks, nil) {
		if have[k] == nil || want[k] == nil {
			if (have[k] == nil) != (want[k] == nil) {
				fmt.Fprintf(&b, "%s %s: present %v, wanted %v; ", c.t.Kind, k, have[k] != nil, want[k] != nil)
			}
			continue
		}
		for _, p := range unionKeys(have[k], want[k]) {
			if have[k][p] != want[k][p] {
				fmt.Fprintf(&b, "%s %s %s: want %s got %s; ", c.t.Kind, k, p, show(want[k][p]), show(have[k][p]))
			}
		}
	}
	return b.String()
}

func expOr(o M) M {
	if o == nil {
		return M{}
	}
	return o
}

func runOwn(w *world) error {
	c := &own{w: w, t: ownBy(w.p.cfgS("tmpl")), src: strings.Split(w.p.cfgS("src"), ""), tgt: w.p.cfgS("tgt"), other: map[string]M{}}
	for range c.t.Srcs {
		c.state = append(c.state, map[string]M{})
	}
	w.srv.onWrite = func(r *writeRec) {
		w.log("api %s %s %s/%s noop=%v", r.Client, r.Verb, r.Kind, r.Key, r.Noop)
		if r.Client == "op" {
			c.onOpWrite(r)
			w.counts["writes_judged"]++
		}
	}
	typ := "Updater"
	if c.t.Patcher {
		typ = "Patcher"
	}
	var ss []string
	for i, s := range c.t.Srcs {
		ss = append(ss, ownSrc(s, c.src[i]))
	}
	var y string
	{
		t := tgtYAML(modes{Tgt: []string{c.tgt}}, 0, c.t.Kind, typ)
		y = c.t.Ctrl(strings.Join(ss, "|"), t)
	}
	h, err := w.newHost(opName, y, hostOpts{node: 1, errCap: 64, startAt: time.Duration(w.p.StartAt) * time.Millisecond})
	if err != nil {
		w.fail("no-start", "operator cannot be created: %v", err)
		return nil
	}
	c.h = h
	c.views = h.op.GetClient()
	cv := &conv{w: w}
	all := cv.users(func(o opStep) error {
		if cv.serverStep(o) {
			return nil
		}
		return c.apply(o)
	})
	<-all
	if d := time.Duration(w.p.EndAt)*time.Millisecond - now(); d > 0 {
		time.Sleep(d)
	}
	cv.quiet()
	start := now()
	okSince := time.Duration(-1)
	for {
		d := c.diff()
		if d == "" {
			if okSince < 0 {
				okSince = now()
			}
			if now()-okSince > 110*time.Second {
				break
			}
		} else {
			okSince = -1
			if now()-start > 3000*time.Second {
				w.fail("mixed", "the targets are not the controllers' and the others' fields put together: %s errors: %v", d, tailErrs(h.errs))
				break
			}
		}
		time.Sleep(2 * time.Second)
	}
	return nil
}

func genC06(r *rng) *plan {
	p := &plan{Prop: "C06", Seed: r.next(), Sched: genSched(r), Cfg: M{}, Scen: "own"}
	t := pick(r, ownTmpls)
	p.Cfg["tmpl"] = t.Name
	src := ""
	for range t.Srcs {
		src += pick(r, []string{"n", "v"})
	}
	tgt := "n"
	if t.View && r.p(1, 3) {
		tgt = "v"
	}
	if t.Self >= 0 {
		b := []byte(src)
		b[t.Self] = tgt[0]
		src = string(b)
	}
	p.Cfg["src"], p.Cfg["tgt"] = src, tgt
	p.Cfg["lat_us"] = pick(r, []int64{1, 1000, 5000, 50000})
	p.Cfg["wlat_us"] = pick(r, []int64{1, 1000, 20000, 300000})
	span := pick(r, []int64{20, 500, 5000})
	p.StartAt = pick(r, []int64{0, 0, 5, span / 2})
	keys := []string{"ns1/a", "ns1/b", "ns2/a"}
	keys = keys[:1+r.n(3)]
	if t.Patcher && t.Self < 0 {
		for _, k := range keys {
			at := int64(0)
			if r.p(1, 3) {
				at = r.i64(span)
			}
			p.Ops = append(p.Ops, opStep{T: at, Who: 1, Do: "mk", Key: k})
		}
	}
	foreign := []string{"metadata.labels.f1", "metadata.annotations.f1", "metadata.annotations.f2"}
	if t.Patcher {
		foreign = append(foreign, "spec.own", "spec.other.a", "spec.other.b", "spec.deep.own", "spec.deep.m.own")
		if t.Name != "typedpatcher" {
			foreign = append(foreign, "spec.p.y")
		}
		if t.Kind == "Out" || t.Kind == "Alpha" {
			foreign = append(foreign, "status.theirs")
		}
	}
	n := 2 + r.n(16)
	for i := 0; i < n; i++ {
		o := opStep{T: r.i64(span + 1), Key: pick(r, keys)}
		switch x := r.n(10); {
		case x < 4:
			o.Do, o.Src = "put", r.n(len(t.Srcs))
			s := genSpec(r)
			if r.p(1, 2) {
				s["on"] = true
			}
			o.Obj = M{"spec": s}
			o.Who = 0
		case x < 5:
			o.Do, o.Src = "del", r.n(len(t.Srcs))
			// on a self patcher the deletion is atomic with the others' record;
			// views of an Updater are not deleted (their deletion would race with
			// the record of the others' fields)
			if !t.Patcher && tgt == "v" {
				o.Do = "put"
				o.Obj = M{"spec": genSpec(r)}
			}
		default:
			o.Do, o.S, o.Who = "foreign", pick(r, foreign), 2
			if r.p(3, 4) {
				o.Obj = M{"v": fmt.Sprintf("f%d", i)}
			}
			if t.Self >= 0 {
				o.Who = 0
			}
		}
		if !t.Patcher && tgt == "v" && o.Obj != nil {
			if s, ok := o.Obj["spec"].(M); ok {
				s["on"] = true
			}
		}
		p.Ops = append(p.Ops, o)
	}
	if r.p(1, 3) {
		genFaults(r, p, 1+r.n(3), span+500)
	}
	p.sortOps()
	p.EndAt = span + 500
	for _, f := range p.Faults {
		p.EndAt = max(p.EndAt, f.To)
	}
	return p
}
