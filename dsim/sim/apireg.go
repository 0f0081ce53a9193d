package main

import (
	"context"
	"fmt"
	"math/bits"
	"sort"
	"strings"
	"time"

	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
	"k8s.io/apimachinery/pkg/runtime/schema"
	"sigs.k8s.io/controller-runtime/pkg/client"
)

// Registering and unregistering API groups while clients read the discovery
// documents and use the resources (C14). Each group is changed by one
// goroutine at a time, so at any moment its kinds are those before or after
// the change under way.

var regKinds = []string{"Foo", "Bar", "Qux"}

func regGroup(i int) string { return fmt.Sprintf("g%d.view.dcontroller.io", i) }

func regGVKs(group string, mask int64) []schema.GroupVersionKind {
	var ret []schema.GroupVersionKind
	for i, k := range regKinds {
		if mask&(1<<i) != 0 {
			ret = append(ret, schema.GroupVersionKind{Group: group, Version: "v1alpha1", Kind: k})
		}
	}
	return ret
}

type regState struct {
	begin, end int // ticks of the change to it; end 0: under way
	mask       int64
}

type regRun struct {
	w      *world
	a      *extAPI
	c      client.Client
	tick   int
	groups [][]regState
	posted map[string]bool
}

func (s *regRun) now() int { s.tick++; return s.tick }

// possible returns the sets of kinds that the group had in a window of time.
func (s *regRun) possible(g, from, to int) []int64 {
	var ret []int64
	h := s.groups[g]
	for i, st := range h {
		if st.begin > to || i+1 < len(h) && h[i+1].end > 0 && h[i+1].end < from {
			continue
		}
		ret = append(ret, st.mask)
	}
	return ret
}

func (s *regRun) change(g int, mask int64, f func()) {
	s.groups[g] = append(s.groups[g], regState{begin: s.now(), mask: mask})
	n := len(s.groups[g]) - 1
	f()
	s.groups[g][n].end = s.now()
	s.w.log("%s has the kinds %03b", regGroup(g), mask)
}

func maskStr(l []int64) string {
	var r []string
	for _, m := range l {
		var k []string
		for _, g := range regGVKs("", m) {
			k = append(k, g.Kind)
		}
		r = append(r, "["+strings.Join(k, " ")+"]")
	}
	return strings.Join(r, " or ")
}

func hasMask(l []int64, m int64) bool {
	for _, x := range l {
		if x == m {
			return true
		}
	}
	return false
}

// kindsMask turns kinds into a mask; -1: something unknown or twice.
func kindsMask(kinds []string) int64 {
	m := int64(0)
	for _, k := range kinds {
		i := -1
		for j, n := range regKinds {
			if n == k {
				i = j
			}
		}
		if i < 0 || m&(1<<i) != 0 {
			return -1
		}
		m |= 1 << i
	}
	return m
}

func (s *regRun) do(o opStep) error {
	switch o.Do {
	case "reg", "unreg":
		g := o.Src
		mask := o.N
		if o.Do == "unreg" {
			mask = 0
		}
		s.change(g, mask, func() {
			var err error
			switch {
			case o.Do == "unreg" && o.S == "gvks":
				s.a.s.UnregisterGVKs(regGVKs(regGroup(g), 7))
			case o.Do == "unreg":
				s.a.s.UnregisterAPIGroup(regGroup(g))
			case o.S == "gvks" && mask != 0:
				l := regGVKs(regGroup(g), mask)
				if o.Key == "native" {
					l = append(l, schema.GroupVersionKind{Group: "apps", Version: "v1", Kind: "Deployment"})
				}
				err = s.a.s.RegisterGVKs(l)
			default:
				err = s.a.s.RegisterAPIGroup(regGroup(g), regGVKs(regGroup(g), mask))
			}
			if err != nil {
				s.w.fail("register", "registering %s in %s: %v", maskStr([]int64{mask}), regGroup(g), err)
			}
		})
		return nil
	}
	s.request(o)
	return nil
}

func (s *regRun) request(o opStep) {
	g := o.Src
	gv := regGroup(g) + "/v1alpha1"
	kind := regKinds[o.N]
	res := strings.ToLower(kind)
	item := fmt.Sprintf("/apis/%s/namespaces/ns1/%s", gv, res)
	from := s.now()
	var r rawResp
	switch o.Do {
	case "groups":
		r = s.a.raw("GET", "/apis", "", "")
	case "agg":
		r = s.a.raw("GET", "/apis", "", "", "Accept", "application/json;g=apidiscovery.k8s.io;v=v2;as=APIGroupDiscoveryList")
	case "group":
		r = s.a.raw("GET", "/apis/"+regGroup(g), "", "")
	case "version":
		r = s.a.raw("GET", "/apis/"+gv, "", "")
	case "list":
		r = s.a.raw("GET", fmt.Sprintf("/apis/%s/%s", gv, res), "", "")
	case "get":
		r = s.a.raw("GET", item+"/there", "", "")
	case "patch":
		r = s.a.raw("PATCH", item+"/there", mergePatchCT, fmt.Sprintf(`{"metadata":{"labels":{"n":"%d"}}}`, from))
	case "post":
		r = s.a.raw("POST", item, "application/json", fmt.Sprintf(`{"apiVersion":%q,"kind":%q,"metadata":{"name":"p%d","namespace":"ns1"},"data":{"n":%d}}`, gv, kind, from, from))
	default:
		panic(o.Do)
	}
	to := s.now()
	may := s.possible(g, from, to)
	s.w.log("%s %s %s: %d %s", o.Do, regGroup(g), kind, r.code, short(string(r.body)))
	s.w.counts["requests"]++
	if len(may) == 1 {
		s.w.counts["requests_exact"]++
	}
	what := fmt.Sprintf("%s of %s (%s)", o.Do, regGroup(g), kind)
	if r.err != nil {
		s.w.fail("no-answer", "%s: %v", what, r.err)
		return
	}
	bad := func(format string, args ...any) {
		s.w.fail("malformed", "%s: %s: %d %s", what, fmt.Sprintf(format, args...), r.code, short(string(r.body)))
	}
	wrong := func(got string) {
		s.w.fail("wrong-discovery", "%s answers %s, the kinds are %s: %d %s", what, got, maskStr(may), r.code, short(string(r.body)))
	}
	items := func(m M, k string) []M {
		var ret []M
		l, _ := m[k].([]any)
		for _, x := range l {
			e, _ := x.(M)
			ret = append(ret, e)
		}
		return ret
	}
	switch o.Do {
	case "groups":
		if r.code != 200 || str(r.obj["kind"]) != "APIGroupList" {
			bad("not an APIGroupList")
			return
		}
		seen := map[string]bool{}
		for _, e := range items(r.obj, "groups") {
			if seen[str(e["name"])] {
				bad("%s twice", e["name"])
			}
			seen[str(e["name"])] = true
		}
		if seen["apps"] {
			bad("a native group")
		}
		for i := range s.groups {
			may = s.possible(i, from, to)
			if seen[regGroup(i)] && maskStr(may) == "[]" {
				wrong(regGroup(i))
			}
			if !seen[regGroup(i)] && !hasMask(may, 0) {
				wrong("no " + regGroup(i))
			}
			delete(seen, regGroup(i))
		}
		for n := range seen {
			if strings.HasSuffix(n, "view.dcontroller.io") {
				wrong("unknown group " + n)
			}
		}
	case "agg":
		if r.code != 200 || str(r.obj["kind"]) != "APIGroupDiscoveryList" {
			bad("not an APIGroupDiscoveryList")
			return
		}
		found := map[string][]string{}
		for _, e := range items(r.obj, "items") {
			n := str(meta(e)["name"])
			if _, ok := found[n]; ok {
				bad("%s twice", n)
			}
			found[n] = []string{}
			vs := items(e, "versions")
			if !strings.HasSuffix(n, "view.dcontroller.io") {
				continue
			}
			if len(vs) != 1 || str(vs[0]["version"]) != "v1alpha1" {
				bad("%s has versions %v", n, vs)
				continue
			}
			for _, x := range items(vs[0], "resources") {
				rk, _ := x["responseKind"].(M)
				if str(rk["kind"]) == "" || str(x["resource"]) != strings.ToLower(str(rk["kind"])) || str(rk["group"]) != n || str(x["scope"]) != "Namespaced" {
					bad("bad resource %s", canon(x))
				}
				found[n] = append(found[n], str(rk["kind"]))
			}
		}
		if _, ok := found["apps"]; ok {
			bad("a native group")
		}
		for i := range s.groups {
			may = s.possible(i, from, to)
			l, ok := found[regGroup(i)]
			if m := kindsMask(l); ok && (m == 0 || !hasMask(may, m)) || !ok && !hasMask(may, 0) {
				wrong(fmt.Sprintf("%s with %v (%v)", regGroup(i), l, ok))
			}
		}
	case "group":
		switch {
		case r.code == 200:
			vs := items(r.obj, "versions")
			pv, _ := r.obj["preferredVersion"].(M)
			if str(r.obj["kind"]) != "APIGroup" || str(r.obj["name"]) != regGroup(g) || len(vs) != 1 || str(vs[0]["groupVersion"]) != gv || str(pv["version"]) != "v1alpha1" {
				bad("not the group")
			}
			if maskStr(may) == "[]" {
				wrong("the group")
			}
		case r.code == 404:
			if !hasMask(may, 0) {
				wrong("not found")
			}
		default:
			bad("unexpected status")
		}
	case "version":
		switch {
		case r.code == 200:
			if str(r.obj["kind"]) != "APIResourceList" || str(r.obj["groupVersion"]) != gv {
				bad("not the resources")
			}
			var l []string
			for _, e := range items(r.obj, "resources") {
				if str(e["name"]) != strings.ToLower(str(e["kind"])) || e["namespaced"] != true || !strings.Contains(fmt.Sprint(e["verbs"]), "list") {
					bad("bad resource %s", canon(e))
				}
				l = append(l, str(e["kind"]))
			}
			if m := kindsMask(l); m <= 0 || !hasMask(may, m) {
				wrong(fmt.Sprint(l))
			}
		case r.code == 404:
			if !hasMask(may, 0) {
				wrong("not found")
			}
		default:
			bad("unexpected status")
		}
	default:
		var yes, no bool
		for _, m := range may {
			if m&(1<<o.N) != 0 {
				yes = true
			} else {
				no = true
			}
		}
		switch {
		case r.code == 200 || r.code == 201 && o.Do == "post":
			if !yes {
				wrong("the resource")
			}
			switch o.Do {
			case "list":
				there := false
				for _, e := range items(r.obj, "items") {
					there = there || str(meta(e)["name"]) == "there"
				}
				if str(r.obj["kind"]) != kind+"List" || str(r.obj["apiVersion"]) != gv || !there {
					bad("not the list")
				}
			default:
				n := "there"
				if o.Do == "post" {
					n = fmt.Sprintf("p%d", from)
					s.posted[fmt.Sprintf("%d/%s/ns1/%s", g, kind, n)] = true
				}
				if str(r.obj["kind"]) != kind || str(r.obj["apiVersion"]) != gv || str(meta(r.obj)["name"]) != n {
					bad("not the view")
				}
			}
		case r.code == 404:
			if !no {
				wrong("not found")
			}
		case r.code == 409 && o.Do == "patch":
		default:
			bad("unexpected status")
		}
	}
}

func runReg(w *world) error {
	hs, _, _, _, err := storeHandles()
	if err != nil {
		return err
	}
	s := &regRun{w: w, c: hs[2].c, groups: make([][]regState, 3), posted: map[string]bool{}}
	for i := range s.groups {
		s.groups[i] = []regState{{mask: 0}}
		for _, k := range regKinds {
			u := &unstructured.Unstructured{Object: M{"apiVersion": regGroup(i) + "/v1alpha1", "kind": k, "metadata": M{"name": "there", "namespace": "ns1"}, "spec": M{"a": int64(1)}}}
			if err := s.c.Create(context.Background(), u); err != nil {
				return err
			}
		}
	}
	if s.a, err = newExtAPI(w, hs[2].c); err != nil {
		return err
	}
	defer s.a.stop()
	c := &conv{w: w}
	all := c.users(s.do)
	if !c.await(all) {
		w.fail("blocked", "requests or registrations do not end: %s", strings.Join(repoGoroutines(), "\n"))
		return nil
	}
	c.quiet()
	time.Sleep(time.Second)
	for i := range s.groups {
		for _, d := range []string{"group", "version", "groups", "agg"} {
			s.request(opStep{Do: d, Src: i})
		}
		for k := range regKinds {
			for _, d := range []string{"list", "get", "patch", "post"} {
				s.request(opStep{Do: d, Src: i, N: int64(k)})
			}
		}
	}
	// what was accepted is there
	var keys []string
	for k := range s.posted {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		f := strings.SplitN(k, "/", 3)
		m, err := listViews(s.c, "g"+f[0], f[1])
		if err != nil {
			return err
		}
		if m[f[2]] == nil {
			w.fail("wrong-effect", "the creation of %s was accepted, but it is not there", k)
		}
	}
	return nil
}

func genReg(r *rng) *plan {
	p := &plan{Scen: "apireg", Seed: r.next(), Sched: genSched(r), Cfg: M{}}
	span := pick(r, []int64{0, 5, 100, 2000})
	for g := 0; g < 3; g++ {
		n := r.n(7)
		var ts []int64
		for i := 0; i < n; i++ {
			ts = append(ts, 1000+r.i64(span+1))
		}
		sort.Slice(ts, func(i, j int) bool { return ts[i] < ts[j] })
		for _, t := range ts {
			o := opStep{T: t, Who: g, Src: g, Do: "reg", N: int64(1 + r.n(7)), S: pick(r, []string{"", "gvks"})}
			switch r.n(8) {
			case 0, 1:
				o.Do, o.N = "unreg", 0
			case 2:
				o.N = 0
				o.S = ""
			case 3:
				o.S, o.Key = "gvks", "native"
			case 4:
				o.N = int64(1) << r.n(3)
			}
			p.Ops = append(p.Ops, o)
		}
	}
	docs := []string{"groups", "agg", "agg", "group", "version", "version", "list", "get", "patch", "post"}
	for c, nc := 0, 1+r.n(4); c < nc; c++ {
		n := 2 + r.n(12)
		if bits.OnesCount(uint(n)) == 1 {
			n += 8
		}
		for i := 0; i < n; i++ {
			p.Ops = append(p.Ops, opStep{T: 1000 + r.i64(span+1), Who: 3 + c, Src: r.n(3), Do: pick(r, docs), N: int64(r.n(3))})
		}
	}
	p.EndAt = 1000 + span + 1000
	p.sortOps()
	return p
}

func genC14(r *rng) *plan {
	var p *plan
	if r.p(3, 4) {
		p = genReg(r)
	} else {
		p = genC13(r)
		p.Cfg["api"] = true
		p.Cfg["shared"] = true
	}
	p.Prop = "C14"
	p.Cfg["net_us"] = pick(r, []int64{0, 1, 100, 3000})
	return p
}
