package main

import (
	"encoding/json"
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/grokify/mogo/encoding/base36"
)

// Random pipelines and their reference. A pipeline is drawn as the JSON the
// user would write; the reference evaluates that JSON directly on all the
// sources, once, with none of the repository's code.

// ---- the reference evaluator ----

type rctx struct{ root, sub any }

type rerr string

func getPath(root any, path string) any {
	cur := root
	for path != "" {
		switch {
		case strings.HasPrefix(path, `["`):
			i := strings.Index(path, `"]`)
			m, _ := cur.(M)
			cur = m[path[2:i]]
			path = path[i+2:]
		case path[0] == '[':
			i := strings.Index(path, "]")
			var n int
			fmt.Sscan(path[1:i], &n)
			l, _ := cur.([]any)
			if n >= len(l) {
				return nil
			}
			cur = l[n]
			path = path[i+1:]
		case path[0] == '.':
			path = path[1:]
			j := strings.IndexAny(path, ".[")
			if j < 0 {
				j = len(path)
			}
			m, _ := cur.(M)
			cur = m[path[:j]]
			path = path[j:]
		default:
			panic(rerr("bad path " + path))
		}
		if cur == nil {
			return nil
		}
	}
	return cur
}

func rnum(v any) (int64, float64, bool) { // int, float, is int
	switch x := v.(type) {
	case int64:
		return x, float64(x), true
	case int:
		return int64(x), float64(x), true
	case float64:
		return 0, x, false
	}
	panic(rerr(fmt.Sprintf("not a number: %v", v)))
}

func rnums(l []any) ([]int64, []float64, bool) {
	var is []int64
	var fs []float64
	all := true
	for _, e := range l {
		i, f, ok := rnum(e)
		all = all && ok
		is, fs = append(is, i), append(fs, f)
	}
	return is, fs, all
}

func rstr(v any) string {
	switch x := v.(type) {
	case string:
		return x
	case int64, int:
		return fmt.Sprint(x)
	}
	panic(rerr(fmt.Sprintf("not a string: %v", v)))
}

// reval evaluates an expression.
func reval(e any, c rctx) any {
	switch x := e.(type) {
	case string:
		if strings.HasPrefix(x, "$$") {
			return getPath(c.sub, x[2:])
		}
		if strings.HasPrefix(x, "$") {
			return getPath(c.root, x[1:])
		}
		return x
	case []any:
		var l []any
		for _, a := range x {
			l = append(l, reval(a, c))
		}
		return l
	case M:
		if len(x) == 1 {
			for k, a := range x {
				if k[0] == '@' {
					return rop(k, a, c)
				}
			}
		}
		res := M{}
		for k, a := range x {
			rset(res, k, deepCopy(reval(a, c)))
		}
		return res
	}
	return e
}

func rset(o M, key string, v any) {
	if strings.HasPrefix(key, "$.") {
		setPath(o, key[2:], v)
		return
	}
	o[key] = v
}

func rop(op string, arg any, c rctx) any {
	args, _ := arg.([]any)
	list := func(v any) []any { l, _ := v.([]any); return l }
	switch op {
	case "@and":
		for _, a := range args {
			if !reval(a, c).(bool) {
				return false
			}
		}
		return true
	case "@or":
		for _, a := range args {
			if reval(a, c).(bool) {
				return true
			}
		}
		return false
	case "@not":
		return !reval(arg, c).(bool)
	case "@noop":
		return nil
	case "@cond":
		if reval(args[0], c).(bool) {
			return reval(args[1], c)
		}
		if len(args) == 3 {
			return reval(args[2], c)
		}
		return nil
	case "@switch":
		for _, a := range args {
			if p := a.([]any); reval(p[0], c).(bool) {
				return reval(p[1], c)
			}
		}
		return nil
	case "@definedOr":
		if v := reval(args[0], c); v != nil {
			return v
		}
		return reval(args[1], c)
	case "@filter", "@map", "@any", "@all", "@none":
		res := []any{}
		n, l := 0, list(reval(args[1], c))
		for _, e := range l {
			v := reval(args[0], rctx{c.root, e})
			if op == "@map" {
				res = append(res, v)
			} else if v.(bool) {
				n++
				res = append(res, e)
			}
		}
		switch op {
		case "@any":
			return n > 0
		case "@all":
			return n == len(l)
		case "@none":
			return n == 0
		}
		return res
	}
	v := reval(arg, c)
	switch op {
	case "@isnil":
		return v == nil
	case "@exists":
		return v != nil
	case "@len":
		return int64(len(list(v)))
	case "@hash":
		b, _ := json.Marshal(v)
		h := base36.Md5Base36(string(b))
		for len(h) < 6 {
			h += "x"
		}
		return h[:6]
	case "@string":
		return rstr(v)
	case "@int":
		i, _, _ := rnum(v)
		return i
	case "@float":
		_, f, _ := rnum(v)
		return f
	case "@bool":
		return v.(bool)
	case "@abs":
		_, f, _ := rnum(v)
		return math.Abs(f)
	case "@ceil":
		_, f, _ := rnum(v)
		return math.Ceil(f)
	case "@floor":
		_, f, _ := rnum(v)
		return math.Floor(f)
	}
	a := list(v)
	switch op {
	case "@eq":
		return a[0] != nil && a[1] != nil && canon(a[0]) == canon(a[1])
	case "@lt", "@lte", "@gt", "@gte":
		_, fs, _ := rnums(a)
		switch op {
		case "@lt":
			return fs[0] < fs[1]
		case "@lte":
			return fs[0] <= fs[1]
		case "@gt":
			return fs[0] > fs[1]
		}
		return fs[0] >= fs[1]
	case "@in":
		for _, e := range list(a[1]) {
			if canon(e) == canon(a[0]) {
				return true
			}
		}
		return false
	case "@concat":
		s := ""
		for _, e := range a {
			s += rstr(e)
		}
		return s
	case "@add", "@sub", "@mul", "@sum", "@min", "@max":
		is, fs, ok := rnums(a)
		if len(is) == 0 {
			if op == "@sum" {
				return int64(0)
			}
			return nil
		}
		if ok {
			r := is[0]
			for _, x := range is[1:] {
				switch op {
				case "@add", "@sum":
					r += x
				case "@sub":
					r -= x
				case "@mul":
					r *= x
				case "@min":
					r = min(r, x)
				case "@max":
					r = max(r, x)
				}
			}
			return r
		}
		r := fs[0]
		for _, x := range fs[1:] {
			switch op {
			case "@add", "@sum":
				r += x
			case "@sub":
				r -= x
			case "@mul":
				r *= x
			case "@min":
				r = min(r, x)
			case "@max":
				r = max(r, x)
			}
		}
		return r
	case "@div":
		_, fs, _ := rnums(a)
		return fs[0] / fs[1]
	case "@range":
		is, _, _ := rnums(a)
		res := []any{}
		for i := is[0]; i < is[1]; i++ {
			res = append(res, i)
		}
		return res
	case "@selector":
		sel, ok1 := a[0].(M)
		lab, ok2 := a[1].(M)
		if !ok1 || !ok2 {
			return false
		}
		ml, _ := sel["matchLabels"].(M)
		for k, e := range ml {
			if str(lab[k]) != str(e) {
				return false
			}
		}
		return true
	}
	panic(rerr("unknown op " + op))
}

func rmerge(a, b any) any {
	am, ok1 := a.(M)
	bm, ok2 := b.(M)
	if ok1 && ok2 {
		n := cp(am)
		for k, v := range bm {
			if o, ok := n[k]; ok {
				n[k] = rmerge(o, v)
			} else {
				n[k] = deepCopy(v)
			}
		}
		return n
	}
	return deepCopy(b)
}

// rpipe evaluates a pipeline on the objects of its sources.
func rpipe(ops []any, kinds []string, srcs []map[string]M) []M {
	var docs []M
	joined := false
	for _, o := range ops {
		joined = joined || o.(M)["@join"] != nil
	}
	if !joined {
		for _, k := range sortedKeys(srcs[0]) {
			docs = append(docs, cp(srcs[0][k]))
		}
	} else {
		docs = []M{{}}
		for i, s := range srcs {
			var n []M
			for _, d := range docs {
				for _, k := range sortedKeys(s) {
					x := cp(d)
					x[kinds[i]] = cp(s[k])
					n = append(n, x)
				}
			}
			docs = n
		}
	}
	for _, o := range ops {
		for op, arg := range o.(M) {
			var n []M
			switch op {
			case "@join", "@select":
				for _, d := range docs {
					if reval(arg, rctx{root: d}).(bool) {
						n = append(n, d)
					}
				}
			case "@project":
				for _, d := range docs {
					v := reval(arg, rctx{root: d})
					if l, ok := v.([]any); ok {
						var m any = M{}
						for _, e := range l {
							m = rmerge(m, e)
						}
						v = m
					}
					n = append(n, cp(v.(M)))
				}
			case "@unwind", "@demux":
				for _, d := range docs {
					l, _ := getPath(d, arg.(string)[1:]).([]any)
					for i, e := range l {
						x := cp(d)
						setPath(x, arg.(string)[2:], deepCopy(e))
						meta(x)["name"] = fmt.Sprintf("%s-%d", str(meta(x)["name"]), i)
						n = append(n, x)
					}
				}
			case "@gather", "@mux":
				a := arg.([]any)
				groups := map[string][]M{}
				for _, d := range docs {
					g := reval(a[0], rctx{root: d})
					if g == nil || getPath(d, a[1].(string)[1:]) == nil {
						continue
					}
					groups[canon(g)] = append(groups[canon(g)], d)
				}
				gs := make([]string, 0, len(groups))
				for g := range groups {
					gs = append(gs, g)
				}
				sort.Strings(gs)
				for _, g := range gs {
					x := cp(groups[g][0])
					var vs, reps, all []any
					for _, d := range groups[g] {
						vs = append(vs, getPath(d, a[1].(string)[1:]))
						reps = append(reps, oname(d))
						all = append(all, canon(d))
					}
					sort.SliceStable(vs, func(i, j int) bool { return canon(vs[i]) < canon(vs[j]) })
					setPath(x, a[1].(string)[2:], vs)
					// any member may represent the group
					meta(x)["name"] = M{"oneof": reps, "all": all}
					n = append(n, x)
				}
			default:
				panic(rerr("unknown stage " + op))
			}
			docs = n
		}
	}
	return docs
}

// ---- templates from a drawn description ----

// randTmpl builds the template of a description:
// {srcs: [{kind, extra, ns, tier}], ctrls: [{ops, mid}]}.
func randTmpl(c M) *tmpl {
	t := &tmpl{Name: "rand", Multi: []string{"vals"}}
	var filters []M
	for _, s := range c["srcs"].([]any) {
		s := s.(M)
		t.Srcs = append(t.Srcs, str(s["kind"]))
		filters = append(filters, s)
		if str(s["extra"]) != "" && strings.Contains(str(s["extra"]), "predicate") {
			t.Native = true
		}
	}
	t.FixedMeta = truth(c["fixedmeta"])
	t.SpecOnly = truth(c["speconly"])
	ctrls := c["ctrls"].([]any)
	t.Ctrls = func(m modes) string {
		y := ""
		for i, e := range ctrls {
			e := e.(M)
			b, err := json.Marshal(e["ops"])
			if err != nil {
				panic(err)
			}
			srcs := []string{"{kind: Mid}"}
			if i == 0 {
				srcs = nil
				for j := range t.Srcs {
					srcs = append(srcs, srcYAML(t, m, j, str(filters[j]["extra"])))
				}
			}
			tg := "{kind: Mid}"
			if i == len(ctrls)-1 {
				tg = tgtYAML(m, i, "Out", "Updater")
			}
			y += ctrlYAML(fmt.Sprintf("c%d", i+1), srcs, string(b), tg)
		}
		return y
	}
	for i, e := range ctrls {
		ops := e.(M)["ops"].([]any)
		g := tgt{Kind: "Out"}
		if i < len(ctrls)-1 {
			g = tgt{Kind: "Mid", Mid: true}
		}
		g.Ref = func(src, prev []map[string]M) map[string]M {
			in := []map[string]M{}
			if i > 0 {
				in = append(in, prev[i-1])
			} else {
				for j, s := range src {
					f := map[string]M{}
					for k, o := range s {
						if ns := str(filters[j]["ns"]); ns != "" && onsp(o) != ns {
							continue
						}
						if tier := str(filters[j]["tier"]); tier != "" && !hasLabel(o, "tier", tier) {
							continue
						}
						f[k] = o
					}
					in = append(in, f)
				}
			}
			res := map[string]M{}
			for _, d := range rpipe(ops, t.Srcs, in) {
				res[objKey(d)] = d
			}
			return res
		}
		t.Tgts = append(t.Tgts, g)
	}
	return t
}

// ---- drawing pipelines ----

type renv struct {
	r                         *rng
	ints, strs, bools, floats []string
	ilists, slists, dicts     []string
	nilInts, nilStrs, labels  []string
}

func srcEnv(r *rng, pre string, specOnly bool) *renv {
	e := &renv{r: r}
	p := func(s string) string {
		if r.p(1, 8) {
			i := strings.LastIndex(s, ".")
			return pre + s[:i] + `["` + s[i+1:] + `"]`
		}
		return pre + s
	}
	e.ints = []string{p(".spec.val"), p(".spec.m.x")}
	e.strs = []string{p(".spec.key"), p(".spec.grp"), p(".spec.m.y"), pre + ".metadata.name", pre + ".metadata.namespace"}
	e.bools = []string{p(".spec.on"), p(".spec.m.z.b")}
	e.floats = []string{p(".spec.f")}
	e.ilists = []string{pre + ".spec.nums"}
	e.slists = []string{pre + ".spec.list"}
	e.dicts = []string{pre + ".spec.m", pre + ".spec.m.z"}
	e.nilInts = []string{p(".spec.opt"), pre + ".spec.nums[1]"}
	e.nilStrs = []string{pre + ".spec.list[0]"}
	if !specOnly {
		e.nilStrs = append(e.nilStrs, pre+".metadata.labels.color", pre+".metadata.annotations.memo")
		e.nilInts = append(e.nilInts, pre+".status.s")
		e.labels = []string{pre + ".metadata.labels"}
	}
	return e
}

func (e *renv) add(o *renv) {
	e.ints, e.strs, e.bools, e.floats = append(e.ints, o.ints...), append(e.strs, o.strs...), append(e.bools, o.bools...), append(e.floats, o.floats...)
	e.ilists, e.slists, e.dicts = append(e.ilists, o.ilists...), append(e.slists, o.slists...), append(e.dicts, o.dicts...)
	e.nilInts, e.nilStrs, e.labels = append(e.nilInts, o.nilInts...), append(e.nilStrs, o.nilStrs...), append(e.labels, o.labels...)
}

// drop forgets every path at or below p.
func (e *renv) drop(p string) {
	for _, l := range []*[]string{&e.ints, &e.strs, &e.bools, &e.floats, &e.ilists, &e.slists, &e.dicts, &e.nilInts, &e.nilStrs, &e.labels} {
		var n []string
		for _, s := range *l {
			if s != p && !strings.HasPrefix(s, p+".") && !strings.HasPrefix(s, p+"[") {
				n = append(n, s)
			}
		}
		*l = n
	}
}

func op1(op string, a ...any) M {
	if len(a) == 1 {
		return M{op: a[0]}
	}
	return M{op: append([]any{}, a...)}
}

// literals that appear in the data
func (e *renv) litInt() any { return e.r.i64(4) }
func (e *renv) litStr() any {
	return pick(e.r, []any{"k0", "k1", "g0", "g1", "e0", "e1", "y0", "a", "ns1", "red"})
}

func (e *renv) int(d int, sub string) any {
	r := e.r
	if sub == "i" && r.p(1, 2) {
		return "$$"
	}
	if d <= 0 || r.p(1, 4) {
		if len(e.ints) > 0 && r.p(3, 4) {
			return pick(r, e.ints)
		}
		return e.litInt()
	}
	switch r.n(11) {
	case 0:
		return op1("@sum", e.int(d-1, sub), e.int(d-1, sub), e.litInt())
	case 1:
		return op1(pick(r, []string{"@add", "@sub", "@mul"}), e.int(d-1, sub), e.int(d-1, sub))
	case 2:
		return op1("@len", e.ilist(d-1, sub))
	case 3:
		if l := e.slist(d-1, sub); l != nil {
			return op1("@len", l)
		}
	case 4:
		return op1(pick(r, []string{"@min", "@max"}), e.int(d-1, sub), e.int(d-1, sub))
	case 5:
		return op1("@cond", e.bool(d-1, sub), e.int(d-1, sub), e.int(d-1, sub))
	case 6:
		if len(e.nilInts) > 0 {
			return op1("@definedOr", pick(r, e.nilInts), e.int(d-1, sub))
		}
	case 7:
		return op1("@switch", []any{e.bool(d-1, sub), e.int(d-1, sub)}, []any{e.bool(d-1, sub), e.int(d-1, sub)}, []any{true, e.int(d-1, sub)})
	case 8:
		return op1("@sum", e.ilist(d-1, sub))
	case 9:
		return op1("@int", e.int(d-1, sub))
	case 10:
		return op1("@definedOr", op1(pick(r, []string{"@min", "@max"}), e.ilist(d-1, sub)), e.litInt())
	}
	return e.litInt()
}

func (e *renv) float(d int, sub string) any {
	r := e.r
	if len(e.floats) == 0 || r.p(1, 4) {
		return pick(r, []any{0.5, 1.25, 2.5})
	}
	if d <= 0 || r.p(1, 3) {
		return pick(r, e.floats)
	}
	switch r.n(5) {
	case 0:
		return op1("@sum", e.float(d-1, sub), e.float(d-1, sub), 0.25)
	case 1:
		return op1(pick(r, []string{"@min", "@max", "@add", "@sub", "@mul"}), e.float(d-1, sub), e.float(d-1, sub))
	case 2:
		return op1("@div", e.int(d-1, sub), 4)
	case 3:
		return op1(pick(r, []string{"@abs", "@ceil", "@floor"}), e.float(d-1, sub))
	}
	return op1("@cond", e.bool(d-1, sub), e.float(d-1, sub), e.float(d-1, sub))
}

func (e *renv) str(d int, sub string) any {
	r := e.r
	if sub == "s" && r.p(1, 2) {
		return "$$"
	}
	if d <= 0 || r.p(1, 3) {
		if len(e.strs) > 0 && r.p(5, 6) {
			return pick(r, e.strs)
		}
		return e.litStr()
	}
	switch r.n(6) {
	case 0:
		return op1("@concat", e.str(d-1, sub), "-", e.str(d-1, sub))
	case 1:
		return op1("@string", e.int(d-1, sub))
	case 2:
		return op1("@cond", e.bool(d-1, sub), e.str(d-1, sub), e.str(d-1, sub))
	case 3:
		if len(e.nilStrs) > 0 {
			return op1("@definedOr", pick(r, e.nilStrs), e.str(d-1, sub))
		}
	case 4:
		return op1("@hash", pick(r, []any{e.str(d-1, sub), e.int(d-1, sub), op1("@concat", e.str(d-1, sub), e.str(d-1, sub))}))
	case 5:
		return op1("@concat", e.str(d-1, sub), e.int(d-1, sub))
	}
	return e.litStr()
}

func (e *renv) bool(d int, sub string) any {
	r := e.r
	if d <= 0 || r.p(1, 6) {
		if len(e.bools) > 0 && r.p(5, 6) {
			return pick(r, e.bools)
		}
		return r.p(1, 2)
	}
	switch r.n(15) {
	case 0, 1:
		return op1("@eq", e.str(d-1, sub), e.str(d-1, sub))
	case 2:
		return op1("@eq", e.int(d-1, sub), e.int(d-1, sub))
	case 3:
		return op1("@and", e.bool(d-1, sub), e.bool(d-1, sub))
	case 4:
		return op1("@or", e.bool(d-1, sub), e.bool(d-1, sub), e.bool(d-1, sub))
	case 5:
		return op1("@not", e.bool(d-1, sub))
	case 6, 7:
		return op1(pick(r, []string{"@lt", "@lte", "@gt", "@gte"}), e.int(d-1, sub), e.int(d-1, sub))
	case 8:
		return op1(pick(r, []string{"@lt", "@lte", "@gt", "@gte"}), e.float(d-1, sub), pick(r, []any{e.float(d-1, sub), e.int(d-1, sub)}))
	case 9:
		if len(e.nilInts)+len(e.nilStrs) > 0 {
			return op1(pick(r, []string{"@isnil", "@exists"}), pick(r, append(append([]string{}, e.nilInts...), e.nilStrs...)))
		}
	case 10:
		if l := e.slist(d-1, sub); l != nil {
			return op1("@in", e.str(d-1, sub), l)
		}
		return op1("@in", e.int(d-1, sub), e.ilist(d-1, sub))
	case 11:
		return op1("@in", e.int(d-1, sub), e.ilist(d-1, sub))
	case 12:
		if sub == "" {
			if l := e.slist(d-1, sub); l != nil && r.p(1, 2) {
				return op1(pick(r, []string{"@any", "@all", "@none"}), e.bool(d-1, "s"), l)
			}
			return op1(pick(r, []string{"@any", "@all", "@none"}), e.bool(d-1, "i"), e.ilist(d-1, sub))
		}
	case 13:
		if len(e.labels) > 0 {
			return op1("@selector", M{"matchLabels": M{pick(r, []string{"color", "tier"}): pick(r, []any{"red", "t0"})}}, pick(r, e.labels))
		}
	case 14:
		if len(e.nilStrs) > 0 {
			return op1("@eq", pick(r, e.nilStrs), e.str(d-1, sub))
		}
	}
	return op1("@eq", e.str(d-1, sub), e.litStr())
}

func (e *renv) ilist(d int, sub string) any {
	r := e.r
	if d <= 0 || r.p(1, 2) {
		if len(e.ilists) > 0 && r.p(5, 6) {
			return pick(r, e.ilists)
		}
		return []any{e.litInt(), e.int(0, sub)}
	}
	switch r.n(4) {
	case 0:
		if sub == "" {
			return op1("@filter", e.bool(d-1, "i"), e.ilist(d-1, sub))
		}
	case 1:
		if sub == "" {
			return op1("@map", e.int(d-1, "i"), e.ilist(d-1, sub))
		}
	case 2:
		return op1("@range", pick(r, []any{int64(0), int64(1)}), op1("@min", e.int(d-1, sub), int64(4)))
	}
	return []any{e.int(d-1, sub), e.litInt()}
}

// slist is nil if there is no list of strings.
func (e *renv) slist(d int, sub string) any {
	r := e.r
	if len(e.slists) == 0 {
		return nil
	}
	if d <= 0 || sub != "" || r.p(1, 2) {
		return pick(r, e.slists)
	}
	if r.p(1, 2) {
		return op1("@filter", e.bool(d-1, "s"), e.slist(d-1, sub))
	}
	return op1("@map", e.str(d-1, "s"), e.slist(d-1, sub))
}

// fields draws the fields of a projection; it tells the environment they make.
func (e *renv) fields(n, d int) (M, *renv) {
	spec, o := M{}, &renv{r: e.r}
	for i := 0; i < n; i++ {
		f := fmt.Sprintf("p%d", i)
		p := "$.spec." + f
		switch e.r.n(8) {
		case 0, 1:
			spec[f] = e.int(d, "")
			o.ints = append(o.ints, p)
		case 2, 3:
			spec[f] = e.str(d, "")
			o.strs = append(o.strs, p)
		case 4:
			spec[f] = e.bool(d, "")
			o.bools = append(o.bools, p)
		case 5:
			spec[f] = e.float(d, "")
			o.floats = append(o.floats, p)
		case 6:
			spec[f] = e.ilist(d, "")
			o.ilists = append(o.ilists, p)
		case 7:
			if l := e.slist(d, ""); l != nil {
				spec[f] = l
				o.slists = append(o.slists, p)
			} else if len(e.dicts) > 0 {
				spec[f] = pick(e.r, e.dicts)
			} else {
				spec[f] = M{"in": e.int(d, ""), "deep": M{"s": e.str(d, "")}}
			}
		}
	}
	return spec, o
}

// project draws a projection of the document into one of the given name.
func (e *renv) project(name, ns any, final, plainMeta bool, rep bool) (M, *renv) {
	r := e.r
	spec, env := e.fields(1+r.n(4), 1+r.n(3))
	md := M{"name": name, "namespace": ns}
	env.strs = append(env.strs, "$.metadata.name", "$.metadata.namespace")
	if final && r.p(1, 3) {
		md["labels"] = M{"lab": e.str(1, "")}
	}
	if final && r.p(1, 4) {
		md["annotations"] = M{"ann": e.str(1, "")}
	}
	if rep {
		spec["rep"] = "$.metadata.name"
	}
	o := M{"metadata": md, "spec": spec}
	if final && r.p(1, 5) {
		o["status"] = M{"st": e.int(1, "")}
	}
	if r.p(2, 3) {
		return M{"@project": o}, env
	}
	// the same, step by step
	l := []any{M{"metadata": md}}
	keys := make([]string, 0, len(spec))
	for k := range spec {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		if r.p(1, 2) {
			l = append(l, M{"$.spec." + k: spec[k]})
		} else {
			l = append(l, M{"spec": M{k: spec[k]}})
		}
		if r.p(1, 6) { // to be overwritten
			i := len(l) - 1
			if _, ok := spec[k].(string); ok {
				l = append(l[:i], M{"$.spec." + k: "early"}, l[i])
			}
		}
	}
	if st := o["status"]; st != nil {
		l = append(l, M{"status": st})
	}
	return M{"@project": l}, env
}

// genRand draws a template description.
func genRand(r *rng, prop string) M {
	c := M{}
	n := 1
	switch prop {
	case "C01":
	case "C04":
		n = 1 + r.n(3)
	default:
		n = 1 + r.n(2)
	}
	specOnly := false
	kinds := []string{"Alpha", "Beta", "Gamma"}[:n]
	var srcs []any
	for _, k := range kinds {
		s := M{"kind": k}
		x := ""
		if r.p(1, 6) {
			s["ns"] = "ns1"
			x += ", namespace: ns1"
		}
		switch r.n(10) {
		case 0:
			s["tier"] = "t0"
			x += ", labelSelector: {matchLabels: {tier: t0}}"
		case 1:
			s["tier"] = "t1"
			x += ", labelSelector: {matchExpressions: [{key: tier, operator: NotIn, values: [t0]}, {key: tier, operator: Exists}]}"
		case 2:
			if n == 1 {
				x += pick(r, []string{", predicate: GenerationChanged", ", predicate: {Or: [GenerationChanged, AnnotationChanged]}", ", predicate: {And: [GenerationChanged, ResourceVersionChanged]}"})
				specOnly = true
			}
		}
		s["extra"] = x
		srcs = append(srcs, s)
	}
	c["srcs"] = srcs
	c["speconly"] = specOnly
	var env *renv
	var ops []any
	var name, ns any = "$.metadata.name", "$.metadata.namespace"
	if n == 1 {
		env = srcEnv(r, "$", specOnly)
		if r.p(1, 8) { // a trivial join
			ops = append(ops, M{"@join": true})
			env = srcEnv(r, "$.Alpha", specOnly)
			name, ns = "$.Alpha.metadata.name", "$.Alpha.metadata.namespace"
		}
	} else {
		env = &renv{r: r}
		cat := []any{}
		var eqs []any
		for i, k := range kinds {
			env.add(srcEnv(r, "$."+k, specOnly))
			if i > 0 {
				cat = append(cat, "-")
				f := func(k string) string {
					return "$." + k + pick(r, []string{".spec.key", ".spec.grp", ".metadata.name", ".metadata.namespace", ".spec.key"})
				}
				switch r.n(4) {
				case 0:
					eqs = append(eqs, op1("@eq", f(kinds[i-1]), f(k)))
				case 1:
					p := pick(r, []string{".spec.val", ".spec.m.x"})
					eqs = append(eqs, op1(pick(r, []string{"@eq", "@lt"}), "$."+kinds[i-1]+p, "$."+k+".spec.val"))
				default:
					p := pick(r, []string{".spec.key", ".spec.grp", ".metadata.namespace", ".metadata.name"})
					eqs = append(eqs, op1("@eq", "$."+kinds[i-1]+p, "$."+k+p))
				}
			}
			cat = append(cat, "$."+k+".metadata.namespace", "-", "$."+k+".metadata.name")
		}
		if r.p(1, 3) {
			eqs = append(eqs, env.bool(2, ""))
		}
		var cond any = op1("@and", eqs...)
		if len(eqs) == 1 {
			cond = eqs[0]
		}
		ops = append(ops, M{"@join": cond})
		name, ns = M{"@concat": cat}, "all"
	}
	if r.p(1, 2) {
		ops = append(ops, M{"@select": env.bool(3, "")})
	}
	inner := n > 1 || name != "$.metadata.name" // the document has no metadata of its own
	if inner && r.p(2, 3) || r.p(1, 4) {
		var o M
		o, env = env.project(name, ns, false, true, false)
		ops = append(ops, o)
		name, ns, inner = "$.metadata.name", "$.metadata.namespace", false
	}
	lists := append(append([]string{}, env.ilists...), env.slists...)
	if !inner && len(lists) > 0 && r.p(1, 3) {
		p := pick(r, lists)
		isInt := strings.Join(env.ilists, " ") != "" && contains(env.ilists, p)
		if !strings.Contains(p, `["`) {
			ops = append(ops, M{pick(r, []string{"@unwind", "@unwind", "@demux"}): p})
			env.drop(p)
			if isInt {
				env.ints = append(env.ints, p)
			} else {
				env.strs = append(env.strs, p)
			}
		}
	}
	if r.p(1, 4) {
		ops = append(ops, M{"@select": env.bool(2, "")})
	}
	rep := false
	if !inner && r.p(1, 3) && prop != "C01" {
		// gather by a plain path
		var gk []string
		for _, p := range append(append([]string{}, env.strs...), env.ints...) {
			if !strings.Contains(p, `["`) && p != "$.metadata.name" {
				gk = append(gk, p)
			}
		}
		key := pick(r, gk)
		var vk []string
		for _, p := range append(append(append([]string{}, env.strs...), env.ints...), env.nilInts...) {
			if !strings.Contains(p, `[`) && p != key && p != "$.metadata.namespace" && p != "$.metadata.name" {
				vk = append(vk, p)
			}
		}
		if len(vk) > 0 {
			val := pick(r, vk)
			isInt := contains(env.ints, val) || contains(env.nilInts, val)
			ops = append(ops, M{pick(r, []string{"@gather", "@gather", "@mux"}): []any{key, val}})
			keyInt := contains(env.ints, key)
			env = &renv{r: r}
			if keyInt {
				env.ints = []string{key}
			} else {
				env.strs = []string{key}
			}
			// functions of the group that do not depend on the order of its values
			spec := M{"vals": val, "cnt": op1("@len", val), "key": key}
			if isInt {
				spec["sum"] = op1("@sum", val)
				spec["max"] = op1("@max", val)
			} else {
				spec["in"] = op1("@in", env.litStr(), val)
			}
			if r.p(1, 2) {
				rep = true
				spec["rep"] = "$.metadata.name"
			}
			ops = append(ops, M{"@project": M{"metadata": M{"name": op1("@concat", "g-", key), "namespace": "all"}, "spec": spec}})
			env = &renv{r: r, strs: []string{"$.metadata.name"}, ints: []string{"$.spec.cnt"}, ilists: nil}
			c["ctrls"] = []any{M{"ops": ops}}
			if r.p(1, 3) && !rep {
				var ops2 []any
				if r.p(1, 2) {
					ops2 = append(ops2, M{"@select": env.bool(2, "")})
				}
				o, _ := env.project("$.metadata.name", "$.metadata.namespace", true, true, false)
				ops2 = append(ops2, o)
				c["ctrls"] = []any{M{"ops": ops}, M{"ops": ops2}}
			}
			return c
		}
	}
	if r.p(1, 4) { // a chain of two controllers
		var o M
		o, env = env.project(name, ns, false, true, false)
		ops = append(ops, o)
		var ops2 []any
		if r.p(1, 2) {
			ops2 = append(ops2, M{"@select": env.bool(2, "")})
		}
		o, _ = env.project("$.metadata.name", "$.metadata.namespace", true, true, false)
		ops2 = append(ops2, o)
		c["ctrls"] = []any{M{"ops": ops}, M{"ops": ops2}}
		return c
	}
	o, _ := env.project(name, ns, true, true, rep)
	ops = append(ops, o)
	c["ctrls"] = []any{M{"ops": ops}}
	return c
}

func contains(l []string, s string) bool {
	for _, e := range l {
		if e == s {
			return true
		}
	}
	return false
}

// fixRep replaces the representative of a group in got by the alternatives
// wanted, if it is one of them.
func fixRep(want, got map[string]M) map[string]M {
	res := map[string]M{}
	for k, o := range got {
		res[k] = o
		if want[k] == nil {
			continue
		}
		// a patch taken back may leave an empty map behind
		if q, ok := sp(o)["q"].(M); ok && len(q) == 0 && sp(want[k])["own"] != nil && sp(want[k])["q"] == nil {
			n := cp(o)
			delete(sp(n), "q")
			res[k] = n
		}
		w, ok := sp(want[k])["rep"].(M)
		if !ok || sp(o) == nil {
			continue
		}
		l, _ := w["oneof"].([]any)
		for _, e := range l {
			if e == sp(o)["rep"] {
				n := cp(o)
				sp(n)["rep"] = w
				res[k] = n
				break
			}
		}
	}
	return res
}

// tmplOf is the template of a plan.
func tmplOf(p *plan) *tmpl {
	if p.cfgS("tmpl") == "patchdoc" {
		return patchDoc()
	}
	if c, ok := p.Cfg["rand"].(M); ok {
		return randTmpl(c)
	}
	return tmplBy(p.cfgS("tmpl"))
}
