package main

import (
	"fmt"
	"sort"
	"strings"
)

// A template is a declarative operator over the source kinds S0..Sn with a
// hand-written reference for the content of each of its targets.
type tmpl struct {
	Name    string
	Srcs    []string             // source kinds (native kinds of sim.io; as views the same kind names)
	Tgts    []tgt                // targets, in the order of the pipeline
	Ctrls   func(m modes) string // YAML list of controllers
	Native  bool                 // native sources only
	NoDup   bool                 // join-like
	Gather  bool
	Multi   []string // spec fields of targets to compare as multisets
	SpecKey string
	// FixedMeta: the target copies the labels and annotations of the source,
	// which must not lose any (targets keep what they do not know to be theirs)
	FixedMeta bool
	SpecOnly  bool // changes of anything but the spec go unnoticed
	// Derive counts the ways each object of the last target is derived (nil: one)
	Derive func(src []map[string]M) map[string]int
}

type tgt struct {
	Kind string
	// ref computes key -> content (labels/annotations/spec/...)
	Ref func(src []map[string]M, prev []map[string]M) map[string]M
	// Mid marks an intermediate kind that is always a view.
	Mid bool
	// Status: content of status only visible on native targets with status.
}

// modes: for each source and target, native ("n") or view ("v").
type modes struct {
	Src []string
	Tgt []string
}

func srcYAML(t *tmpl, m modes, i int, extra string) string {
	if m.Src[i] == "n" {
		return fmt.Sprintf("{apiGroup: sim.io, version: v1, kind: %s%s}", t.Srcs[i], extra)
	}
	return fmt.Sprintf("{kind: %s%s}", t.Srcs[i], extra)
}

func tgtYAML(m modes, i int, kind, typ string) string {
	if m.Tgt[i] == "n" {
		g, v := "sim.io", "v1"
		if kind == "ConfigMap" {
			g = "\"\""
		}
		return fmt.Sprintf("{apiGroup: %s, version: %s, kind: %s, type: %s}", g, v, kind, typ)
	}
	return fmt.Sprintf("{kind: %s, type: %s}", kind, typ)
}

func ctrlYAML(name string, srcs []string, pipeline, target string) string {
	return fmt.Sprintf("- name: %s\n  sources: [%s]\n  pipeline:\n%s\n  target: %s\n", name, strings.Join(srcs, ", "), indent(pipeline, "    "), target)
}

func indent(s, p string) string {
	ls := strings.Split(strings.Trim(s, "\n"), "\n")
	for i := range ls {
		ls[i] = p + ls[i]
	}
	return strings.Join(ls, "\n")
}

func sp(o M) M         { s, _ := o["spec"].(M); return s }
func oname(o M) string { return str(meta(o)["name"]) }
func onsp(o M) string  { return str(meta(o)["namespace"]) }
func sortedKeys(m map[string]M) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// num reads an integer whatever JSON type carries it.
func num(v any) int64 {
	switch x := v.(type) {
	case int64:
		return x
	case int:
		return int64(x)
	case float64:
		return int64(x)
	}
	return 0
}

func truth(v any) bool { b, _ := v.(bool); return b }

func mk(ns, name string, labels M, rest M) (string, M) {
	md := M{"name": name}
	if ns != "" {
		md["namespace"] = ns
	}
	if len(labels) > 0 {
		md["labels"] = labels
	}
	o := M{"metadata": md}
	for k, v := range rest {
		o[k] = v
	}
	return ns + "/" + name, o
}

func list(o M, f string) []any { l, _ := sp(o)[f].([]any); return l }

// ---- the catalogue ----

const projPipe = `
- '@select': {'@eq': ['$.spec.on', true]}
- '@project':
    metadata: {name: '$.metadata.name', namespace: '$.metadata.namespace', labels: {app: sim, grp: '$.spec.grp'}}
    spec: {v: '$.spec.val', k: '$.spec.key', next: {'@sum': ['$.spec.val', 1]}}
`

func projRef(src []map[string]M, prev []map[string]M) map[string]M {
	res := map[string]M{}
	for _, o := range src[0] {
		if !truth(sp(o)["on"]) {
			continue
		}
		k, n := mk(onsp(o), oname(o), M{"app": "sim", "grp": sp(o)["grp"]}, M{"spec": M{"v": sp(o)["val"], "k": sp(o)["key"], "next": num(sp(o)["val"]) + 1}})
		res[k] = n
	}
	return res
}

const plainPipe = `
- '@project':
    metadata: {name: '$.metadata.name', namespace: '$.metadata.namespace'}
    spec: {v: '$.spec.val', k: '$.spec.key'}
`

func plainOf(o M) (string, M) {
	return mk(onsp(o), oname(o), nil, M{"spec": M{"v": sp(o)["val"], "k": sp(o)["key"]}})
}

func plainRefIf(f func(o M) bool) func(src []map[string]M, prev []map[string]M) map[string]M {
	return func(src []map[string]M, prev []map[string]M) map[string]M {
		res := map[string]M{}
		for _, o := range src[0] {
			if f(o) {
				k, n := plainOf(o)
				res[k] = n
			}
		}
		return res
	}
}

func hasLabel(o M, k, v string) bool {
	l, _ := meta(o)["labels"].(M)
	return str(l[k]) == v
}

var tmpls []*tmpl

func init() {
	tmpls = []*tmpl{
		{Name: "proj", Srcs: []string{"Alpha"},
			Ctrls: func(m modes) string {
				t := tmplBy("proj")
				return ctrlYAML("c1", []string{srcYAML(t, m, 0, "")}, projPipe, tgtYAML(m, 0, "Out", "Updater"))
			},
			Tgts: []tgt{{Kind: "Out", Ref: projRef}}},

		{Name: "rename", Srcs: []string{"Alpha"},
			Ctrls: func(m modes) string {
				t := tmplBy("rename")
				return ctrlYAML("c1", []string{srcYAML(t, m, 0, "")}, `
- '@project':
    metadata: {name: {'@concat': ['$.metadata.name', '-', '$.spec.key']}, namespace: '$.metadata.namespace'}
    spec: {v: '$.spec.val'}
`, tgtYAML(m, 0, "Out", "Updater"))
			},
			Tgts: []tgt{{Kind: "Out", Ref: func(src []map[string]M, prev []map[string]M) map[string]M {
				res := map[string]M{}
				for _, o := range src[0] {
					k, n := mk(onsp(o), oname(o)+"-"+str(sp(o)["key"]), nil, M{"spec": M{"v": sp(o)["val"]}})
					res[k] = n
				}
				return res
			}}}},

		{Name: "unwind", Srcs: []string{"Alpha"}, Gather: true,
			Ctrls: func(m modes) string {
				t := tmplBy("unwind")
				return ctrlYAML("c1", []string{srcYAML(t, m, 0, "")}, `
- '@unwind': $.spec.list
- '@project':
    metadata: {name: '$.metadata.name', namespace: '$.metadata.namespace'}
    spec: {e: '$.spec.list', v: '$.spec.val'}
`, tgtYAML(m, 0, "Out", "Updater"))
			},
			Tgts: []tgt{{Kind: "Out", Ref: func(src []map[string]M, prev []map[string]M) map[string]M {
				res := map[string]M{}
				for _, o := range src[0] {
					for i, e := range list(o, "list") {
						k, n := mk(onsp(o), fmt.Sprintf("%s-%d", oname(o), i), nil, M{"spec": M{"e": e, "v": sp(o)["val"]}})
						res[k] = n
					}
				}
				return res
			}}}},

		{Name: "select", Srcs: []string{"Alpha"}, FixedMeta: true,
			Ctrls: func(m modes) string {
				t := tmplBy("select")
				return ctrlYAML("c1", []string{srcYAML(t, m, 0, "")}, `
- '@select': {'@and': [{'@eq': ['$.spec.on', true]}, {'@not': {'@eq': ['$.spec.grp', 'g1']}}]}
`, tgtYAML(m, 0, "Out", "Updater"))
			},
			Tgts: []tgt{{Kind: "Out", Ref: func(src []map[string]M, prev []map[string]M) map[string]M {
				res := map[string]M{}
				for _, o := range src[0] {
					if !truth(sp(o)["on"]) || str(sp(o)["grp"]) == "g1" {
						continue
					}
					l, _ := meta(o)["labels"].(M)
					k, n := mk(onsp(o), oname(o), l, M{"spec": sp(o)})
					res[k] = n
				}
				return res
			}}}},

		{Name: "nsfilter", Srcs: []string{"Alpha"},
			Ctrls: func(m modes) string {
				t := tmplBy("nsfilter")
				return ctrlYAML("c1", []string{srcYAML(t, m, 0, ", namespace: ns1")}, plainPipe, tgtYAML(m, 0, "Out", "Updater"))
			},
			Tgts: []tgt{{Kind: "Out", Ref: plainRefIf(func(o M) bool { return onsp(o) == "ns1" })}}},

		{Name: "labelfilter", Srcs: []string{"Alpha"},
			Ctrls: func(m modes) string {
				t := tmplBy("labelfilter")
				return ctrlYAML("c1", []string{srcYAML(t, m, 0, ", labelSelector: {matchLabels: {tier: t0}}")}, plainPipe, tgtYAML(m, 0, "Out", "Updater"))
			},
			Tgts: []tgt{{Kind: "Out", Ref: plainRefIf(func(o M) bool { return hasLabel(o, "tier", "t0") })}}},

		{Name: "generation", Srcs: []string{"Alpha"}, Native: true, SpecOnly: true,
			Ctrls: func(m modes) string {
				t := tmplBy("generation")
				return ctrlYAML("c1", []string{srcYAML(t, m, 0, ", predicate: GenerationChanged")}, plainPipe, tgtYAML(m, 0, "Out", "Updater"))
			},
			Tgts: []tgt{{Kind: "Out", Ref: plainRefIf(func(o M) bool { return true })}}},

		{Name: "predbool", Srcs: []string{"Alpha"}, Native: true,
			Ctrls: func(m modes) string {
				t := tmplBy("predbool")
				return ctrlYAML("c1", []string{srcYAML(t, m, 0, ", predicate: {Or: [GenerationChanged, LabelChanged]}, namespace: ns1, labelSelector: {matchExpressions: [{key: tier, operator: In, values: [t0]}]}")}, plainPipe, tgtYAML(m, 0, "Out", "Updater"))
			},
			Tgts: []tgt{{Kind: "Out", Ref: plainRefIf(func(o M) bool { return onsp(o) == "ns1" && hasLabel(o, "tier", "t0") })}}},

		{Name: "status", Srcs: []string{"Alpha"},
			Ctrls: func(m modes) string {
				t := tmplBy("status")
				return ctrlYAML("c1", []string{srcYAML(t, m, 0, "")}, `
- '@project':
    metadata: {name: '$.metadata.name', namespace: '$.metadata.namespace', annotations: {note: '$.spec.key'}}
    spec: {v: '$.spec.val'}
    status: {seen: '$.spec.val', grp: '$.spec.grp'}
`, tgtYAML(m, 0, "Out", "Updater"))
			},
			Tgts: []tgt{{Kind: "Out", Ref: func(src []map[string]M, prev []map[string]M) map[string]M {
				res := map[string]M{}
				for _, o := range src[0] {
					k, n := mk(onsp(o), oname(o), nil, M{"spec": M{"v": sp(o)["val"]}, "status": M{"seen": sp(o)["val"], "grp": sp(o)["grp"]}})
					meta(n)["annotations"] = M{"note": sp(o)["key"]}
					res[k] = n
				}
				return res
			}}}},

		{Name: "meta", Srcs: []string{"Alpha"},
			Ctrls: func(m modes) string {
				t := tmplBy("meta")
				return ctrlYAML("c1", []string{srcYAML(t, m, 0, "")}, `
- '@select': {'@not': {'@eq': ['$.metadata.labels.color', 'blue']}}
- '@project':
    metadata: {name: '$.metadata.name', namespace: '$.metadata.namespace'}
    spec: {color: {'@definedOr': ['$.metadata.labels.color', 'none']}, memo: {'@definedOr': ['$.metadata.annotations.memo', 'none']}, s: {'@definedOr': ['$.status.s', -1]}}
`, tgtYAML(m, 0, "Out", "Updater"))
			},
			Tgts: []tgt{{Kind: "Out", Ref: func(src []map[string]M, prev []map[string]M) map[string]M {
				res := map[string]M{}
				or := func(v, d any) any {
					if v == nil {
						return d
					}
					return v
				}
				for _, o := range src[0] {
					c := getPath(o, ".metadata.labels.color")
					if c == "blue" {
						continue
					}
					k, n := mk(onsp(o), oname(o), nil, M{"spec": M{"color": or(c, "none"), "memo": or(getPath(o, ".metadata.annotations.memo"), "none"), "s": or(getPath(o, ".status.s"), int64(-1))}})
					res[k] = n
				}
				return res
			}}}},

		{Name: "configmap", Srcs: []string{"Alpha"},
			Ctrls: func(m modes) string {
				t := tmplBy("configmap")
				return ctrlYAML("c1", []string{srcYAML(t, m, 0, "")}, `
- '@project':
    metadata: {name: '$.metadata.name', namespace: '$.metadata.namespace', labels: {app: sim}}
    data: {k: '$.spec.key', g: '$.spec.grp'}
`, tgtYAML(m, 0, "ConfigMap", "Updater"))
			},
			Tgts: []tgt{{Kind: "ConfigMap", Ref: func(src []map[string]M, prev []map[string]M) map[string]M {
				res := map[string]M{}
				for _, o := range src[0] {
					k, n := mk(onsp(o), oname(o), M{"app": "sim"}, M{"data": M{"k": sp(o)["key"], "g": sp(o)["grp"]}})
					res[k] = n
				}
				return res
			}}}},

		{Name: "chain", Srcs: []string{"Alpha"},
			Ctrls: func(m modes) string {
				t := tmplBy("chain")
				return ctrlYAML("c1", []string{srcYAML(t, m, 0, "")}, `
- '@project':
    metadata: {name: '$.metadata.name', namespace: '$.metadata.namespace'}
    spec: {v: '$.spec.val', k: '$.spec.key', list: '$.spec.list'}
`, "{kind: Mid}") +
					ctrlYAML("c2", []string{"{kind: Mid}"}, `
- '@select': {'@not': {'@eq': ['$.spec.k', 'k2']}}
- '@unwind': $.spec.list
- '@project':
    metadata: {name: '$.metadata.name', namespace: '$.metadata.namespace'}
    spec: {v: '$.spec.v', e: '$.spec.list'}
`, tgtYAML(m, 1, "Out", "Updater"))
			},
			Tgts: []tgt{{Kind: "Mid", Mid: true, Ref: func(src []map[string]M, prev []map[string]M) map[string]M {
				res := map[string]M{}
				for _, o := range src[0] {
					k, n := mk(onsp(o), oname(o), nil, M{"spec": M{"v": sp(o)["val"], "k": sp(o)["key"], "list": sp(o)["list"]}})
					res[k] = n
				}
				return res
			}}, {Kind: "Out", Ref: func(src []map[string]M, prev []map[string]M) map[string]M {
				res := map[string]M{}
				for _, o := range prev[0] {
					if str(sp(o)["k"]) == "k2" {
						continue
					}
					for i, e := range list(o, "list") {
						k, n := mk(onsp(o), fmt.Sprintf("%s-%d", oname(o), i), nil, M{"spec": M{"v": sp(o)["v"], "e": e}})
						res[k] = n
					}
				}
				return res
			}}}},

		{Name: "fanout", Srcs: []string{"Alpha"},
			Ctrls: func(m modes) string {
				t := tmplBy("fanout")
				return ctrlYAML("c1", []string{srcYAML(t, m, 0, "")}, plainPipe, tgtYAML(m, 0, "Out", "Updater")) +
					ctrlYAML("c2", []string{srcYAML(t, m, 0, ", namespace: ns1")}, projPipe, tgtYAML(m, 1, "Out2", "Updater"))
			},
			Tgts: []tgt{{Kind: "Out", Ref: plainRefIf(func(o M) bool { return true })},
				{Kind: "Out2", Ref: func(src []map[string]M, prev []map[string]M) map[string]M {
					res := map[string]M{}
					for k, o := range projRef(src, nil) {
						if onsp(o) == "ns1" {
							res[k] = o
						}
					}
					return res
				}}}},

		{Name: "nchain", Srcs: []string{"Alpha"}, Native: true,
			Ctrls: func(m modes) string {
				t := tmplBy("nchain")
				m.Tgt[0] = "n"
				return ctrlYAML("c1", []string{srcYAML(t, m, 0, "")}, projPipe, tgtYAML(m, 0, "Out", "Updater")) +
					ctrlYAML("c2", []string{"{apiGroup: sim.io, version: v1, kind: Out}"}, `
- '@project':
    metadata: {name: '$.metadata.name', namespace: '$.metadata.namespace'}
    spec: {w: {'@sum': ['$.spec.v', '$.spec.next']}}
`, tgtYAML(m, 1, "Out2", "Updater"))
			},
			Tgts: []tgt{{Kind: "Out", Ref: projRef}, {Kind: "Out2", Ref: func(src []map[string]M, prev []map[string]M) map[string]M {
				res := map[string]M{}
				for _, o := range prev[0] {
					k, n := mk(onsp(o), oname(o), nil, M{"spec": M{"w": num(sp(o)["v"]) + num(sp(o)["next"])}})
					res[k] = n
				}
				return res
			}}}},

		// ---- joins and aggregations ----
		{Name: "join2", Srcs: []string{"Alpha", "Beta"}, NoDup: true,
			Ctrls: func(m modes) string {
				t := tmplBy("join2")
				return ctrlYAML("c1", []string{srcYAML(t, m, 0, ""), srcYAML(t, m, 1, "")}, `
- '@join': {'@and': [{'@eq': ['$.Alpha.spec.key', '$.Beta.spec.key']}, {'@eq': ['$.Alpha.metadata.namespace', '$.Beta.metadata.namespace']}]}
- '@project':
    metadata: {name: {'@concat': ['$.Alpha.metadata.name', '-', '$.Beta.metadata.name']}, namespace: '$.Alpha.metadata.namespace'}
    spec: {a: '$.Alpha.spec.val', b: '$.Beta.spec.val', k: '$.Beta.spec.key'}
`, tgtYAML(m, 0, "Out", "Updater"))
			},
			Tgts: []tgt{{Kind: "Out", Ref: func(src []map[string]M, prev []map[string]M) map[string]M {
				res := map[string]M{}
				for _, a := range src[0] {
					for _, b := range src[1] {
						if sp(a)["key"] == sp(b)["key"] && onsp(a) == onsp(b) {
							k, n := mk(onsp(a), oname(a)+"-"+oname(b), nil, M{"spec": M{"a": sp(a)["val"], "b": sp(b)["val"], "k": sp(b)["key"]}})
							res[k] = n
						}
					}
				}
				return res
			}}}},

		{Name: "semijoin", Srcs: []string{"Alpha", "Beta"}, NoDup: true,
			Derive: func(src []map[string]M) map[string]int {
				res := map[string]int{}
				for _, a := range src[0] {
					for _, b := range src[1] {
						if sp(a)["key"] == sp(b)["key"] {
							res[objKey(a)]++
						}
					}
				}
				return res
			},
			Ctrls: func(m modes) string {
				t := tmplBy("semijoin")
				return ctrlYAML("c1", []string{srcYAML(t, m, 0, ""), srcYAML(t, m, 1, "")}, `
- '@join': {'@eq': ['$.Alpha.spec.key', '$.Beta.spec.key']}
- '@project':
    metadata: {name: '$.Alpha.metadata.name', namespace: '$.Alpha.metadata.namespace'}
    spec: {a: '$.Alpha.spec.val'}
`, tgtYAML(m, 0, "Out", "Updater"))
			},
			Tgts: []tgt{{Kind: "Out", Ref: func(src []map[string]M, prev []map[string]M) map[string]M {
				res := map[string]M{}
				for _, a := range src[0] {
					for _, b := range src[1] {
						if sp(a)["key"] == sp(b)["key"] {
							k, n := mk(onsp(a), oname(a), nil, M{"spec": M{"a": sp(a)["val"]}})
							res[k] = n
						}
					}
				}
				return res
			}}}},

		{Name: "join3", Srcs: []string{"Alpha", "Beta", "Gamma"}, NoDup: true,
			Ctrls: func(m modes) string {
				t := tmplBy("join3")
				return ctrlYAML("c1", []string{srcYAML(t, m, 0, ""), srcYAML(t, m, 1, ""), srcYAML(t, m, 2, "")}, `
- '@join': {'@and': [{'@eq': ['$.Alpha.spec.key', '$.Beta.spec.key']}, {'@eq': ['$.Beta.spec.grp', '$.Gamma.spec.grp']}]}
- '@select': {'@eq': ['$.Gamma.spec.on', true]}
- '@project':
    metadata: {name: {'@concat': ['$.Alpha.metadata.namespace', '-', '$.Alpha.metadata.name', '-', '$.Beta.metadata.namespace', '-', '$.Beta.metadata.name', '-', '$.Gamma.metadata.namespace', '-', '$.Gamma.metadata.name']}, namespace: all}
    spec: {a: '$.Alpha.spec.val', b: '$.Beta.spec.val', c: '$.Gamma.spec.val'}
`, tgtYAML(m, 0, "Out", "Updater"))
			},
			Tgts: []tgt{{Kind: "Out", Ref: func(src []map[string]M, prev []map[string]M) map[string]M {
				res := map[string]M{}
				for _, a := range src[0] {
					for _, b := range src[1] {
						for _, c := range src[2] {
							if sp(a)["key"] == sp(b)["key"] && sp(b)["grp"] == sp(c)["grp"] && truth(sp(c)["on"]) {
								k, n := mk("all", strings.Join([]string{onsp(a), oname(a), onsp(b), oname(b), onsp(c), oname(c)}, "-"), nil,
									M{"spec": M{"a": sp(a)["val"], "b": sp(b)["val"], "c": sp(c)["val"]}})
								res[k] = n
							}
						}
					}
				}
				return res
			}}}},

		{Name: "gather", Srcs: []string{"Alpha"}, Gather: true, Multi: []string{"vals"},
			Ctrls: func(m modes) string {
				t := tmplBy("gather")
				return ctrlYAML("c1", []string{srcYAML(t, m, 0, "")}, `
- '@gather': ['$.spec.grp', '$.spec.val']
- '@project':
    metadata: {name: '$.spec.grp', namespace: all}
    spec: {vals: '$.spec.val', cnt: {'@len': '$.spec.val'}}
`, tgtYAML(m, 0, "Out", "Updater"))
			},
			Tgts: []tgt{{Kind: "Out", Ref: func(src []map[string]M, prev []map[string]M) map[string]M {
				res := map[string]M{}
				vals := map[string][]any{}
				for _, k := range sortedKeys(src[0]) {
					o := src[0][k]
					g := str(sp(o)["grp"])
					vals[g] = append(vals[g], sp(o)["val"])
				}
				for g, vs := range vals {
					k, n := mk("all", g, nil, M{"spec": M{"vals": vs, "cnt": int64(len(vs))}})
					res[k] = n
				}
				return res
			}}}},

		{Name: "invert", Srcs: []string{"Alpha"}, Gather: true, Multi: []string{"names"},
			Ctrls: func(m modes) string {
				t := tmplBy("invert")
				return ctrlYAML("c1", []string{srcYAML(t, m, 0, "")}, `
- '@select': {'@eq': ['$.spec.on', true]}
- '@unwind': $.spec.list
- '@gather': ['$.spec.list', '$.metadata.name']
- '@project':
    metadata: {name: '$.spec.list', namespace: all}
    spec: {names: '$.metadata.name'}
`, tgtYAML(m, 0, "Out", "Updater"))
			},
			Tgts: []tgt{{Kind: "Out", Ref: func(src []map[string]M, prev []map[string]M) map[string]M {
				res := map[string]M{}
				vals := map[string][]any{}
				for _, k := range sortedKeys(src[0]) {
					o := src[0][k]
					if !truth(sp(o)["on"]) {
						continue
					}
					for i, e := range list(o, "list") {
						vals[str(e)] = append(vals[str(e)], fmt.Sprintf("%s-%d", oname(o), i))
					}
				}
				for g, vs := range vals {
					k, n := mk("all", g, nil, M{"spec": M{"names": vs}})
					res[k] = n
				}
				return res
			}}}},

		{Name: "joingather", Srcs: []string{"Alpha", "Beta"}, NoDup: true, Gather: true, Multi: []string{"as"},
			Ctrls: func(m modes) string {
				t := tmplBy("joingather")
				return ctrlYAML("c1", []string{srcYAML(t, m, 0, ""), srcYAML(t, m, 1, "")}, `
- '@join': {'@eq': ['$.Alpha.spec.key', '$.Beta.spec.key']}
- '@project':
    metadata: {name: {'@concat': ['$.Beta.metadata.namespace', '-', '$.Beta.metadata.name']}, namespace: all}
    key: {'@concat': ['$.Beta.metadata.namespace', '-', '$.Beta.metadata.name']}
    a: {'@concat': ['$.Alpha.metadata.namespace', '-', '$.Alpha.metadata.name']}
- '@gather': ['$.key', '$.a']
- '@project':
    metadata: {name: '$.key', namespace: all}
    spec: {as: '$.a'}
`, tgtYAML(m, 0, "Out", "Updater"))
			},
			Tgts: []tgt{{Kind: "Out", Ref: func(src []map[string]M, prev []map[string]M) map[string]M {
				res := map[string]M{}
				for _, b := range src[1] {
					var as []any
					for _, ka := range sortedKeys(src[0]) {
						a := src[0][ka]
						if sp(a)["key"] == sp(b)["key"] {
							as = append(as, onsp(a)+"-"+oname(a))
						}
					}
					if len(as) > 0 {
						k, n := mk("all", onsp(b)+"-"+oname(b), nil, M{"spec": M{"as": as}})
						res[k] = n
					}
				}
				return res
			}}}},

		{Name: "joinunwind", Srcs: []string{"Alpha", "Beta"}, NoDup: true, Gather: true,
			Ctrls: func(m modes) string {
				t := tmplBy("joinunwind")
				return ctrlYAML("c1", []string{srcYAML(t, m, 0, ""), srcYAML(t, m, 1, "")}, `
- '@join': {'@and': [{'@eq': ['$.Alpha.spec.key', '$.Beta.metadata.name']}, {'@eq': ['$.Alpha.metadata.namespace', '$.Beta.metadata.namespace']}]}
- '@project':
    metadata: {name: {'@concat': ['$.Alpha.metadata.name', '-', '$.Beta.metadata.name']}, namespace: '$.Alpha.metadata.namespace'}
    list: '$.Alpha.spec.list'
    b: '$.Beta.spec.val'
- '@unwind': $.list
- '@project':
    metadata: {name: '$.metadata.name', namespace: '$.metadata.namespace'}
    spec: {e: '$.list', b: '$.b'}
`, tgtYAML(m, 0, "Out", "Updater"))
			},
			Tgts: []tgt{{Kind: "Out", Ref: func(src []map[string]M, prev []map[string]M) map[string]M {
				res := map[string]M{}
				for _, a := range src[0] {
					for _, b := range src[1] {
						if str(sp(a)["key"]) == oname(b) && onsp(a) == onsp(b) {
							for i, e := range list(a, "list") {
								k, n := mk(onsp(a), fmt.Sprintf("%s-%s-%d", oname(a), oname(b), i), nil, M{"spec": M{"e": e, "b": sp(b)["val"]}})
								res[k] = n
							}
						}
					}
				}
				return res
			}}}},

		{Name: "joinchain", Srcs: []string{"Alpha", "Beta"}, NoDup: true, Gather: true, Multi: []string{"vals"},
			Ctrls: func(m modes) string {
				t := tmplBy("joinchain")
				return ctrlYAML("c1", []string{srcYAML(t, m, 0, "")}, `
- '@gather': ['$.spec.grp', '$.spec.val']
- '@project':
    metadata: {name: '$.spec.grp', namespace: all}
    spec: {vals: '$.spec.val', grp: '$.spec.grp'}
`, "{kind: Mid}") +
					ctrlYAML("c2", []string{"{kind: Mid}", srcYAML(t, m, 1, "")}, `
- '@join': {'@eq': ['$.Mid.spec.grp', '$.Beta.spec.grp']}
- '@project':
    metadata: {name: {'@concat': ['$.Beta.metadata.namespace', '-', '$.Beta.metadata.name']}, namespace: all}
    spec: {vals: '$.Mid.spec.vals', b: '$.Beta.spec.val'}
`, tgtYAML(m, 1, "Out", "Updater"))
			},
			Tgts: []tgt{{Kind: "Mid", Mid: true, Ref: func(src []map[string]M, prev []map[string]M) map[string]M {
				res := map[string]M{}
				vals := map[string][]any{}
				for _, k := range sortedKeys(src[0]) {
					o := src[0][k]
					g := str(sp(o)["grp"])
					vals[g] = append(vals[g], sp(o)["val"])
				}
				for g, vs := range vals {
					k, n := mk("all", g, nil, M{"spec": M{"vals": vs, "grp": g}})
					res[k] = n
				}
				return res
			}}, {Kind: "Out", Ref: func(src []map[string]M, prev []map[string]M) map[string]M {
				res := map[string]M{}
				for _, m := range prev[0] {
					for _, b := range src[1] {
						if sp(m)["grp"] == sp(b)["grp"] {
							k, n := mk("all", onsp(b)+"-"+oname(b), nil, M{"spec": M{"vals": sp(m)["vals"], "b": sp(b)["val"]}})
							res[k] = n
						}
					}
				}
				return res
			}}}},
	}
}

func tmplBy(name string) *tmpl {
	for _, t := range tmpls {
		if t.Name == name {
			return t
		}
	}
	panic("no template " + name)
}

func tmplNames(f func(*tmpl) bool) []string {
	var r []string
	for _, t := range tmpls {
		if f(t) {
			r = append(r, t.Name)
		}
	}
	return r
}

// content strips what the API machinery owns and normalises multisets.
func content(o M, multi []string) string {
	n := M{}
	for k, v := range o {
		if k == "metadata" || k == "apiVersion" || k == "kind" {
			continue
		}
		n[k] = v
	}
	md := M{}
	m := meta(o)
	for _, k := range []string{"name", "namespace"} {
		if s := str(m[k]); s != "" {
			md[k] = s
		}
	}
	for _, k := range []string{"labels", "annotations"} {
		if l, ok := m[k].(M); ok && len(l) > 0 {
			md[k] = l
		}
	}
	n["metadata"] = md
	if s, ok := n["spec"].(M); ok && len(multi) > 0 {
		s = cp(s)
		for _, f := range multi {
			if l, ok := s[f].([]any); ok {
				l = append([]any{}, l...)
				sort.SliceStable(l, func(i, j int) bool { return canon(l[i]) < canon(l[j]) })
				s[f] = l
			}
		}
		n["spec"] = s
	}
	return canon(n)
}
