package main

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"time"

	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"

	opv1a1 "github.com/l7mp/dcontroller/pkg/api/operator/v1alpha1"
	"github.com/l7mp/dcontroller/pkg/controller"
)

// The confinement scenario (C12): source objects the pipeline cannot process,
// results the API server refuses and misconfigured controllers beside good
// objects and good controllers, with error readers of every kind.

// badCase is a pipeline some objects cannot go through.
type badCase struct {
	name   string
	srcs   []string
	pipe   string
	mid    string             // a first stage that copies to Mid
	native bool               // native target only
	errBy  string             // the controller that fails
	bad    func(o M) bool     // cannot be processed
	spoil  func(s M, n int64) // makes the spec of a source bad
	only   int                // index of the source that can be bad
	final  bool               // judge the outcome only after everything is corrected
	ref    func(src []map[string]M) map[string]M
}

func strIn(v any) bool { _, ok := v.(string); return ok }

func sumRef(src []map[string]M) map[string]M {
	res := map[string]M{}
	for _, o := range src[0] {
		k, n := mk(onsp(o), oname(o), nil, M{"spec": M{"next": num(sp(o)["val"]) + 1, "k": sp(o)["key"]}})
		res[k] = n
	}
	return res
}

func spoilVal(s M, n int64) { s["val"] = fmt.Sprintf("bad%d", n) }
func badVal(o M) bool       { return strIn(sp(o)["val"]) }

const sumPipe = "- '@project': {metadata: {name: $.metadata.name, namespace: $.metadata.namespace}, spec: {next: {'@sum': ['$.spec.val', 1]}, k: $.spec.key}}"

var badCases = []badCase{
	{name: "sum", srcs: []string{"Alpha"}, pipe: sumPipe, errBy: "c1", bad: badVal, spoil: spoilVal, ref: sumRef},
	{name: "chain", srcs: []string{"Alpha"}, mid: "- '@project': {metadata: {name: $.metadata.name, namespace: $.metadata.namespace}, spec: {val: $.spec.val, key: $.spec.key}}",
		pipe: sumPipe, errBy: "c2", bad: badVal, spoil: spoilVal, ref: sumRef},
	{name: "lt", srcs: []string{"Alpha"}, pipe: "- '@select': {'@lt': ['$.spec.val', 2]}\n- '@project': {metadata: {name: $.metadata.name, namespace: $.metadata.namespace}, spec: {k: $.spec.key}}",
		errBy: "c1", bad: badVal, spoil: spoilVal,
		ref: func(src []map[string]M) map[string]M {
			res := map[string]M{}
			for _, o := range src[0] {
				if num(sp(o)["val"]) < 2 {
					k, n := mk(onsp(o), oname(o), nil, M{"spec": M{"k": sp(o)["key"]}})
					res[k] = n
				}
			}
			return res
		}},
	{name: "unwind", srcs: []string{"Alpha"}, pipe: "- '@unwind': $.spec.list\n- '@project': {metadata: {name: $.metadata.name, namespace: $.metadata.namespace}, spec: {e: $.spec.list}}",
		errBy: "c1", bad: func(o M) bool { return strIn(sp(o)["list"]) }, spoil: func(s M, n int64) { s["list"] = fmt.Sprintf("bad%d", n) },
		ref: func(src []map[string]M) map[string]M {
			res := map[string]M{}
			for _, o := range src[0] {
				for i, e := range list(o, "list") {
					k, n := mk(onsp(o), fmt.Sprintf("%s-%d", oname(o), i), nil, M{"spec": M{"e": e}})
					res[k] = n
				}
			}
			return res
		}},
	{name: "name", srcs: []string{"Alpha"}, pipe: "- '@project': {metadata: {name: $.spec.nm, namespace: $.metadata.namespace}, spec: {v: $.spec.val}}",
		errBy: "c1", bad: func(o M) bool { return !strIn(sp(o)["nm"]) }, spoil: func(s M, n int64) {
			switch n % 3 {
			case 0:
				delete(s, "nm")
			case 1:
				s["nm"] = n
			default:
				s["nm"] = M{"x": n}
			}
		},
		ref: func(src []map[string]M) map[string]M {
			res := map[string]M{}
			for _, o := range src[0] {
				k, n := mk(onsp(o), str(sp(o)["nm"]), nil, M{"spec": M{"v": sp(o)["val"]}})
				res[k] = n
			}
			return res
		}},
	{name: "reject", srcs: []string{"Alpha"}, native: true, pipe: "- '@project': {metadata: {name: $.metadata.name, namespace: $.metadata.namespace}, spec: {k: $.spec.key, v: $.spec.val}}",
		errBy: "c1", bad: func(o M) bool { return strings.HasPrefix(str(sp(o)["key"]), "bad") }, spoil: func(s M, n int64) { s["key"] = fmt.Sprintf("bad%d", n) },
		ref: func(src []map[string]M) map[string]M {
			res := map[string]M{}
			for _, o := range src[0] {
				k, n := mk(onsp(o), oname(o), nil, M{"spec": M{"k": sp(o)["key"], "v": sp(o)["val"]}})
				res[k] = n
			}
			return res
		}},
	{name: "unwrap", srcs: []string{"Alpha"}, native: true, pipe: "- '@unwind': $.spec.list\n- '@project': {metadata: {name: $.metadata.name, namespace: $.metadata.namespace}, spec: {e: $.spec.list}}",
		errBy: "c1", bad: func(o M) bool {
			for _, e := range list(o, "list") {
				if strings.HasPrefix(str(e), "bad") {
					return true
				}
			}
			return false
		}, spoil: func(s M, n int64) {
			l, _ := s["list"].([]any)
			s["list"] = append(append([]any{}, l...), fmt.Sprintf("bad%d", n))
		},
		ref: func(src []map[string]M) map[string]M {
			res := map[string]M{}
			for _, o := range src[0] {
				for i, e := range list(o, "list") {
					k, n := mk(onsp(o), fmt.Sprintf("%s-%d", oname(o), i), nil, M{"spec": M{"e": e}})
					res[k] = n
				}
			}
			return res
		}},
	{name: "gather", srcs: []string{"Alpha"}, pipe: "- '@gather': [$.spec.grp, $.spec.val]\n- '@project': {metadata: {name: $.spec.grp, namespace: all}, spec: {total: {'@sum': $.spec.val}}}",
		errBy: "c1", bad: badVal, spoil: spoilVal,
		ref: func(src []map[string]M) map[string]M {
			tot := map[string]int64{}
			for _, o := range src[0] {
				tot[str(sp(o)["grp"])] += num(sp(o)["val"])
			}
			res := map[string]M{}
			for g, t := range tot {
				k, n := mk("all", g, nil, M{"spec": M{"total": t}})
				res[k] = n
			}
			return res
		}},
	{name: "join", srcs: []string{"Alpha", "Beta"}, final: true, pipe: "- '@join': {'@eq': [$.Alpha.spec.key, $.Beta.spec.key]}\n- '@project': {metadata: {name: {'@concat': [$.Alpha.metadata.name, '-', $.Beta.metadata.name]}, namespace: {'@concat': [$.Alpha.metadata.namespace, '-', $.Beta.metadata.namespace]}}, spec: {t: {'@sum': [$.Alpha.spec.val, $.Beta.spec.val]}}}",
		errBy: "c1", bad: badVal, spoil: spoilVal,
		ref: func(src []map[string]M) map[string]M {
			res := map[string]M{}
			for _, a := range src[0] {
				for _, b := range src[1] {
					if sp(a)["key"] == sp(b)["key"] {
						k, n := mk(onsp(a)+"-"+onsp(b), oname(a)+"-"+oname(b), nil, M{"spec": M{"t": num(sp(a)["val"]) + num(sp(b)["val"])}})
						res[k] = n
					}
				}
			}
			return res
		}},
}

func badBy(name string) *badCase {
	for i := range badCases {
		if badCases[i].name == name {
			return &badCases[i]
		}
	}
	return nil
}

// misconf is a misconfigured controller.
type misconf struct {
	name, yaml string
	critical   bool // known at construction: to be reported
}

const okPipe = "[{'@project': {metadata: {name: $.metadata.name, namespace: $.metadata.namespace}, spec: {z: 1}}}]"

var misconfs = []misconf{
	{"", "- {name: '', sources: [{kind: Gamma}], pipeline: " + okPipe + ", target: {kind: Zed, type: Updater}}\n", true},
	{"nosrc", "- {name: nosrc, sources: [], pipeline: " + okPipe + ", target: {kind: Zed, type: Updater}}\n", true},
	{"notgt", "- {name: notgt, sources: [{kind: Gamma}], pipeline: " + okPipe + "}\n", true},
	{"nojoin", "- {name: nojoin, sources: [{kind: Gamma}, {kind: Delta}], pipeline: " + okPipe + ", target: {kind: Zed, type: Updater}}\n", true},
	{"unwindexp", "- {name: unwindexp, sources: [{kind: Gamma}], pipeline: [{'@unwind': {'@len': [1]}}], target: {kind: Zed, type: Updater}}\n", true},
	{"gather1", "- {name: gather1, sources: [{kind: Gamma}], pipeline: [{'@gather': [$.spec.x]}], target: {kind: Zed, type: Updater}}\n", true},
	{"latejoin", "- {name: latejoin, sources: [{kind: Gamma}], pipeline: [{'@select': true}, {'@join': true}], target: {kind: Zed, type: Updater}}\n", true},
	{"period0", "- {name: period0, sources: [{kind: Gamma}, {kind: T, type: Periodic, parameters: {period: 0s}}], pipeline: " + okPipe + ", target: {kind: Zed, type: Updater}}\n", true},
	{"periodneg", "- {name: periodneg, sources: [{kind: T, type: Periodic, parameters: {period: -10s}}, {kind: Gamma}], pipeline: " + okPipe + ", target: {kind: Zed, type: Updater}}\n", true},
	{"badpred", "- {name: badpred, sources: [{apiGroup: sim.io, version: v1, kind: Gamma, predicate: Whatever}], pipeline: " + okPipe + ", target: {kind: Zed, type: Updater}}\n", true},
	{"badsel", "- {name: badsel, sources: [{apiGroup: sim.io, version: v1, kind: Gamma, labelSelector: {matchExpressions: [{key: a, operator: Sometimes, values: [b]}]}}], pipeline: " + okPipe + ", target: {kind: Zed, type: Updater}}\n", true},
	{"nokind", "- {name: nokind, sources: [{apiGroup: sim.io, version: v1, kind: Nope}], pipeline: " + okPipe + ", target: {kind: Zed, type: Updater}}\n", false},
	{"nogroup", "- {name: nogroup, sources: [{apiGroup: nope.io, version: v1, kind: Gamma}], pipeline: " + okPipe + ", target: {kind: Zed, type: Updater}}\n", false},
	{"notgtkind", "- {name: notgtkind, sources: [{apiGroup: sim.io, version: v1, kind: Gamma}], pipeline: " + okPipe + ", target: {apiGroup: sim.io, version: v1, kind: Nope, type: Updater}}\n", false},
	{"badexp", "- {name: badexp, sources: [{apiGroup: sim.io, version: v1, kind: Gamma}], pipeline: [{'@project': {'@nonsense': [1, 2]}}], target: {kind: Zed, type: Updater}}\n", false},
}

type conf struct {
	*conv
	b    *badCase
	good []map[string]M // the last version of each object that could be processed
	past map[string][]M // all such versions of the source that can be bad
	errs []error
}

// bads are the objects that cannot be processed now.
func (c *conf) bads() []string {
	var res []string
	if c.b == nil {
		return nil
	}
	for _, k := range sortedKeys(c.state[c.b.only]) {
		if c.b.bad(c.state[c.b.only][k]) {
			res = append(res, k)
		}
	}
	return res
}

// sure are the targets that do not depend on objects that cannot be processed.
func (c *conf) sure() (want map[string]M, open map[string]bool) {
	with, without := []map[string]M{}, []map[string]M{}
	for i := range c.state {
		w, wo := map[string]M{}, map[string]M{}
		for k, o := range c.state[i] {
			if i == c.b.only && c.b.bad(o) {
				if g := c.good[i][k]; g != nil {
					w[k] = g
				}
				continue
			}
			w[k], wo[k] = o, o
		}
		with, without = append(with, w), append(without, wo)
	}
	a, b := c.b.ref(with), c.b.ref(without)
	want, open = map[string]M{}, map[string]bool{}
	for k := range a {
		if b[k] == nil || content(a[k], nil) != content(b[k], nil) {
			open[k] = true
		}
	}
	// a write that is refused takes the object's other results of the same event along only if they are
	// changed by it: leave them open
	for _, bk := range c.bads() {
		for k := range c.b.ref([]map[string]M{{bk: c.state[c.b.only][bk]}, {}}) {
			open[k] = true
		}
	}
	// a deletion before the object became bad is not seen if the watch was down
	if len(c.w.p.Faults) > 0 {
		for _, bk := range c.bads() {
			for _, o := range c.past[bk] {
				for k := range c.b.ref([]map[string]M{{bk: o}, {}}) {
					open[k] = true
				}
			}
		}
	}
	for k, o := range b {
		if !open[k] {
			want[k] = o
		}
	}
	return want, open
}

func (c *conf) midDiff() string {
	if n := len(c.t.Tgts) - 1; n >= 1 { // the side controller
		exp := c.t.Tgts[n].Ref(c.state, nil) // the others may not be defined
		got, err := c.actual(n)
		if err != nil {
			return err.Error()
		}
		if d := diffMaps(contents(exp, nil), contents(got, nil)); d != "" {
			return "beside: " + d
		}
	}
	if c.b == nil || c.b.final {
		return ""
	}
	want, open := c.sure()
	got, err := c.actual(0)
	if err != nil {
		return err.Error()
	}
	g := map[string]M{}
	for k, o := range got {
		if !open[k] {
			g[k] = o
		}
	}
	return diffMaps(contents(want, nil), contents(g, nil))
}

func (c *conf) status(name string) *opv1a1.ControllerStatus {
	st := c.h.op.GetStatus(7)
	for i := range st.Controllers {
		if st.Controllers[i].Name == name {
			return &st.Controllers[i]
		}
	}
	return nil
}

func ready(st *opv1a1.ControllerStatus) metav1.ConditionStatus {
	for _, c := range st.Conditions {
		if c.Type == string(opv1a1.ControllerConditionReady) {
			return c.Status
		}
	}
	return ""
}

func (c *conf) reportedBy(name string) bool {
	for _, e := range c.h.errs {
		var ce controller.Error
		if errors.As(e, &ce) && ce.Operator == opName && ce.Controller == name {
			return true
		}
	}
	return false
}

func (c *conf) waitMid(bound time.Duration, when string) bool {
	t0 := now()
	for {
		d := c.midDiff()
		if d == "" {
			return true
		}
		if now()-t0 > bound {
			c.w.fail("not-confined", "%s: %.0fs later the targets that have nothing to do with the bad objects %v differ from the reference: %s errors: %v", when, (now() - t0).Seconds(), c.bads(), d, tailErrs(c.h.errs))
			return false
		}
		if c.h.stopped {
			c.w.fail("operator-died", "%s: the operator stopped by itself: %v", when, c.h.stopErr)
			return false
		}
		time.Sleep(500 * time.Millisecond)
	}
}

func runConf(w *world) error {
	c := &conf{conv: newConv(w), past: map[string][]M{}}
	if n := w.p.cfgS("case"); n != "" {
		c.b = badBy(n)
		c.t = &tmpl{Name: n, Srcs: c.b.srcs}
		c.t.Tgts = []tgt{{Kind: "Out", Ref: func(src []map[string]M, prev []map[string]M) map[string]M { return c.b.ref(src) }}}
		c.t.Ctrls = func(m modes) string {
			var srcs []string
			for i := range c.b.srcs {
				srcs = append(srcs, srcYAML(c.t, m, i, ""))
			}
			if c.b.mid != "" {
				return ctrlYAML("c1", srcs, c.b.mid, "{kind: Mid, type: Updater}") + ctrlYAML("c2", []string{"{kind: Mid}"}, c.b.pipe, tgtYAML(m, 0, "Out", "Updater"))
			}
			return ctrlYAML("c1", srcs, c.b.pipe, tgtYAML(m, 0, "Out", "Updater"))
		}
		if c.b.native {
			w.srv.reject = func(client string, ki *kindInfo, o M) *apiErr {
				if client == "user" || ki.Kind != "Out" || !strings.Contains(canon(o["spec"]), "\"bad") {
					return nil
				}
				return &apiErr{422, "Invalid", "spec: Invalid value"}
			}
		}
	}
	// a good controller beside it
	inner := c.t
	t := *c.t
	t.Srcs = append(append([]string{}, inner.Srcs...), "Side")
	t.Tgts = nil
	for _, g := range inner.Tgts {
		ref := g.Ref
		g.Ref = func(src []map[string]M, prev []map[string]M) map[string]M { return ref(src[:len(inner.Srcs)], prev) }
		t.Tgts = append(t.Tgts, g)
	}
	t.Tgts = append(t.Tgts, tgt{Kind: "Doc", Mid: true, Ref: func(src []map[string]M, prev []map[string]M) map[string]M {
		res := map[string]M{}
		for _, o := range src[len(t.Srcs)-1] {
			k, n := mk(onsp(o), oname(o), nil, M{"spec": M{"v": sp(o)["val"]}})
			res[k] = n
		}
		return res
	}})
	side := ctrlYAML("side", []string{"{kind: Side}"}, "- '@project': {metadata: {name: $.metadata.name, namespace: $.metadata.namespace}, spec: {v: $.spec.val}}", "{kind: Doc, type: Updater}")
	var wrong []*misconf
	pre, post := "", ""
	for i, m := range strings.Split(w.p.cfgS("misconf"), ",") {
		for j := range misconfs {
			if m == misconfs[j].name && w.p.cfgS("misconf") != "none" {
				wrong = append(wrong, &misconfs[j])
				if i%2 == 0 {
					pre += misconfs[j].yaml
				} else {
					post += misconfs[j].yaml
				}
			}
		}
	}
	t.Ctrls = func(m modes) string { return pre + inner.Ctrls(m) + side + post }
	c.t = &t
	c.m.Src = append(c.m.Src[:len(inner.Srcs)], "v")
	c.m.Tgt = append(c.m.Tgt[:len(inner.Tgts)], "v")
	for range t.Srcs {
		c.state = append(c.state, map[string]M{})
		c.good = append(c.good, map[string]M{})
	}
	c.state = c.state[:len(t.Srcs)]

	o := hostOpts{node: 1, errCap: int(w.p.cfgI("errcap")), startAt: time.Duration(w.p.StartAt) * time.Millisecond, async: true}
	reader := w.p.cfgS("reader")
	o.noErrRead = reader == "none"
	o.noErrCh = reader == "nochan"
	o.slowErr = time.Duration(w.p.cfgI("slow_ms")) * time.Millisecond
	h, err := w.newHost(opName, c.t.Ctrls(c.m), o)
	if err != nil {
		w.fail("no-start", "operator cannot be created: %v", err)
		return nil
	}
	c.h = h
	select {
	case err := <-h.ready:
		if err != nil {
			w.fail("no-start", "operator cannot be created: %v", err)
			return nil
		}
	case <-time.After(100*time.Second + time.Duration(w.p.EndAt)*time.Millisecond):
		w.fail("blocked", "the construction of an operator with misconfigured controllers does not end; errors are read: %s", reader)
		return nil
	}
	c.views = h.op.GetClient()
	if w.p.cfgB("gammas") { // something to process for the misconfigured controllers
		for i := 0; i < 3; i++ {
			name := fmt.Sprintf("g%d", i)
			if _, e := w.srv.create("user", kindByName("Gamma"), M{"metadata": M{"name": name, "namespace": "ns1"}, "spec": M{"x": int64(i)}}); e != nil {
				return e
			}
			if err := c.views.Create(context.Background(), newView(opName, "Gamma", "ns1/"+name, M{"spec": M{"x": int64(i)}})); err != nil {
				return err
			}
		}
	}
	all := c.users(func(o opStep) error {
		if err := c.apply(o); err != nil {
			return err
		}
		if c.b == nil || o.Src != c.b.only {
			return nil
		}
		if cur := c.state[o.Src][o.Key]; cur == nil {
			delete(c.good[o.Src], o.Key)
		} else if !c.b.bad(cur) {
			c.good[o.Src][o.Key] = cp(cur)
			c.past[o.Key] = append(c.past[o.Key], cp(cur))
		}
		return nil
	})
	if !c.await(all) {
		return fmt.Errorf("steps did not end")
	}
	c.sleepTo(time.Duration(w.p.EndAt) * time.Millisecond)
	c.quiet()
	if !c.waitMid(300*time.Second, "bad objects and controllers present") {
		return nil
	}
	time.Sleep(time.Duration(w.p.cfgI("hold_ms")) * time.Millisecond)
	if !c.waitMid(60*time.Second, "bad objects and controllers present for long") {
		return nil
	}
	prompt := reader == "prompt"
	// reports
	for _, m := range wrong {
		st := c.status(m.name)
		switch {
		case st == nil:
			w.fail("status-missing", "the status does not tell about controller %q", m.name)
		case m.critical && (ready(st) != metav1.ConditionFalse || len(st.LastErrors) == 0):
			w.fail("not-reported", "misconfigured controller %q: the status is %v with errors %v", m.name, ready(st), st.LastErrors)
		}
		if m.critical && prompt && !c.reportedBy(m.name) {
			w.fail("not-reported", "misconfigured controller %q: no error on the error channel", m.name)
		}
	}
	bads := c.bads()
	if c.b != nil && len(bads) > 0 && !c.b.final {
		st := c.status(c.b.errBy)
		for t0 := now(); (st == nil || len(st.LastErrors) == 0) && now()-t0 < 300*time.Second; st = c.status(c.b.errBy) {
			time.Sleep(time.Second) // not there yet
		}
		time.Sleep(time.Second)
		if st == nil || ready(st) == metav1.ConditionTrue || len(st.LastErrors) == 0 {
			w.fail("not-reported", "objects %v cannot be processed: the status of the controller is %+v", bads, st)
		}
		if prompt && !c.reportedBy(c.b.errBy) {
			w.fail("not-reported", "objects %v cannot be processed: no error of controller %s on the error channel", bads, c.b.errBy)
		}
		w.counts["bad_objects"] += len(bads)
	}
	for _, e := range h.errs {
		var ce controller.Error
		if !errors.As(e, &ce) || ce.Operator != opName || ce.Controller == "side" || c.status(ce.Controller) == nil {
			w.fail("wrong-report", "error reported under operator %q controller %q: %v", ce.Operator, ce.Controller, e)
			break
		}
	}
	if st := c.status("side"); st == nil || ready(st) != metav1.ConditionTrue || len(st.LastErrors) > 0 {
		w.fail("wrong-report", "the status of a controller without errors is %+v", st)
	}
	// only the latest errors are kept: leave one bad object and make it fail over and over
	if k := w.p.cfgS("loop"); k != "" && c.b != nil && !c.b.final && len(w.p.Faults) == 0 {
		for _, b := range bads {
			if b != k {
				if err := c.apply(opStep{Do: "del", Src: c.b.only, Key: b}); err != nil {
					return err
				}
				delete(c.good[c.b.only], b)
			}
		}
		time.Sleep(5 * time.Second)
		r := &rng{s: w.p.Seed}
		for n := int64(100); n < 114; n++ {
			s := confSpec(r, k)
			c.b.spoil(s, n)
			if err := c.apply(opStep{Do: "put", Src: c.b.only, Key: k, Obj: M{"spec": s, "labels": M{}}}); err != nil {
				return err
			}
			time.Sleep(time.Second)
		}
		time.Sleep(3 * time.Second)
		st := c.status(c.b.errBy)
		if st == nil || len(st.LastErrors) == 0 {
			w.fail("not-reported", "%s cannot be processed: the status of the controller is %+v", k, st)
		} else if len(st.LastErrors) > 10 {
			w.fail("too-many-errors", "%d errors in the status", len(st.LastErrors))
		} else {
			w.counts["error_loops"]++
			for _, e := range st.LastErrors {
				if strings.Contains(e, "nonexistent object") {
					continue // deletions of objects that have never got in are retried
				}
				for _, b := range []string{"ns1/a", "ns1/b", "ns2/a"} {
					if b != k && strings.Contains(e, b) {
						w.fail("old-errors", "after 14 failures of %s the status tells about an earlier one of %s: %v", k, b, st.LastErrors)
					}
				}
			}
		}
	}
	// everything is put right
	for n, b := range c.bads() {
		do := opStep{Do: "del", Src: c.b.only, Key: b}
		if (w.p.cfgI("fix")>>n)&1 == 1 {
			r := &rng{s: w.p.Seed + uint64(n)}
			do = opStep{Do: "put", Src: c.b.only, Key: b, Obj: M{"spec": confSpec(r, b), "labels": M{}}}
		}
		if err := c.apply(do); err != nil {
			return err
		}
	}
	if w.p.cfgB("rand_junk") {
		for i := range inner.Srcs {
			for n, k := range sortedKeys(c.state[i]) {
				do := opStep{Do: "del", Src: i, Key: k}
				if (w.p.cfgI("fix")>>(n+3*i))&1 == 1 {
					r := &rng{s: w.p.Seed + uint64(n)}
					do = opStep{Do: "put", Src: i, Key: k, Obj: M{"spec": genSpec(r), "labels": M{"tier": tierOf(k)}}}
				}
				if err := c.apply(do); err != nil {
					return err
				}
			}
		}
	}
	if d, took := c.settle(3000*time.Second, 25*time.Second); d != "" {
		w.fail("diverged", "targets differ from the reference %.0fs after all objects were corrected or removed: %s errors: %v", took.Seconds(), d, tailErrs(c.h.errs))
	}
	w.counts["targets"] += c.countTargets()
	if h.stopped {
		w.fail("operator-died", "the operator stopped by itself: %v", h.stopErr)
	}
	for _, s := range h.op.GetStatus(7).Controllers {
		if len(s.LastErrors) > 10 {
			w.fail("too-many-errors", "%d errors in the status of %s", len(s.LastErrors), s.Name)
		}
	}
	return nil
}

// confSpec is a good spec.
func confSpec(r *rng, key string) M {
	s := genSpec(r)
	s["nm"] = "n-" + key[strings.Index(key, "/")+1:]
	return s
}

func junk(r *rng) any {
	switch r.n(8) {
	case 0:
		return nil
	case 1:
		return fmt.Sprintf("junk%d", r.n(3))
	case 2:
		return r.i64(5)
	case 3:
		return M{"j": r.i64(3)}
	case 4:
		return []any{r.i64(3), "j"}
	case 5:
		return []any{}
	case 6:
		return r.p(1, 2)
	default:
		return []any{M{"x": []any{"y"}}, []any{r.i64(3)}}
	}
}

func genC12(r *rng) *plan {
	p := &plan{Prop: "C12", Scen: "conf", Seed: r.next(), Sched: genSched(r), Cfg: M{}}
	var srcs int
	if r.p(1, 4) {
		p.Cfg["rand"] = fixNum(genRand(r, "C12"))
		t := tmplOf(p)
		p.Cfg["tmpl"] = "rand"
		p.Cfg["rand_junk"] = true
		srcs = len(t.Srcs)
		src, tg := "", ""
		for range t.Srcs {
			if t.Native {
				src += "n"
			} else {
				src += pick(r, []string{"n", "v"})
			}
		}
		for range t.Tgts {
			tg += pick(r, []string{"n", "v"})
		}
		p.Cfg["src"], p.Cfg["tgt"] = src, tg
	} else {
		b := &badCases[r.n(len(badCases))]
		p.Cfg["case"], p.Cfg["tmpl"] = b.name, "proj"
		srcs = len(b.srcs)
		src := ""
		for range b.srcs {
			src += pick(r, []string{"n", "v"})
		}
		p.Cfg["src"], p.Cfg["tgt"] = src, pick(r, []string{"n", "v"})
		if b.native {
			p.Cfg["tgt"] = "n"
		}
	}
	p.Cfg["fix"] = r.n(512)
	p.Cfg["lat_us"] = pick(r, []int64{1, 1000, 5000, 50000})
	p.Cfg["wlat_us"] = pick(r, []int64{1, 1000, 20000, 300000})
	p.Cfg["reader"] = pick(r, []string{"prompt", "prompt", "slow", "none", "none", "nochan"})
	p.Cfg["errcap"] = pick(r, []int64{0, 1, 16, 64})
	if p.cfgS("reader") == "prompt" {
		p.Cfg["errcap"] = 64
	}
	p.Cfg["slow_ms"] = 0
	if p.cfgS("reader") == "slow" {
		p.Cfg["slow_ms"] = pick(r, []int64{10, 1000, 20000})
	}
	p.Cfg["hold_ms"] = pick(r, []int64{0, 1000, 30000, 200000})
	p.Cfg["gammas"] = r.p(1, 2)
	mis := "none"
	if r.p(1, 2) {
		mis = ""
		for i, n := 0, 1+r.n(4); i < n; i++ {
			m := misconfs[r.n(len(misconfs))].name
			if m != "" && !strings.Contains(","+mis+",", ","+m+",") {
				mis += "," + m
			}
		}
		mis = strings.TrimPrefix(mis, ",")
		if r.p(1, 4) {
			mis += ","
		}
		if mis == "" {
			mis = "none"
		}
	}
	p.Cfg["misconf"] = mis
	if r.p(1, 4) {
		p.Cfg["loop"] = pick(r, []string{"ns1/a", "ns1/b", "ns2/a"})
	}
	keys := []string{"ns1/a", "ns1/b", "ns2/a"}
	span := pick(r, []int64{50, 1000, 10000, 60000})
	n := 3 + r.n(20)
	var t int64
	whos := 1 + r.n(3)
	p.StartAt = pick(r, []int64{0, 0, 5, 300})
	for i := 0; i < n; i++ {
		t += r.i64(2*span/int64(n) + 1)
		s := r.n(srcs + 1)
		k := r.n(len(keys))
		o := opStep{T: t, Who: (s*3 + k) % whos, Src: s, Key: keys[k], Do: "put"}
		if r.p(1, 5) {
			o.Do = "del"
		} else {
			sp := confSpec(r, o.Key)
			if b := badBy(p.cfgS("case")); b != nil && s == b.only && r.p(2, 5) {
				b.spoil(sp, int64(i))
			}
			if p.cfgB("rand_junk") && s < srcs && r.p(1, 2) {
				for j := 0; j < 1+r.n(3); j++ {
					sp[pick(r, []string{"val", "key", "grp", "on", "list", "nums", "f", "m", "opt"})] = junk(r)
				}
			}
			o.Obj = M{"spec": sp, "labels": M{"tier": tierOf(o.Key)}}
			if p.cfgS("case") != "" {
				o.Obj["labels"] = M{}
			}
		}
		p.Ops = append(p.Ops, o)
	}
	p.sortOps()
	p.EndAt = t + r.i64(2000)
	if r.p(1, 3) {
		genFaults(r, p, 1+r.n(3), span+500)
	}
	return p
}
