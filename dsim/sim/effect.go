package main

import (
	"context"
	"fmt"
	"sort"
	"strings"
	"time"

	"k8s.io/apimachinery/pkg/watch"
	"sigs.k8s.io/controller-runtime/pkg/client"

	"github.com/l7mp/dcontroller/pkg/cache"
)

// The effect scenario (C05): changes arrive one burst at a time; between
// bursts everything settles. Every write request and view event in between
// must be accounted for by a change of the reference outcome.

type effEvent struct {
	id   string // kind|key
	verb string
}

type effConv struct {
	*conv
	log []effEvent
}

// watchTarget records the events of a target kind that is a view.
func (c *effConv) watchTarget(kind string) error {
	l := cache.NewViewObjectList(opName, kind)
	wc, ok := c.views.(client.WithWatch)
	if !ok {
		return fmt.Errorf("the view client cannot watch")
	}
	wi, err := wc.Watch(context.Background(), l)
	if err != nil {
		return err
	}
	go func() {
		for e := range wi.ResultChan() {
			o, ok := e.Object.(client.Object)
			if !ok {
				continue
			}
			verb := map[watch.EventType]string{watch.Added: "create", watch.Modified: "update", watch.Deleted: "delete"}[e.Type]
			c.log = append(c.log, effEvent{kind + "|" + o.GetNamespace() + "/" + o.GetName(), verb})
			c.w.log("view event %s %s %s/%s", e.Type, kind, o.GetNamespace(), o.GetName())
		}
	}()
	return nil
}

func (c *effConv) snapshot() map[string]string {
	res := map[string]string{}
	for i, m := range c.expected() {
		for k, o := range m {
			res[c.t.Tgts[i].Kind+"|"+k] = content(o, c.t.Multi)
		}
	}
	return res
}

func (c *effConv) derived() map[string]int {
	res := map[string]int{}
	if c.t.Derive != nil {
		for k, n := range c.t.Derive(c.state) {
			res[c.t.Tgts[len(c.t.Tgts)-1].Kind+"|"+k] = n
		}
	}
	return res
}

func runEffect(w *world) error {
	c := &effConv{conv: newConv(w)}
	inner := w.srv.onWrite
	native := map[string]bool{}
	for i, t := range c.t.Tgts {
		if c.m.Tgt[i] == "n" && !t.Mid {
			native[t.Kind] = true
		}
	}
	w.srv.onWrite = func(r *writeRec) {
		inner(r)
		if r.Client == "op" {
			if !native[r.Kind] {
				w.fail("foreign-write", "the operator wrote %s %s %s, which is no target", r.Verb, r.Kind, r.Key)
			}
			c.log = append(c.log, effEvent{r.Kind + "|" + r.Key, r.Verb})
		}
	}
	if err := c.start(0); err != nil {
		w.fail("no-start", "operator cannot be created: %v", err)
		return nil
	}
	for i, t := range c.t.Tgts {
		if c.m.Tgt[i] != "n" || t.Mid {
			if err := c.watchTarget(t.Kind); err != nil {
				return err
			}
		}
	}
	time.Sleep(5 * time.Second)
	// the bursts: operations with the same T
	ops := w.p.Ops
	for len(ops) > 0 {
		n := 1
		for n < len(ops) && ops[n].T == ops[0].T {
			n++
		}
		burst := ops[:n]
		ops = ops[n:]
		states := []map[string]string{c.snapshot()}
		derived := []map[string]int{c.derived()}
		c.log = nil
		var slept time.Duration
		for _, o := range burst {
			switch {
			case c.serverStep(o):
			case o.Do == "sleep":
				slept = time.Duration(o.N) * time.Minute
			default:
				if err := c.apply(o); err != nil {
					w.fail("user-op", "%s: %v", o, err)
				}
			}
			w.counts["op_"+o.Do]++
			states = append(states, c.snapshot())
			derived = append(derived, c.derived())
		}
		time.Sleep(slept)
		d, took := c.settle(600*time.Second, 10*time.Second)
		if d != "" {
			w.fail("diverged", "targets differ from the reference %.0fs after the last change: %s", took.Seconds(), d)
			return nil
		}
		time.Sleep(20 * time.Second)
		c.check(burst, states, derived)
	}
	w.counts["targets"] += c.countTargets()
	return nil
}

// check judges the writes and events of one burst.
func (c *effConv) check(burst []opStep, states []map[string]string, derived []map[string]int) {
	verbs := map[string][]string{}
	for _, e := range c.log {
		verbs[e.id] = append(verbs[e.id], e.verb)
	}
	ids := make([]string, 0, len(verbs))
	for id := range verbs {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		changes := 0
		always := states[0][id] != ""
		for i := 1; i < len(states); i++ {
			// one more way to derive the same object may rewrite it (in place)
			if states[i][id] != states[i-1][id] || derived[i][id] > derived[i-1][id] {
				changes++
			}
			if states[i][id] == "" {
				always = false
			}
		}
		if len(c.t.Srcs) > 1 && len(burst) > 1 {
			// the sources race: intermediate outcomes are not determined
			continue
		}
		if changes == 0 {
			c.w.fail("needless-write", "%s was written (%s) though the declared outcome for it is the same before and after [%s]", id, strings.Join(verbs[id], " "), opsString(burst))
			continue
		}
		if always {
			for _, v := range verbs[id] {
				if v == "delete" {
					c.w.fail("transient-delete", "%s was deleted (%s) though it is wanted before and after [%s]", id, strings.Join(verbs[id], " "), opsString(burst))
					break
				}
			}
		}
		c.w.counts["writes_judged"] += len(verbs[id])
	}
}

func opsString(os []opStep) string {
	var s []string
	for _, o := range os {
		s = append(s, o.String())
	}
	return strings.Join(s, " | ")
}

func genC05(r *rng) *plan {
	p := genConvBase(r, "C05", tmplNames(func(t *tmpl) bool { return true }))
	p.Scen = "effect"
	t := tmplOf(p)
	keys := []string{"ns1/a", "ns1/b", "ns2/a"}
	last := map[string]M{}
	var at int64
	for i, n := 0, 3+r.n(12); i < n; i++ {
		if i == 0 || r.p(3, 4) {
			at++
		}
		s := r.n(len(t.Srcs))
		k := pick(r, keys)
		id := fmt.Sprintf("%d%s", s, k)
		o := opStep{T: at, Src: s, Key: k}
		switch x := r.n(26); {
		case x >= 20:
			genSet(r, t, &o)
			delete(last, id)
		case x < 9:
			o.Do = "put"
			o.Obj = M{"spec": genSpec(r), "labels": M{"tier": tierOf(k)}}
			last[id] = o.Obj
		case x < 11 && last[id] != nil: // the same again
			o.Do = "put"
			o.Obj = last[id]
		case x < 14:
			o.Do = "del"
			delete(last, id)
		case x < 16 && !t.FixedMeta:
			o.Do = "touch"
			o.S = fmt.Sprintf("x%d", i)
		case x < 17 && last[id] != nil: // a small change
			n := cp(last[id])
			n["spec"].(M)["val"] = r.i64(4)
			o.Do, o.Obj = "put", n
			last[id] = n
		case x < 18:
			o = opStep{T: at, Do: "drop"}
		case x < 19:
			o = opStep{T: at, Do: "compact"}
		default:
			o = opStep{T: at, Do: "sleep", N: pick(r, []int64{1, 15, 700})}
		}
		if o.Do == "" {
			o.Do = "del"
		}
		p.Ops = append(p.Ops, o)
	}
	return p
}
