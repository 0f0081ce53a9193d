package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"strconv"
)

type scenario struct {
	run func(w *world) error
}

var scens = map[string]func(w *world) error{
	"conv":    runConv,
	"own":     runOwn,
	"effect":  runEffect,
	"crash":   runCrash,
	"store":   runStore,
	"watch":   runWatch,
	"multi":   runMulti,
	"tick":    runTick,
	"oneshot": runOneshot,
	"conf":    runConf,
	"opctl":   runOpctl,
	"apiraw":  runRaw,
	"apireg":  runReg,
	"stop":    runStop,
	"auth":    runAuth,
}

type generator func(r *rng) *plan

var gens = map[string]generator{
	"C01": func(r *rng) *plan {
		return genC01(r, tmplNames(func(t *tmpl) bool { return !t.NoDup && t.Name != "gather" && t.Name != "invert" }), "C01")
	},
	"C02": genC02,
	"C06": genC06,
	"C05": genC05,
	"C03": genC03,
	"C08": genC08,
	"C09": genC09,
	"C10": genC10,
	"C11": genC11,
	"C12": genC12,
	"C13": genC13,
	"C14": genC14,
	"C15": genC15,
	"C16": genC16,
	"C17": genC17,
	"C04": func(r *rng) *plan {
		return genC01(r, tmplNames(func(t *tmpl) bool { return t.NoDup || t.Gather }), "C04")
	},
}

func runPlan(p *plan, keep bool) *result {
	w := newWorld(p)
	w.keep = keep
	dsimStart(p.Seed, p.Sched.Policy, p.Sched.Mean, p.Sched.StallPer, p.Sched.StallMax*1000, p.Sched.Change)
	f := scens[p.Scen]
	if f == nil {
		return &result{Harness: "unknown scenario " + p.Scen}
	}
	err := f(w)
	res := w.result()
	if err != nil {
		res.Harness = err.Error()
	}
	return res
}

func main() {
	prop := flag.String("prop", "", "property")
	seed := flag.String("seed", "", "seed")
	planFile := flag.String("plan", "", "plan file")
	out := flag.String("o", "/dev/stdout", "result file")
	genOnly := flag.Bool("gen", false, "print the plan and exit")
	keep := flag.Bool("trace", false, "record the trace")
	dump := flag.Bool("stacks", false, "dump stacks at the end (debug)")
	aboutProp := flag.String("about", "", "describe the check of a property")
	flag.Parse()
	if *aboutProp != "" {
		b, _ := json.Marshal(about(*aboutProp))
		writeOut(*out, b)
		return
	}
	runtime.GOMAXPROCS(1)
	var p *plan
	if *planFile != "" {
		b, err := os.ReadFile(*planFile)
		if err != nil {
			fatal(err)
		}
		p = &plan{}
		if err := json.Unmarshal(b, p); err != nil {
			fatal(err)
		}
		fixNums(p)
	} else {
		s, err := strconv.ParseUint(*seed, 10, 64)
		if err != nil {
			fatal(err)
		}
		g := gens[*prop]
		if g == nil {
			fatal(fmt.Errorf("no generator for %q", *prop))
		}
		p = g(newRng(s, *prop))
		p.Race = s%4 == 3 || *prop == "C07" // as in drv
		// the plan must survive a round trip through its file form
		b, _ := json.Marshal(p)
		p = &plan{}
		if err := json.Unmarshal(b, p); err != nil {
			fatal(err)
		}
		fixNums(p)
	}
	if *genOnly {
		b, _ := json.MarshalIndent(p, "", " ")
		writeOut(*out, b)
		return
	}
	res := runPlan(p, *keep)
	if *dump {
		fmt.Fprintln(os.Stderr, allStacks())
	}
	races(res)
	if p.Prop == "C07" {
		res.Violations = onlyRaces(res.Violations)
	}
	b, _ := json.Marshal(res)
	writeOut(*out, b)
}

func writeOut(f string, b []byte) {
	if f == "/dev/stdout" {
		os.Stdout.Write(append(b, '\n'))
		return
	}
	if err := os.WriteFile(f, b, 0o644); err != nil {
		fatal(err)
	}
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "dsim:", err)
	os.Exit(3)
}

// fixNums turns whole JSON numbers in the plan's objects into int64, as the
// Kubernetes JSON codecs do.
func fixNums(p *plan) {
	if c, ok := p.Cfg["rand"]; ok {
		p.Cfg["rand"] = fixNum(c)
	}
	for i := range p.Ops {
		if p.Ops[i].Obj != nil {
			p.Ops[i].Obj = fixNum(p.Ops[i].Obj).(M)
		}
	}
}

func fixNum(v any) any {
	switch x := v.(type) {
	case M:
		for k, e := range x {
			x[k] = fixNum(e)
		}
		return x
	case []any:
		for i, e := range x {
			x[i] = fixNum(e)
		}
		return x
	case float64:
		if x == float64(int64(x)) {
			return int64(x)
		}
	}
	return v
}
