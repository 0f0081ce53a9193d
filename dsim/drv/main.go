// drv runs one check: seeded search over simulated executions of one
// property, probes of the known findings, minimisation of a failing run into
// a replay file, and the evidence file.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type M = map[string]any

type violation struct {
	Class string `json:"class"`
	Msg   string `json:"msg"`
}

type result struct {
	Violations []violation    `json:"violations"`
	Harness    string         `json:"harness,omitempty"`
	Hash       string         `json:"hash"`
	TraceHash  string         `json:"trace_hash"`
	SimMS      int64          `json:"sim_ms"`
	Picks      uint64         `json:"picks"`
	Choices    uint64         `json:"choices"`
	Yields     uint64         `json:"yields"`
	Stalls     uint64         `json:"stalls"`
	Dropped    uint64         `json:"dropped"`
	Faults     map[string]int `json:"faults"`
	Counts     map[string]int `json:"counts"`
	Trace      []string       `json:"trace,omitempty"`
}

func (r *result) class() string {
	if len(r.Violations) > 0 {
		return r.Violations[0].Class
	}
	return ""
}

var (
	simBin  string
	raceBin string // the same with the race detector, if there is one
	tmpDir  string
	counter atomic.Int64
)

const runWall = 60 * time.Second

// run executes the simulator once.
func run(ctx context.Context, race bool, args ...string) *result {
	n := counter.Add(1)
	out := filepath.Join(tmpDir, fmt.Sprintf("r%d.json", n))
	defer os.Remove(out)
	cctx, cancel := context.WithTimeout(ctx, runWall)
	defer cancel()
	bin, logs := simBin, out+".race"
	race = race && raceBin != ""
	if race {
		bin = raceBin
	}
	cmd := exec.CommandContext(cctx, bin, append(args, "-o", out)...)
	cmd.Env = []string{"GOMAXPROCS=1", "GOGC=off", "HOME=/root", "PATH=/usr/bin:/bin", "TZ=UTC"}
	if race {
		cmd.Env = append(cmd.Env, "GORACE=exitcode=0 atexit_sleep_ms=0 log_path="+logs)
		defer func() {
			if cmd.Process != nil {
				os.Remove(fmt.Sprintf("%s.%d", logs, cmd.Process.Pid))
			}
		}()
	}
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	cmd.Stdout = &stderr
	err := cmd.Run()
	if ctx.Err() != nil {
		return nil
	}
	if cctx.Err() != nil {
		return &result{Harness: "timeout after " + runWall.String()}
	}
	if err == nil {
		b, e := os.ReadFile(out)
		if e != nil {
			return &result{Harness: e.Error()}
		}
		r := &result{}
		if e := json.Unmarshal(b, r); e != nil {
			return &result{Harness: "bad result: " + e.Error()}
		}
		return r
	}
	var ee *exec.ExitError
	s := stderr.String()
	if errors.As(err, &ee) && ee.ExitCode() == 2 {
		if v := crash(s); v != nil {
			return &result{Violations: []violation{*v}, Hash: "crash", TraceHash: "crash"}
		}
	}
	if len(s) > 3000 {
		s = s[:3000]
	}
	return &result{Harness: fmt.Sprintf("simulator failed: %v: %s", err, s)}
}

var reRepo = regexp.MustCompile(`github\.com/l7mp/dcontroller/pkg/[^\s(]+[^\s]*`)

// crash turns the dump of a dead simulator process into a violation, if the
// code under test is what crashed it.
func crash(s string) *violation {
	head, rest := "", s
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "panic: ") || strings.HasPrefix(l, "fatal error: ") {
			head = l
			break
		}
	}
	if head == "" {
		return nil
	}
	if i := strings.Index(s, head); i >= 0 {
		rest = s[i:]
	}
	class := "panic"
	switch {
	case strings.Contains(head, "dsim: livelock"):
		class = "livelock"
	case strings.Contains(head, "all goroutines are asleep"):
		class = "deadlock"
	case strings.Contains(head, "concurrent map"):
		class = "data-race"
	case strings.Contains(head, "out of memory"):
		return nil
	}
	// the first goroutine of the dump is the one that crashed
	first := rest
	if class == "panic" || class == "data-race" {
		if i := strings.Index(rest, "\n\ngoroutine "); i >= 0 {
			if j := strings.Index(rest[i+2:], "\n\n"); j >= 0 {
				first = rest[:i+2+j]
			}
		}
	}
	frame := reRepo.FindString(first)
	if frame == "" {
		return nil
	}
	if k := strings.Index(frame, "(0x"); k > 0 {
		frame = frame[:k]
	}
	if k := strings.Index(frame, "({0x"); k > 0 {
		frame = frame[:k]
	}
	return &violation{class, strings.TrimSpace(head) + " at " + frame}
}

// ---- plans ----

func genPlan(prop string, seed uint64) (M, error) {
	cmd := exec.Command(simBin, "-prop", prop, "-seed", fmt.Sprint(seed), "-gen")
	cmd.Env = []string{"GOMAXPROCS=1", "GOGC=off"}
	b, err := cmd.Output()
	if err != nil {
		return nil, err
	}
	return decode(b)
}

func decode(b []byte) (M, error) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	p := M{}
	return p, d.Decode(&p)
}

func writePlan(f string, p M) {
	b, _ := json.MarshalIndent(p, "", " ")
	if err := os.WriteFile(f, append(b, '\n'), 0o644); err != nil {
		fatal(err)
	}
}

func runPlan(ctx context.Context, p M) *result {
	f := filepath.Join(tmpDir, fmt.Sprintf("p%d.json", counter.Add(1)))
	writePlan(f, p)
	defer os.Remove(f)
	return run(ctx, isRace(p), "-plan", f)
}

func isRace(p M) bool { b, _ := p["race"].(bool); return b }

// raceSeed tells if the run of a seed has the race detector (the simulator follows the same rule).
func raceSeed(prop string, s uint64) bool { return s%4 == 3 || prop == "C07" }

func clone(p M) M {
	q := M{}
	for k, v := range p {
		q[k] = v
	}
	return q
}

func list(p M, k string) []any { l, _ := p[k].([]any); return l }

// minimise shrinks a failing plan, keeping the class of its violation.
func minimise(p M, class string, deadline time.Time) M {
	ctx, cancel := context.WithDeadline(context.Background(), deadline)
	defer cancel()
	fails := func(q M) bool {
		r := runPlan(ctx, q)
		return r != nil && r.Harness == "" && r.class() == class
	}
	// try candidates 8 at a time, take the first that still fails
	first := func(cands []M) M {
		for i := 0; i < len(cands) && ctx.Err() == nil; i += 8 {
			j := min(i+8, len(cands))
			ok := make([]bool, j-i)
			var wg sync.WaitGroup
			for k := i; k < j; k++ {
				wg.Add(1)
				go func() { defer wg.Done(); ok[k-i] = fails(cands[k]) }()
			}
			wg.Wait()
			for k := range ok {
				if ok[k] {
					return cands[i+k]
				}
			}
		}
		return nil
	}
	for _, key := range []string{"faults", "ops"} {
		n := 2
		for ctx.Err() == nil {
			l := list(p, key)
			if len(l) == 0 {
				break
			}
			n = min(n, len(l))
			var cands []M
			for i := 0; i < n; i++ {
				a, b := i*len(l)/n, (i+1)*len(l)/n
				q := clone(p)
				q[key] = append(append([]any{}, l[:a]...), l[b:]...)
				cands = append(cands, q)
			}
			if q := first(cands); q != nil {
				p = q
				n = max(n-1, 2)
				continue
			}
			if n >= len(l) {
				break
			}
			n = min(2*n, len(l))
		}
	}
	sched, _ := p["sched"].(M)
	for _, s := range []M{
		{"policy": 0, "mean": 0, "stall_per": 0, "stall_max_us": 0, "change": 0},
		{"policy": sched["policy"], "mean": 0, "stall_per": 0, "stall_max_us": 0, "change": sched["change"]},
		{"policy": 0, "mean": sched["mean"], "stall_per": 0, "stall_max_us": 0, "change": 0},
		{"policy": sched["policy"], "mean": sched["mean"], "stall_per": 0, "stall_max_us": 0, "change": sched["change"]},
	} {
		q := clone(p)
		q["sched"] = s
		if q = first([]M{q}); q != nil {
			p = q
			break
		}
	}
	return p
}

// ---- known findings ----

type finding struct {
	prop, probe, class, what string
	match                    *regexp.Regexp
}

// loadFindings reads lines "known: property=ID probe=FILE class=C match="RE" what..."
func loadFindings(file, prop string) ([]finding, error) {
	b, err := os.ReadFile(file)
	if errors.Is(err, os.ErrNotExist) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	re := regexp.MustCompile(`^known: property=(\S+) probe=(\S+) class=(\S+) match="([^"]*)" (.*)$`)
	var res []finding
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known:") {
			continue
		}
		m := re.FindStringSubmatch(l)
		if m == nil {
			return nil, fmt.Errorf("bad line in %s: %s", file, l)
		}
		if m[1] != prop {
			continue
		}
		rx, err := regexp.Compile(m[4])
		if err != nil {
			return nil, err
		}
		res = append(res, finding{m[1], filepath.Join(filepath.Dir(file), m[2]), m[3], m[5], rx})
	}
	return res, nil
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "drv:", err)
	os.Exit(3)
}

func main() {
	prop := flag.String("prop", "", "property")
	tier := flag.String("tier", "quick", "tier")
	seed := flag.Uint64("seed", 1, "base seed")
	budget := flag.Duration("budget", 30*time.Second, "search time")
	maxRuns := flag.Int("runs", 1<<30, "most runs")
	minRuns := flag.Int("min-runs", 1, "fewest runs, whatever the time")
	verif := flag.String("verif", "/verif", "framework directory")
	bin := flag.String("bin", "", "simulator binary")
	replay := flag.String("replay", "", "replay a plan file and report")
	flag.Parse()
	simBin = *bin
	if simBin == "" {
		simBin = filepath.Join(*verif, ".build/sim")
	}
	if _, err := os.Stat(simBin + "-race"); err == nil {
		raceBin = simBin + "-race"
	}
	var err error
	if tmpDir, err = os.MkdirTemp("", "dsim"); err != nil {
		fatal(err)
	}
	code := 0
	if *replay != "" {
		code = doReplay(*replay)
	} else {
		code = check(*prop, *tier, *seed, *budget, *maxRuns, *minRuns, *verif)
	}
	os.RemoveAll(tmpDir)
	os.Exit(code)
}

func doReplay(f string) int {
	b, err := os.ReadFile(f)
	if err != nil {
		fatal(err)
	}
	p, err := decode(b)
	if err != nil {
		fatal(err)
	}
	out := filepath.Join(tmpDir, "replay.json")
	r := run(context.Background(), isRace(p), "-plan", f, "-trace")
	_ = out
	for _, l := range r.Trace {
		fmt.Println(l)
	}
	if r.Harness != "" {
		fmt.Println("harness:", r.Harness)
		return 3
	}
	if len(r.Violations) == 0 {
		fmt.Println("no violation")
		return 0
	}
	for _, v := range r.Violations {
		fmt.Printf("%s: %s\n", v.Class, v.Msg)
	}
	fmt.Printf("schedule %s trace %s\n", r.Hash, r.TraceHash)
	fmt.Printf("VIOLATION property=%v replay=%s\n", p["prop"], f)
	return 1
}

type agg struct {
	runs, nontrivial, raceRuns              int
	hashes                                 map[string]bool
	simMS                                  int64
	picks, choices, yields, stalls, dropped uint64
	faults, counts                         map[string]int
	samples                                []any
}

func check(prop, tier string, seed uint64, budget time.Duration, maxRuns, minRuns int, verif string) int {
	start := time.Now()
	code, nviol := 0, 0
	var viols []any
	finds, err := loadFindings(filepath.Join(verif, "KNOWN_FINDINGS.txt"), prop)
	if err != nil {
		fatal(err)
	}
	replayDir := filepath.Join(verif, "replays")
	report := func(p M, v violation, r *result) {
		nviol++
		os.MkdirAll(replayDir, 0o755)
		f := filepath.Join(replayDir, fmt.Sprintf("%s-%s-%d.json", prop, v.Class, nviol))
		p["expect"] = M{"class": v.Class, "msg": v.Msg, "schedule": r.Hash, "trace": r.TraceHash}
		writePlan(f, p)
		msg := v.Msg
		if len(msg) > 1500 {
			msg = msg[:1500] + "..."
		}
		fmt.Printf("%s: %s: %s\n", prop, v.Class, msg)
		for i, o := range list(p, "ops") {
			if i == 60 {
				fmt.Printf("  ... %d more steps in the replay file\n", len(list(p, "ops"))-i)
				break
			}
			b, _ := json.Marshal(o)
			fmt.Printf("  step  %s\n", b)
		}
		for _, o := range list(p, "faults") {
			b, _ := json.Marshal(o)
			fmt.Printf("  fault %s\n", b)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, f)
		viols = append(viols, M{"class": v.Class, "message": msg, "replay": f, "plan_seed": p["seed"]})
		code = 1
	}

	// known findings first
	var known []any
	for _, f := range finds {
		b, err := os.ReadFile(f.probe)
		if err != nil {
			fatal(err)
		}
		p, err := decode(b)
		if err != nil {
			fatal(err)
		}
		r := runPlan(context.Background(), p)
		switch {
		case r.Harness != "":
			fmt.Fprintf(os.Stderr, "harness: probe %s: %s\n", f.probe, r.Harness)
			return 3
		case len(r.Violations) == 0:
			fmt.Printf("note: known finding no longer reproduces: %s\n", f.what)
			known = append(known, M{"what": f.what, "reproduces": false})
		case r.class() == f.class && f.match.MatchString(r.Violations[0].Msg):
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, f.what)
			known = append(known, M{"what": f.what, "reproduces": true})
		default:
			report(p, r.Violations[0], r)
		}
	}

	type done struct {
		seed uint64
		r    *result
	}
	ctx, cancel := context.WithCancel(context.Background())
	jobs := make(chan uint64)
	res := make(chan done)
	nw := runtime.NumCPU()
	if nw > 8 {
		nw = 8
	}
	var wg sync.WaitGroup
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for s := range jobs {
				r := run(ctx, raceSeed(prop, s), "-prop", prop, "-seed", fmt.Sprint(s))
				if r != nil && r.Harness != "" { // once more: the machine may have been busy
					r = run(ctx, raceSeed(prop, s), "-prop", prop, "-seed", fmt.Sprint(s))
				}
				if r == nil {
					return
				}
				select {
				case res <- done{s, r}:
				case <-ctx.Done():
					return
				}
			}
		}()
	}
	searchStart := time.Now()
	go func() {
		defer close(jobs)
		for i := 0; i < maxRuns; i++ {
			if i >= minRuns && time.Since(searchStart) > budget {
				return
			}
			select {
			case jobs <- seed*1000000 + uint64(i):
			case <-ctx.Done():
				return
			}
		}
	}()
	go func() { wg.Wait(); close(res) }()

	a := agg{hashes: map[string]bool{}, faults: map[string]int{}, counts: map[string]int{}}
	harness := []string{}
	var fail *done
	sampleSeeds := []uint64{}
	for d := range res {
		if fail != nil {
			continue
		}
		a.runs++
		if raceSeed(prop, d.seed) && raceBin != "" {
			a.raceRuns++
		}
		r := d.r
		if r.Harness != "" {
			harness = append(harness, fmt.Sprintf("seed %d: %s", d.seed, r.Harness))
			if len(harness) > 5 {
				cancel()
			}
			continue
		}
		if len(r.Violations) > 0 {
			fail = &d
			cancel()
			continue
		}
		a.simMS += r.SimMS
		a.picks += r.Picks
		a.choices += r.Choices
		a.yields += r.Yields
		a.stalls += r.Stalls
		a.dropped += r.Dropped
		nt := 0
		for k, v := range r.Faults {
			a.faults[k] += v
		}
		for k, v := range r.Counts {
			a.counts[k] += v
			nt += v
		}
		if !a.hashes[r.Hash] {
			a.hashes[r.Hash] = true
			if nt > 0 {
				a.nontrivial++
				if len(sampleSeeds) < 3 {
					sampleSeeds = append(sampleSeeds, d.seed)
				}
			}
		}
	}
	cancel()
	searchWall := time.Since(searchStart)

	if fail != nil {
		class := fail.r.class()
		fmt.Printf("seed %d: %s: %.300s\n", fail.seed, class, fail.r.Violations[0].Msg)
		p, err := genPlan(prop, fail.seed)
		if err != nil {
			fatal(err)
		}
		limit := 45 * time.Second
		if tier == "thorough" {
			limit = 5 * time.Minute
		}
		q := minimise(p, class, time.Now().Add(limit))
		r1, r2 := runPlan(context.Background(), q), runPlan(context.Background(), q)
		if r1.class() != class || r2.class() != class || r1.Hash != r2.Hash || r1.TraceHash != r2.TraceHash {
			// fall back to the original run
			q = p
			r1, r2 = runPlan(context.Background(), q), runPlan(context.Background(), q)
		}
		if r1.class() != class || r2.class() != class || r1.Hash != r2.Hash || r1.TraceHash != r2.TraceHash {
			fmt.Fprintf(os.Stderr, "harness: seed %d does not replay: %s/%s %s/%s\n", fail.seed, r1.class(), r1.Hash, r2.class(), r2.Hash)
			harness = append(harness, "unstable replay")
		} else {
			q["seed_of_search"] = fail.seed
			report(q, r1.Violations[0], r1)
		}
		a.samples = append(a.samples, q)
	}
	for _, s := range sampleSeeds {
		if p, err := genPlan(prop, s); err == nil {
			a.samples = append(a.samples, p)
		}
	}
	if len(a.samples) == 0 {
		a.samples = []any{"none"}
	}

	var meta M
	if b, err := exec.Command(simBin, "-about", prop).Output(); err == nil {
		json.Unmarshal(b, &meta)
	}
	hours := searchWall.Hours()
	ev := M{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": M{
			"evaluations":              a.runs,
			"distinct_nontrivial":      a.nontrivial,
			"rule":                     "one evaluation is one simulated run of the whole system, drawn from its seed (configuration, history of operations, faults, scheduling regime); non-trivial: the run performed at least one operation or check (sum of the counts below > 0); distinct: by the hash over all scheduling decisions of the run",
			"samples":                  a.samples,
			"runs_per_hour":            int(float64(a.runs) / hours),
			"seeds":                    fmt.Sprintf("%d..%d", seed*1000000, seed*1000000+uint64(max(a.runs-1, 0))),
			"simulated_hours":          float64(a.simMS) / 3600e3,
			"distinct_schedules":       len(a.hashes),
			"scheduling_steps":         a.picks,
			"scheduling_choices":       a.choices,
			"preemptions":              a.yields,
			"stalls":                   a.stalls,
			"goroutines_killed":        a.dropped,
			"faults_injected":          a.faults,
			"counts":                   a.counts,
			"runs_with_race_detector":  a.raceRuns,
			"known_findings":           known,
			"harness_errors":           harness,
			"components_real":          meta["real"],
			"components_stub":          meta["stub"],
			"violations_detail":        viols,
		},
		"wall_s":      time.Since(start).Seconds(),
		"violations":  nviol,
		"assumptions": meta["assumptions"],
	}
	if ev["assumptions"] == nil {
		ev["assumptions"] = []any{}
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(b, '\n'), 0o644); err != nil {
		fatal(err)
	}
	ks := []string{}
	for k, v := range a.faults {
		ks = append(ks, fmt.Sprintf("%s=%d", k, v))
	}
	sort.Strings(ks)
	fmt.Printf("%s %s: %d runs (%d distinct schedules) in %.1fs, %.1f simulated hours, faults: %s\n", prop, tier, a.runs, len(a.hashes), searchWall.Seconds(), float64(a.simMS)/3600e3, strings.Join(ks, " "))
	if code == 0 && len(harness) > 0 {
		for _, h := range harness {
			fmt.Fprintln(os.Stderr, "harness:", h)
		}
		return 3
	}
	return code
}
