package main

import (
	"fmt"
	"os"
	"regexp"
	"sort"
	"strings"
)

// races adds the data races that the race detector has found between
// goroutines of the code under test (the harness is compiled without it).
//
// A data race is reported if on both sides the innermost function of the
// repository is not a constructor: it is the harness that hands new objects
// over to other goroutines without synchronization.
func races(res *result) {
	f := ""
	for _, kv := range strings.Fields(os.Getenv("GORACE")) {
		if v, ok := strings.CutPrefix(kv, "log_path="); ok {
			f = fmt.Sprintf("%s.%d", v, os.Getpid())
		}
	}
	if f == "" {
		return
	}
	b, err := os.ReadFile(f)
	if err != nil {
		return
	}
	seen := map[string]bool{}
	for i, rep := range strings.Split(string(b), "WARNING: DATA RACE") {
		if i == 0 {
			continue
		}
		secs := strings.Split(strings.TrimSpace(rep), "\n\n")
		if len(secs) < 2 {
			continue
		}
		a, ok1 := raceSide(secs[0])
		c, ok2 := raceSide(secs[1])
		if !ok1 || !ok2 {
			continue
		}
		msg := a + " and " + c
		if !seen[msg] {
			seen[msg] = true
			res.Violations = append(res.Violations, violation{"data-race", "data race: " + msg})
		}
	}
}

var reCtor = regexp.MustCompile(`\.New[A-Z]?[A-Za-z0-9]*\(\)$`)

func raceSide(s string) (string, bool) {
	ls := strings.Split(s, "\n")
	what, _, _ := strings.Cut(ls[0], " at ")
	what = strings.ToLower(strings.TrimPrefix(what, "Previous "))
	for i := 1; i+1 < len(ls); i += 2 {
		fn, loc := strings.TrimSpace(ls[i]), strings.TrimSpace(ls[i+1])
		if strings.HasPrefix(fn, "main.") || strings.HasPrefix(fn, "net/http.(*Client)") || strings.HasPrefix(fn, "k8s.io/client-go/rest.") {
			return "", false // the simulated API server
		}
		if !strings.HasPrefix(fn, "github.com/l7mp/dcontroller/pkg/") {
			continue
		}
		if reCtor.MatchString(fn) {
			return "", false
		}
		loc, _, _ = strings.Cut(loc, " ")
		if j := strings.Index(loc, "/pkg/"); j >= 0 {
			loc = loc[j+1:]
		}
		return what + " in " + strings.TrimPrefix(fn, "github.com/l7mp/dcontroller/") + " " + loc, true
	}
	return "", false
}

// C07 runs what the other properties run, always with the race detector, and
// judges nothing else.
func init() { gens["C07"] = genC07 }

func genC07(r *rng) *plan {
	var ids []string
	for id := range gens {
		if id != "C07" {
			ids = append(ids, id)
		}
	}
	sort.Strings(ids)
	id := pick(r, ids)
	p := gens[id](r)
	p.Prop = "C07"
	p.Cfg["as"] = id
	return p
}

func onlyRaces(vs []violation) []violation {
	var ret []violation
	for _, v := range vs {
		if v.Class == "data-race" {
			ret = append(ret, v)
		}
	}
	return ret
}
