// gen prepares the overlay used to build the simulator: patched Go runtime
// files, and the dcontroller sources with preemption points inserted at every
// statement. Nothing under /repo or GOROOT is modified.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type edit struct{ old, new string }

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "gen:", err)
		os.Exit(2)
	}
}

var replace = map[string]string{}

func writeIfChanged(path string, data []byte) {
	old, err := os.ReadFile(path)
	if err == nil && string(old) == string(data) {
		return
	}
	must(os.MkdirAll(filepath.Dir(path), 0o755))
	must(os.WriteFile(path, data, 0o644))
}

func patchFile(goroot, out, rel string, edits []edit) {
	src := filepath.Join(goroot, "src", rel)
	b, err := os.ReadFile(src)
	must(err)
	s := string(b)
	for _, e := range edits {
		if strings.Count(s, e.old) != 1 {
			must(fmt.Errorf("%s: anchor found %d times: %q", rel, strings.Count(s, e.old), e.old))
		}
		s = strings.Replace(s, e.old, e.new, 1)
	}
	dst := filepath.Join(out, "rt", rel)
	writeIfChanged(dst, []byte(s))
	replace[src] = dst
}

func main() {
	goroot := flag.String("goroot", "", "GOROOT")
	repo := flag.String("repo", "/repo", "dcontroller tree")
	here := flag.String("dsim", "/verif/dsim", "simulator sources")
	out := flag.String("out", "", "output directory")
	flag.Parse()

	patchFile(*goroot, *out, "runtime/proc.go", []edit{
		{`const haveSysmon = GOARCH != "wasm"`, `const haveSysmon = false`},
		// the race detector needs cgo, which keeps a spare thread: virtual time must advance all the same
		{"	if !iscgo && cgoHasExtraM && extraMLength.Load() > 0 {\n", "	if cgoHasExtraM && extraMLength.Load() > 0 {\n"},
		{"	// Check the global runnable queue once in a while to ensure fairness.\n", "	if dsim.on {\n		if fingStatus.Load()&(fingWait|fingWake) == fingWait|fingWake {\n			if gp := wakefing(); gp != nil {\n				ready(gp, 0, true)\n			}\n		}\n		if gp := dsimPick(pp); gp != nil {\n			return gp, false, false\n		}\n	}\n\n	// Check the global runnable queue once in a while to ensure fairness.\n"},
		{"	newg.parentGoid = callergp.goid\n", "	newg.parentGoid = callergp.goid\n	newg.dsimNode = callergp.dsimNode\n	newg.dsimPrio = uint32(dsimNext(&dsim.schedRng))\n"},
	})
	patchFile(*goroot, *out, "runtime/runtime2.go", []edit{
		{"	gcAssistBytes int64\n}\n", "	gcAssistBytes int64\n\n	dsimNode uint32\n	dsimPrio uint32\n}\n"},
	})
	// stacks tell the simulated node of a goroutine
	patchFile(*goroot, *out, "runtime/traceback.go", []edit{
		{"	if gp.lockedm != 0 {\n		print(\", locked to thread\")\n", "	if gp.dsimNode != 0 {\n		print(\", node \", gp.dsimNode, \".\")\n	}\n	if gp.lockedm != 0 {\n		print(\", locked to thread\")\n"},
	})
	patchFile(*goroot, *out, "runtime/select.go", []edit{
		{"	gp := getg()\n	if debugSelect {\n", "	if dsim.on {\n		dsimSpin()\n	}\n	gp := getg()\n	if debugSelect {\n"},
	})
	patchFile(*goroot, *out, "runtime/rand.go", []edit{
		{"	lock(&globalRand.lock)\n	if globalRand.init {\n		fatal(\"randinit twice\")\n	}\n", "	startupRand = nil\n	lock(&globalRand.lock)\n	if globalRand.init {\n		fatal(\"randinit twice\")\n	}\n"},
		{"		if readRandom(seed[:]) != len(seed) || allZero(seed[:]) {\n", "		for i := range seed {\n			seed[i] = byte(i*7 + 1)\n		}\n		if false {\n"},
		{"	mp := getg().m\n	c := &mp.chacha8\n	for {\n", "	if true {\n		return dsimNext(&dsim.userRng)\n	}\n	mp := getg().m\n	c := &mp.chacha8\n	for {\n"},
		{"	mp := getg().m\n	// Implement wyrand: https", "	if true {\n		return uint32(dsimNext(&dsim.cheapRng) >> 32)\n	}\n	mp := getg().m\n	// Implement wyrand: https"},
	})
	// virtual time without the playground's output framing
	{
		b, err := os.ReadFile(filepath.Join(*goroot, "src/runtime/time_fake.go"))
		must(err)
		s := string(b)
		i := strings.Index(s, "	if !(fd == 1 || fd == 2) {\n")
		j := strings.Index(s, "	// Write with the playback header.")
		if i < 0 || j < 0 {
			must(fmt.Errorf("time_fake.go: anchors"))
		}
		s = s[:i] + "	return write1(fd, p, n)\n}\n"
		// every node has a wall clock of its own
		now := "	return faketime / 1e9, int32(faketime % 1e9), faketime\n"
		if strings.Count(s, now) != 1 {
			must(fmt.Errorf("time_fake.go: time_now"))
		}
		s = strings.Replace(s, now, "	w := dsimWall()\n	return w / 1e9, int32(w % 1e9), faketime\n", 1)
		dst := filepath.Join(*out, "rt/runtime/time_fake.go")
		writeIfChanged(dst, []byte(s))
		replace[filepath.Join(*goroot, "src/runtime/time_fake.go")] = dst
	}
	{
		dst := filepath.Join(*out, "rt/syscall/time_fake.go")
		writeIfChanged(dst, []byte("//go:build faketime\n\npackage syscall\n\nconst faketime = false\n\nfunc faketimeWrite(fd int, p []byte) int { panic(\"not implemented\") }\n"))
		replace[filepath.Join(*goroot, "src/syscall/time_fake.go")] = dst
	}
	patchFile(*goroot, *out, "crypto/internal/sysrand/rand.go", []edit{
		{"func Read(b []byte) {\n", "func Read(b []byte) {\n	if true {\n		for i := range b {\n			b[i] = byte(runtime_rand() >> 13)\n		}\n		return\n	}\n"},
		{"var testingOnlyFailRead bool\n", "var testingOnlyFailRead bool\n\n//go:linkname runtime_rand runtime.rand\nfunc runtime_rand() uint64\n"},
	})
	// listening sockets in memory
	patchFile(*goroot, *out, "net/dial.go", []edit{
		{"func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {\n", "// DsimListen opens listening sockets in memory.\nvar DsimListen func(network, address string) (Listener, error)\n\nfunc (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {\n	if DsimListen != nil {\n		return DsimListen(network, address)\n	}\n"},
	})
	{
		b, err := os.ReadFile(filepath.Join(*here, "rt/dsim_rt.go"))
		must(err)
		dst := filepath.Join(*out, "rt/runtime/dsim_rt.go")
		writeIfChanged(dst, b)
		replace[filepath.Join(*goroot, "src/runtime/dsim_rt.go")] = dst
	}

	n := 0
	must(filepath.Walk(filepath.Join(*repo, "pkg"), func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		rel, _ := filepath.Rel(*repo, p)
		dir := filepath.Dir(rel)
		mode := 2
		switch {
		case strings.HasPrefix(dir, "pkg/api/"), strings.HasPrefix(dir, "pkg/visualize"), dir == "pkg/testsuite":
			return nil
		case dir == "pkg/expression", dir == "pkg/dbsp":
			mode = 1 // function entries only
		}
		out2 := filepath.Join(*out, "src", rel)
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		r, err := instrument(p, b, mode)
		if err != nil {
			// not parseable: leave it to the compiler
			return nil
		}
		writeIfChanged(out2, r)
		replace[p] = out2
		n++
		return nil
	}))
	keys := []string{}
	for k := range replace {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	js, err := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	must(err)
	writeIfChanged(filepath.Join(*out, "overlay.json"), js)
	fmt.Printf("gen: %d files instrumented, %d overlay entries\n", n, len(keys))
}

// instrument inserts a preemption point in front of every statement (mode 2)
// or at function entry (mode 1).
func instrument(name string, src []byte, mode int) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	if f.Name.Name == "main" {
		return src, nil
	}
	type ins struct {
		off  int
		text string
	}
	var inss []ins
	add := func(pos token.Pos, text string) {
		inss = append(inss, ins{fset.Position(pos).Offset, text})
	}
	stmts := func(l []ast.Stmt) {
		for _, s := range l {
			switch s.(type) {
			case *ast.LabeledStmt, *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
				continue
			}
			add(s.Pos(), "dsimhook.Y(); ")
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncDecl:
			if x.Body == nil {
				return false
			}
			if x.Name.Name == "init" && x.Recv == nil {
				return false
			}
			if mode == 1 && len(x.Body.List) > 0 {
				add(x.Body.List[0].Pos(), "dsimhook.Y(); ")
			}
		case *ast.BlockStmt:
			if mode == 2 {
				stmts(x.List)
			}
		case *ast.CaseClause:
			if mode == 2 {
				stmts(x.Body)
			}
		case *ast.CommClause:
			if mode == 2 {
				stmts(x.Body)
			}
		}
		return true
	})
	if len(inss) == 0 {
		return src, nil
	}
	// switch/select bodies hold only clauses: nothing was added for them.
	add(f.Name.End(), `; import dsimhook "dsim.test/hook"`)
	sort.SliceStable(inss, func(i, j int) bool { return inss[i].off < inss[j].off })
	var b strings.Builder
	last := 0
	for _, in := range inss {
		b.Write(src[last:in.off])
		b.WriteString(in.text)
		last = in.off
	}
	b.Write(src[last:])
	res := []byte(b.String())
	if _, err := format.Source(res); err != nil {
		return nil, fmt.Errorf("%s: %w", name, err)
	}
	return append([]byte("//line "+name+":1\n"), res...), nil
}
