// mkoverlay writes a build overlay: a patched Go runtime (deterministic
// scheduler) plus instrumented copies of the repository's current sources
// (a preemption point before every statement). It never edits the originals
// and fails if an expected place in the runtime is not found.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type rep struct{ old, new string }

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "mkoverlay:", err)
		os.Exit(3)
	}
}

var runtimePatches = map[string][]rep{
	"runtime/runtime2.go": {
		{"type g struct {\n", "type g struct {\n//SIMFIELDS-BELOW\n"},
		{"\tstackguard1 uintptr // offset known to cmd/internal/obj/*\n", "\tstackguard1 uintptr // offset known to cmd/internal/obj/*\n"},
	},
	"runtime/proc.go": {
		// ready
		{"\trunqput(mp.p.ptr(), gp, next)\n\twakep()\n\treleasem(mp)\n}",
			"\tif gp.sim && sim.active {\n\t\tsimEnqueue(gp)\n\t} else {\n\t\trunqput(mp.p.ptr(), gp, next)\n\t}\n\twakep()\n\treleasem(mp)\n}"},
		// findRunnable
		{"\t// Try to schedule the trace reader.\n\tif traceEnabled() || traceShuttingDown() {\n\t\tgp := traceReader()",
			"\tif sim.active && sim.cur == 0 {\n\t\tif gp := simPick(); gp != nil {\n\t\t\treturn gp, false, false\n\t\t}\n\t}\n\n\t// Try to schedule the trace reader.\n\tif traceEnabled() || traceShuttingDown() {\n\t\tgp := traceReader()"},
		// park_m
		{"\tif bubble != nil {\n\t\tbubble.decActive()\n\t}\n\n\tschedule()\n}\n\nfunc goschedImpl(",
			"\tif bubble != nil {\n\t\tbubble.decActive()\n\t}\n\n\tsimRelease(gp)\n\tschedule()\n}\n\nfunc goschedImpl("},
		// goschedImpl
		{"\tdropg()\n\tif preempted && sched.gcwaiting.Load() {",
			"\tdropg()\n\tif gp.sim && sim.active && !preempted {\n\t\tsimRelease(gp)\n\t\tsimEnqueue(gp)\n\t} else if preempted && sched.gcwaiting.Load() {"},
		// goyield_m
		{"\tdropg()\n\trunqput(pp, gp, false)\n\tschedule()\n}",
			"\tdropg()\n\tif gp.sim && sim.active {\n\t\tsimRelease(gp)\n\t\tsimEnqueue(gp)\n\t} else {\n\t\trunqput(pp, gp, false)\n\t}\n\tschedule()\n}"},
		// gdestroy
		{"\tgp.preemptStop = false\n\tgp.paniconfault = false\n\tgp._defer = nil // should be true already but just in case.\n",
			"\tgp.preemptStop = false\n\tgp.paniconfault = false\n\tif gp.sim {\n\t\tsimRelease(gp)\n\t\tgp.sim = false\n\t\tsim.live--\n\t}\n\tgp._defer = nil // should be true already but just in case.\n"},
		// goexit1
		{"\t\t\tracereleasemergeg(gp, gp.bubble.raceaddr())\n\t\t}\n\t\tracegoend()\n",
			"\t\t\tracereleasemergeg(gp, gp.bubble.raceaddr())\n\t\t}\n\t\tif gp := getg(); gp.sim {\n\t\t\tracereleasemergeg(gp, unsafe.Pointer(&simRaceEnd))\n\t\t}\n\t\tracegoend()\n"},
		// newproc
		{"\t\tpp := getg().m.p.ptr()\n\t\trunqput(pp, newg, true)\n",
			"\t\tif gp.sim && sim.active && !isSystemGoroutine(newg, false) {\n\t\t\tsimAdopt(newg)\n\t\t\tsimEnqueue(newg)\n\t\t} else {\n\t\t\tpp := getg().m.p.ptr()\n\t\t\trunqput(pp, newg, true)\n\t\t}\n"},
	},
	"runtime/select.go": {
		{"\t\tj := cheaprandn(uint32(norder + 1))\n",
			"\t\tvar j uint32\n\t\tif gp.sim && sim.active {\n\t\t\tj = simSelect(uint32(norder + 1))\n\t\t} else {\n\t\t\tj = cheaprandn(uint32(norder + 1))\n\t\t}\n"},
		{"func selectgo(cas0 *scase, order0 *uint16, pc0 *uintptr, nsends, nrecvs int, block bool) (int, bool) {\n\tgp := getg()\n",
			"func selectgo(cas0 *scase, order0 *uint16, pc0 *uintptr, nsends, nrecvs int, block bool) (int, bool) {\n\tgp := getg()\n\tif gp.sim {\n\t\tsimPoint()\n\t}\n"},
	},
	"runtime/chan.go": {
		{"func chansend1(c *hchan, elem unsafe.Pointer) {\n", "func chansend1(c *hchan, elem unsafe.Pointer) {\n\tif getg().sim {\n\t\tsimPoint()\n\t}\n"},
		{"func chanrecv1(c *hchan, elem unsafe.Pointer) {\n", "func chanrecv1(c *hchan, elem unsafe.Pointer) {\n\tif getg().sim {\n\t\tsimPoint()\n\t}\n"},
		{"func chanrecv2(c *hchan, elem unsafe.Pointer) (received bool) {\n", "func chanrecv2(c *hchan, elem unsafe.Pointer) (received bool) {\n\tif getg().sim {\n\t\tsimPoint()\n\t}\n"},
		{"func closechan(c *hchan) {\n", "func closechan(c *hchan) {\n\tif getg().sim {\n\t\tsimPoint()\n\t}\n"},
		{"func selectnbsend(c *hchan, elem unsafe.Pointer) (selected bool) {\n", "func selectnbsend(c *hchan, elem unsafe.Pointer) (selected bool) {\n\tif getg().sim {\n\t\tsimPoint()\n\t}\n"},
		{"func selectnbrecv(elem unsafe.Pointer, c *hchan) (selected, received bool) {\n", "func selectnbrecv(elem unsafe.Pointer, c *hchan) (selected, received bool) {\n\tif getg().sim {\n\t\tsimPoint()\n\t}\n"},
	},
	"runtime/rand.go": {
		{"func rand() uint64 {\n", "func rand() uint64 {\n\tif getg().sim {\n\t\treturn simRand2()\n\t}\n"},
		{"func bootstrapRand() uint64 {\n", "var simBoot uint64 = 0x1234567\n\nfunc bootstrapRand() uint64 {\n\tif true {\n\t\tsimBoot += 0x9e3779b97f4a7c15\n\t\tz := simBoot\n\t\tz = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9\n\t\tz = (z ^ (z >> 27)) * 0x94d049bb133111eb\n\t\treturn z ^ (z >> 31)\n\t}\n"},
	},
	"runtime/sema.go": {
		{"func internal_sync_nanotime() int64 {\n", "func internal_sync_nanotime() int64 {\n\tif getg().sim {\n\t\treturn 1\n\t}\n"},
	},
}

// clock is what of the standard library asks for the time or waits for it.
var clock = map[string]map[string]bool{
	"time": {"Now": true, "Since": true, "Until": true, "Sleep": true, "After": true, "AfterFunc": true,
		"NewTimer": true, "Timer": true, "NewTicker": true, "Ticker": true, "Tick": true},
	"context": {"WithTimeout": true, "WithTimeoutCause": true, "WithDeadline": true, "WithDeadlineCause": true},
}

func main() {
	goroot := flag.String("goroot", "", "GOROOT of the toolchain")
	repo := flag.String("repo", "/repo", "repository")
	out := flag.String("out", "", "output directory")
	zsim := flag.String("zsim", "", "runtime scheduler source")
	instr := flag.Bool("instr", true, "instrument repo sources")
	flag.Parse()
	replace := map[string]string{}
	must(os.MkdirAll(filepath.Join(*out, "rt"), 0o755))
	for f, reps := range runtimePatches {
		src := filepath.Join(*goroot, "src", f)
		b, err := os.ReadFile(src)
		must(err)
		s := string(b)
		for _, r := range reps {
			if n := strings.Count(s, r.old); n != 1 {
				must(fmt.Errorf("%s: patch anchor found %d times: %q", f, n, r.old))
			}
			s = strings.Replace(s, r.old, r.new, 1)
		}
		if f == "runtime/runtime2.go" {
			// add fields at the end of g, so no offset known elsewhere moves
			i := strings.Index(s, "type g struct {\n//SIMFIELDS-BELOW\n")
			j := strings.Index(s[i:], "\n}\n")
			if i < 0 || j < 0 {
				must(fmt.Errorf("type g not found"))
			}
			s = s[:i+j] + "\n\tsim bool\n\tsimid uint32\n\tsimprio uint32\n}\n" + s[i+j+3:]
			s = strings.Replace(s, "//SIMFIELDS-BELOW\n", "", 1)
		}
		dst := filepath.Join(*out, "rt", filepath.Base(f))
		must(writeIfChanged(dst, []byte(s)))
		replace[src] = dst
	}
	zb, err := os.ReadFile(*zsim)
	must(err)
	zdst := filepath.Join(*out, "rt", "zsim.go")
	must(writeIfChanged(zdst, zb))
	replace[filepath.Join(*goroot, "src/runtime/zsim.go")] = zdst

	var sites []string
	if *instr {
		var files []string
		must(filepath.Walk(*repo, func(p string, fi os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			if fi.IsDir() {
				b := filepath.Base(p)
				if p != *repo && (strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || b == "testdata" || b == "test" || b == "pb") {
					return filepath.SkipDir
				}
				return nil
			}
			if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
				files = append(files, p)
			}
			return nil
		}))
		sort.Strings(files)
		for _, f := range files {
			b, err := os.ReadFile(f)
			must(err)
			rel, _ := filepath.Rel(*repo, f)
			nb, ok := instrument(rel, b, &sites)
			if !ok {
				continue
			}
			dst := filepath.Join(*out, "repo", rel)
			must(os.MkdirAll(filepath.Dir(dst), 0o755))
			must(writeIfChanged(dst, nb))
			replace[f] = dst
		}
	}
	must(writeIfChanged(filepath.Join(*out, "sites.txt"), []byte(strings.Join(sites, "\n")+"\n")))
	ob, err := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	must(err)
	must(writeIfChanged(filepath.Join(*out, "overlay.json"), ob))
}

func writeIfChanged(p string, b []byte) error {
	if old, err := os.ReadFile(p); err == nil && string(old) == string(b) {
		return nil
	}
	return os.WriteFile(p, b, 0o644)
}

// instrument inserts "simrt.P(n);" before every statement that starts a line
// of execution in a block. Line numbers are kept.
func instrument(rel string, src []byte, sites *[]string) ([]byte, bool) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, rel, src, parser.ParseComments)
	must(err)
	// leave files with build constraints that exclude them or generated code alone
	type ins struct {
		off  int
		text string
		cut  int // bytes replaced
	}
	var inss []ins
	list := func(l []ast.Stmt) {
		for _, s := range l {
			switch s.(type) {
			case *ast.EmptyStmt:
				continue
			}
			pos := fset.Position(s.Pos())
			id := len(*sites)
			*sites = append(*sites, fmt.Sprintf("%s:%d", rel, pos.Line))
			inss = append(inss, ins{pos.Offset, fmt.Sprintf("simrt_.P(%d);", id), 0})
		}
	}
	skip := map[*ast.BlockStmt]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.SwitchStmt:
			skip[x.Body] = true
		case *ast.TypeSwitchStmt:
			skip[x.Body] = true
		case *ast.SelectStmt:
			skip[x.Body] = true
		case *ast.BlockStmt:
			if !skip[x] {
				list(x.List)
			}
		case *ast.CaseClause:
			list(x.Body)
		case *ast.CommClause:
			list(x.Body)
		}
		return true
	})
	if len(inss) == 0 {
		return nil, false
	}
	// the clock: package time, and contexts that end at some time
	names := map[string]string{} // local name of a package: its path
	for _, im := range f.Imports {
		p := strings.Trim(im.Path.Value, "\"`")
		if clock[p] == nil {
			continue
		}
		n := p
		if im.Name != nil {
			n = im.Name.Name
		}
		names[n] = p
	}
	used := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		x, ok := n.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		id, ok := x.X.(*ast.Ident)
		if !ok || id.Obj != nil || names[id.Name] == "" || !clock[names[id.Name]][x.Sel.Name] {
			return true
		}
		p := names[id.Name]
		inss = append(inss, ins{fset.Position(x.Pos()).Offset, "simrt_." + strings.ToUpper(p[:1]) + p[1:] + x.Sel.Name, fset.Position(x.End()).Offset - fset.Position(x.Pos()).Offset})
		used[id.Name] = true
		return true
	})
	sort.SliceStable(inss, func(i, j int) bool { return inss[i].off < inss[j].off })
	var sb strings.Builder
	last := 0
	nameEnd := fset.Position(f.Name.End()).Offset
	sb.Write(src[:nameEnd])
	sb.WriteString("; import simrt_ \"verifsim/simrt\"")
	last = nameEnd
	for _, in := range inss {
		sb.Write(src[last:in.off])
		sb.WriteString(in.text)
		last = in.off + in.cut
	}
	sb.Write(src[last:])
	for _, n := range []string{"time", "context"} { // may have lost their only use
		for l := range used {
			if names[l] == n {
				n = l
			}
		}
		if !used[n] {
			continue
		}
		if names[n] == "time" {
			fmt.Fprintf(&sb, "\nvar _ %s.Duration\n", n)
		} else {
			fmt.Fprintf(&sb, "\nvar _ %s.Context\n", n)
		}
	}
	return []byte(sb.String()), true
}
