// vsim explores, minimises and replays simulated executions.
//
//	vsim check ID quick|thorough   explore; exit 0 held, 1 violation, 2 error
//	vsim replay FILE               re-execute a replay file and print its trace
//	vsim show ID SEED              execute one seed verbosely
//	vsim selftest [N]              determinism: every property, N seeds, twice
//	vsim list                      property ids
package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"verifsim/harness"
	"verifsim/props"
	"verifsim/simrt"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vsim check|replay|show|selftest|list ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(check(os.Args[2], os.Args[3]))
	case "worker":
		worker(os.Args[2:])
	case "exec":
		executor()
	case "replay":
		os.Exit(replay(os.Args[2]))
	case "show":
		show(os.Args[2], os.Args[3])
	case "selftest":
		n := 200
		if len(os.Args) > 2 {
			n, _ = strconv.Atoi(os.Args[2])
		}
		os.Exit(selftest(n))
	case "list":
		for _, p := range props.All {
			fmt.Println(p.ID, p.Title)
		}
	case "rules":
		for _, p := range props.All {
			fmt.Printf("%s\t%s\n", p.ID, p.Rule)
		}
	default:
		os.Exit(2)
	}
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func simProcess() {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(-1)
	runtime.MemProfileRate = 0
	if !raceEnabled {
		syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: 12 << 30, Max: 12 << 30})
	}
}

var gcTick int

func maybeGC() {
	gcTick++
	if gcTick%8 != 0 {
		return
	}
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	limit := uint64(300 << 20)
	if raceEnabled {
		limit = 64 << 20 // the detector's shadow is a multiple of the heap
	}
	if ms.HeapAlloc > limit {
		runtime.GC()
	}
}

const maxRSS = 1500 << 20

// rss is how much memory this process holds.
func rss() uint64 {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	var size, res uint64
	fmt.Sscan(string(b), &size, &res)
	return res * uint64(os.Getpagesize())
}

func execute(p *harness.Prop, c *harness.Case, verbose bool) *harness.Outcome {
	return harness.Exec(p, c, verbose)
}

// ---- worker ----

type wmsg struct {
	T      string             `json:"t"`
	Case   *harness.Case      `json:"case,omitempty"`
	Viol   *harness.Violation `json:"viol,omitempty"`
	Runs   int                `json:"runs,omitempty"`
	Steps  uint64             `json:"steps,omitempty"`
	Points uint64             `json:"points,omitempty"`
	Sw     uint64             `json:"sw,omitempty"`
	Now    int64              `json:"now,omitempty"`
	Checks int                `json:"checks,omitempty"`
	Fired  map[string]int     `json:"fired,omitempty"`
	Probes map[string]int     `json:"probes,omitempty"`
	Ops    map[string]int     `json:"ops,omitempty"`
	Hashes []uint64           `json:"hashes,omitempty"`
	Inter  []uint64           `json:"inter,omitempty"`
	Cov    []int              `json:"cov,omitempty"`
	Next   uint64             `json:"next,omitempty"`
	First  uint64             `json:"first,omitempty"`  // first seed of the process
	Stride uint64             `json:"stride,omitempty"` // between its seeds
}

func merge(dst, src map[string]int) {
	for k, v := range src {
		dst[k] += v
	}
}

// worker ID base start stride count deadline(unix ms) thorough progressfile
func worker(a []string) {
	p := props.Get(a[0])
	base, _ := strconv.ParseUint(a[1], 10, 64)
	start, _ := strconv.ParseUint(a[2], 10, 64)
	stride, _ := strconv.ParseUint(a[3], 10, 64)
	count, _ := strconv.ParseUint(a[4], 10, 64)
	deadline, _ := strconv.ParseInt(a[5], 10, 64)
	thorough := a[6] == "1"
	pf, err := os.OpenFile(a[7], os.O_RDWR|os.O_CREATE, 0o644)
	if err != nil {
		panic(err)
	}
	simProcess()
	out := bufio.NewWriter(os.Stdout)
	enc := json.NewEncoder(out)
	fresh := func() *wmsg {
		return &wmsg{T: "stats", Fired: map[string]int{}, Probes: map[string]int{}, Ops: map[string]int{}}
	}
	m := fresh()
	last := time.Now()
	flush := func() {
		for i := range simrt.Cov {
			if simrt.Cov[i] == 1 {
				m.Cov = append(m.Cov, i)
				simrt.Cov[i] = 2
			}
		}
		enc.Encode(m)
		out.Flush()
		m = fresh()
		last = time.Now()
	}
	var b8 [8]byte
	viols := 0
	for i := start; i < count; i += stride {
		if time.Now().UnixMilli() > deadline {
			break
		}
		binary.LittleEndian.PutUint64(b8[:], i)
		pf.WriteAt(b8[:], 0)
		seed := base + i
		c, o := harness.Build(p, seed, thorough)
		if o == nil {
			o = execute(p, c, false)
		}
		m.Runs++
		m.Steps += o.Steps
		m.Points += o.Points
		m.Sw += o.Switches
		m.Now += o.Now
		m.Checks += o.Checks
		merge(m.Fired, o.Fired)
		merge(m.Probes, o.Probes)
		merge(m.Ops, o.Ops)
		m.Inter = append(m.Inter, o.Hash)
		if o.Checks > 0 {
			m.Hashes = append(m.Hashes, o.Hash^(o.LogHash*0x9e3779b97f4a7c15))
		}
		if o.Viol != nil {
			flush()
			enc.Encode(&wmsg{T: "viol", Case: c, Viol: o.Viol, First: base + start, Stride: stride})
			out.Flush()
			viols++
			if viols >= 8 {
				break
			}
		}
		if time.Since(last) > 500*time.Millisecond {
			flush()
		}
		maybeGC()
		if gcTick%16 == 0 && rss() > maxRSS {
			// memory of goroutines that were left behind (by killed
			// processes, say) is not to be had back: go on in a new process
			flush()
			enc.Encode(&wmsg{T: "more", Next: i + stride})
			out.Flush()
			return
		}
	}
	flush()
	enc.Encode(&wmsg{T: "end"})
	out.Flush()
}

// ---- executor: cases on stdin, outcomes on stdout ----

type execReq struct {
	Case    *harness.Case `json:"case"`
	Verbose bool          `json:"verbose"`
	// Seeds are built and executed, as a worker does it, before the case.
	Seeds    []uint64 `json:"seeds,omitempty"`
	Thorough bool     `json:"thorough,omitempty"`
}

// execResp is an outcome and, with Seeds, the executions made for them.
type execResp struct {
	*harness.Outcome
	Before []*harness.Case `json:"before,omitempty"`
}

func executor() {
	simProcess()
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriter(os.Stdout)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var r execReq
		if err := json.Unmarshal(line, &r); err != nil {
			panic(err)
		}
		p := props.Get(r.Case.Prop)
		var before []*harness.Case
		harness.OnDry = func(c *harness.Case) { before = append(before, c) }
		for _, seed := range r.Seeds {
			c, o := harness.Build(p, seed, r.Thorough)
			if o == nil {
				before = append(before, c.Clone())
				execute(p, c, false)
			} else if len(before) == 0 || before[len(before)-1].Seed != seed {
				before = append(before, c.Clone())
			}
			maybeGC()
		}
		for _, c := range r.Case.Before {
			execute(p, c, false)
			maybeGC()
		}
		o := execute(p, r.Case, r.Verbose)
		json.NewEncoder(out).Encode(execResp{o, before})
		out.Flush()
		maybeGC()
	}
}

type runner struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	err *tail
	n   int
}

type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.b) < 1<<18 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}
func (t *tail) String() string { t.mu.Lock(); defer t.mu.Unlock(); return string(t.b) }

func self() string {
	s, err := os.Executable()
	if err != nil {
		panic(err)
	}
	return s
}

func childEnv() []string {
	env := append(os.Environ(), "GODEBUG=asyncpreemptoff=1", "GOTRACEBACK=all")
	return append(env, raceEnv()...)
}

func (r *runner) start() error {
	r.cmd = exec.Command(self(), "exec")
	r.cmd.Env = childEnv()
	r.err = &tail{}
	r.cmd.Stderr = r.err
	var err error
	if r.in, err = r.cmd.StdinPipe(); err != nil {
		return err
	}
	o, err := r.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	r.out = bufio.NewReaderSize(o, 1<<20)
	r.n = 0
	return r.cmd.Start()
}

func (r *runner) stop() {
	if r.cmd != nil {
		r.in.Close()
		r.cmd.Process.Kill()
		r.cmd.Wait()
		r.cmd = nil
	}
}

// run executes c in the child process; a death of the child inside the code
// under test is an outcome too.
func (r *runner) run(c *harness.Case, verbose, freshProc bool) (*harness.Outcome, error) {
	o, err := r.request(execReq{Case: c, Verbose: verbose}, freshProc || len(c.Before) > 0)
	if len(c.Before) > 0 {
		r.stop()
	}
	if err != nil {
		return nil, err
	}
	return o.Outcome, nil
}

func (r *runner) request(q execReq, freshProc bool) (*execResp, error) {
	if freshProc || r.n > 3000 {
		r.stop()
	}
	if r.cmd == nil {
		if err := r.start(); err != nil {
			return nil, err
		}
	}
	r.n++
	b, _ := json.Marshal(q)
	if _, err := r.in.Write(append(b, '\n')); err != nil {
		return nil, err
	}
	type res struct {
		line []byte
		err  error
	}
	ch := make(chan res, 1)
	go func() {
		l, err := r.out.ReadBytes('\n')
		ch <- res{l, err}
	}()
	select {
	case x := <-ch:
		if x.err != nil {
			r.cmd.Wait()
			msg := r.err.String()
			r.cmd = nil
			if v := crashViolation(msg); v != nil {
				return &execResp{Outcome: &harness.Outcome{Viol: v}}, nil
			}
			return nil, fmt.Errorf("simulation process died: %s", head(msg, 2000))
		}
		var o execResp
		if err := json.Unmarshal(x.line, &o); err != nil {
			return nil, err
		}
		return &o, nil
	case <-time.After(120 * time.Second):
		r.stop()
		return nil, fmt.Errorf("simulation process did not answer within 120 s")
	}
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

var rePanic = regexp.MustCompile(`(?m)^(panic: |fatal error: |runtime: goroutine stack exceeds)(.*)$`)

// crashViolation recognises a process death caused by the code under test: a
// panic or fatal error whose dying goroutine has frames of the repository.
func crashViolation(stderr string) *harness.Violation {
	loc := rePanic.FindStringIndex(stderr)
	if loc == nil {
		return nil
	}
	rest := stderr[loc[0]:]
	first := strings.SplitN(rest, "\n", 2)[0]
	gs := strings.Split(rest, "\n\ngoroutine ")
	dying := ""
	for _, g := range gs[1:] {
		if strings.Contains(strings.SplitN(g, "\n", 2)[0], "[running") {
			dying = g
			break
		}
	}
	if dying == "" && len(gs) > 1 {
		dying = gs[1]
	}
	if !strings.Contains(dying, "/repo/") || strings.Contains(first, "sim:") {
		return nil
	}
	return &harness.Violation{Class: "crash", Msg: "the process dies: " + first + "\n" + head(dying, 1500)}
}

// ---- known findings ----

type known struct {
	Property string `json:"property"`
	Status   string `json:"status"` // known | fixed
	Class    string `json:"class"`
	Match    string `json:"match"` // regexp on the violation message
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
	re       *regexp.Regexp
}

func loadKnown() ([]*known, error) {
	b, err := os.ReadFile(filepath.Join(verifDir(), "known-findings.jsonl"))
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	var ks []*known
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if l == "" || strings.HasPrefix(l, "#") {
			continue
		}
		if strings.HasPrefix(l, "fixed:") {
			continue
		}
		k := &known{}
		if err := json.Unmarshal([]byte(l), k); err != nil {
			return nil, fmt.Errorf("known-findings.jsonl: %v", err)
		}
		if k.Status == "known" {
			k.re, err = regexp.Compile(k.Match)
			if err != nil {
				return nil, err
			}
			ks = append(ks, k)
		}
	}
	return ks, nil
}

func matchKnown(ks []*known, prop string, v *harness.Violation) *known {
	for _, k := range ks {
		if k.Property == prop && k.Class == v.Class && k.re.MatchString(v.Msg) {
			return k
		}
	}
	return nil
}

// ---- check ----

type candidate struct {
	c *harness.Case
	v *harness.Violation
	// the process that met it executed the seeds first, first+stride, ...
	first, stride uint64
}

// before are the up to n seeds executed last before the candidate's.
func (cd *candidate) before(n int) []uint64 {
	if cd.stride == 0 || cd.c.Seed < cd.first {
		return nil
	}
	var s []uint64
	for x := cd.c.Seed; x >= cd.first+cd.stride && len(s) < n; {
		x -= cd.stride
		s = append(s, x)
	}
	slices.Reverse(s)
	return s
}

func envInt(k string, def int64) int64 {
	if v, err := strconv.ParseInt(os.Getenv(k), 10, 64); err == nil {
		return v
	}
	return def
}

func check(id, tier string) int {
	t0 := time.Now()
	p := props.Get(id)
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		return 2
	}
	thorough := tier == "thorough"
	seed := envInt("VERIF_SEED", 1)
	budget := envInt("VERIF_BUDGET_S", 55)
	if thorough {
		budget = envInt("VERIF_BUDGET_S", 600)
	}
	workers := int(envInt("VERIF_WORKERS", int64(min(8, runtime.NumCPU()))))
	maxRuns := uint64(envInt("VERIF_MAXRUNS", 1<<40))
	ks, err := loadKnown()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	base := uint64(seed) * 1_000_000_007
	tmp, err := os.MkdirTemp("", "vsim")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)

	deadline := time.Now().Add(time.Duration(budget) * time.Second)
	type ev struct {
		w   int
		m   *wmsg
		end bool
		err string
	}
	evs := make(chan ev, 64)
	var procs []*exec.Cmd
	var pmu sync.Mutex
	var stopping bool
	runWorker := func(w int) {
		start, died := uint64(w), uint64(0)
		for {
			pf := filepath.Join(tmp, fmt.Sprintf("p%d", w))
			th := "0"
			if thorough {
				th = "1"
			}
			cmd := exec.Command(self(), "worker", id, fmt.Sprint(base), fmt.Sprint(start), fmt.Sprint(workers), fmt.Sprint(maxRuns),
				fmt.Sprint(deadline.UnixMilli()), th, pf)
			cmd.Env = childEnv()
			errb := &tail{}
			cmd.Stderr = errb
			so, err := cmd.StdoutPipe()
			if err == nil {
				err = cmd.Start()
			}
			if err != nil {
				evs <- ev{w: w, end: true, err: err.Error()}
				return
			}
			pmu.Lock()
			procs = append(procs, cmd)
			pmu.Unlock()
			dead := make(chan struct{})
			go func() { // watchdog: one run must not take for ever
				var lastSeen uint64
				lastChange := time.Now()
				for {
					select {
					case <-dead:
						return
					case <-time.After(time.Second):
					}
					b, _ := os.ReadFile(pf)
					if len(b) == 8 {
						if x := binary.LittleEndian.Uint64(b); x != lastSeen {
							lastSeen, lastChange = x, time.Now()
						}
					}
					if time.Since(lastChange) > 90*time.Second {
						cmd.Process.Kill()
						return
					}
				}
			}()
			rd := bufio.NewReaderSize(so, 1<<20)
			ended, more := false, false
			for {
				l, err := rd.ReadBytes('\n')
				if err != nil {
					break
				}
				m := &wmsg{}
				if json.Unmarshal(l, m) != nil {
					continue
				}
				switch m.T {
				case "end":
					ended = true
				case "more":
					more, start = true, m.Next
					continue
				}
				evs <- ev{w: w, m: m}
			}
			cmd.Wait()
			close(dead)
			pmu.Lock()
			st := stopping
			pmu.Unlock()
			if ended || st {
				evs <- ev{w: w, end: true}
				return
			}
			if more {
				continue
			}
			// the process died: which run was it?
			b, _ := os.ReadFile(pf)
			if len(b) != 8 {
				evs <- ev{w: w, end: true, err: "worker died: " + head(errb.String(), 3000)}
				return
			}
			i := binary.LittleEndian.Uint64(b)
			msg := errb.String()
			v := crashViolation(msg)
			if v == nil && died != i+1 {
				// not a failure of the code under test, unless it repeats
				died, start = i+1, i
				if f, err := os.OpenFile(filepath.Join(verifDir(), ".build", "deaths.log"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644); err == nil {
					fmt.Fprintf(f, "%s %s seed %d, %v: %s\n\n", time.Now().Format(time.TimeOnly), id, base+i, cmd.ProcessState, head(msg, 20000))
					f.Close()
				}
				continue
			}
			if v == nil {
				evs <- ev{w: w, end: true, err: fmt.Sprintf("worker died at seed %d: %s", base+i, head(msg, 3000))}
				return
			}
			evs <- ev{w: w, m: &wmsg{T: "crash", Next: base + i, Viol: v, First: base + start, Stride: uint64(workers)}}
			start = i + uint64(workers)
			if time.Now().After(deadline) {
				evs <- ev{w: w, end: true}
				return
			}
		}
	}
	for w := 0; w < workers; w++ {
		go runWorker(w)
	}
	tot := &wmsg{Fired: map[string]int{}, Probes: map[string]int{}, Ops: map[string]int{}}
	distinct := map[uint64]struct{}{}
	inter := map[uint64]struct{}{}
	cov := map[int]bool{}
	var cands []candidate
	var errs []string
	knownHit := map[*known]int{}
	left := workers
	crashes := 0
	kill := func() {
		pmu.Lock()
		stopping = true
		for _, c := range procs {
			c.Process.Kill()
		}
		pmu.Unlock()
	}
	var firstViol time.Time
	tick := time.NewTicker(200 * time.Millisecond)
	for left > 0 {
		var e ev
		select {
		case e = <-evs:
		case <-tick.C:
			// a little time to collect alternatives to the first violation
			if len(cands) > 0 && time.Since(firstViol) > 1500*time.Millisecond {
				kill()
			}
			continue
		}
		if e.end {
			left--
			if e.err != "" {
				errs = append(errs, e.err)
			}
			continue
		}
		m := e.m
		switch m.T {
		case "stats":
			tot.Runs += m.Runs
			tot.Steps += m.Steps
			tot.Points += m.Points
			tot.Sw += m.Sw
			tot.Now += m.Now
			tot.Checks += m.Checks
			merge(tot.Fired, m.Fired)
			merge(tot.Probes, m.Probes)
			merge(tot.Ops, m.Ops)
			if len(distinct) < 8_000_000 {
				for _, h := range m.Hashes {
					distinct[h] = struct{}{}
				}
				for _, h := range m.Inter {
					inter[h] = struct{}{}
				}
			}
			for _, c := range m.Cov {
				cov[c] = true
			}
		case "viol", "crash":
			if m.T == "crash" {
				crashes++
				c, err := buildIn(id, m.Next, thorough)
				if err != nil {
					// building dies too (the dry run); keep the seed alone
					errs = append(errs, err.Error())
					break
				}
				m.Case = c
			}
			if k := matchKnown(ks, id, m.Viol); k != nil {
				knownHit[k]++
				break
			}
			if len(cands) == 0 {
				firstViol = time.Now()
			}
			cands = append(cands, candidate{m.Case, m.Viol, m.First, m.Stride})
		}
	}
	explored := time.Since(t0)
	rc := 0
	unrepro := 0
	for _, k := range ks {
		if k.Property == id {
			fmt.Printf("KNOWN-FINDING: property=%s %s (seen %d times in this run)\n", id, k.What, knownHit[k])
		}
	}
	// confirm and minimise, simplest-looking first
	sort.SliceStable(cands, func(i, j int) bool { return size(cands[i].c) < size(cands[j].c) })
	var tried = map[string]int{}
	for _, cd := range cands {
		if rc == 1 || time.Since(t0) > 700*time.Second && !thorough {
			break
		}
		if tried[cd.v.Class] >= 4 {
			continue
		}
		tried[cd.v.Class]++
		path, v, ok, err := minimise(p, cd, seed, tier)
		if err != nil {
			errs = append(errs, err.Error())
			continue
		}
		if !ok {
			unrepro++
			fmt.Fprintf(os.Stderr, "not reproduced in a fresh process (not reported): %s: %s\n", cd.v.Class, head(cd.v.Msg, 500))
			continue
		}
		if k := matchKnown(ks, id, v); k != nil {
			continue
		}
		rc = 1
		fmt.Printf("%s\n", head(v.Class+": "+v.Msg, 2000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
	}
	writeEvidence(p, tier, seed, tot, distinct, inter, cov, rc, explored, t0, unrepro, workers)
	if rc == 0 && (len(errs) > 0 || unrepro > 0) {
		for _, s := range errs {
			fmt.Fprintln(os.Stderr, "error:", s)
		}
		if len(errs) > 0 || unrepro > 0 {
			return 2
		}
	}
	if rc == 0 {
		fmt.Printf("OK property=%s runs=%d distinct=%d interleavings=%d faults=%d in %.0fs\n", id, tot.Runs, len(distinct), len(inter), sum(tot.Fired), time.Since(t0).Seconds())
	}
	return rc
}

func sum(m map[string]int) int {
	n := 0
	for _, v := range m {
		n += v
	}
	return n
}

func size(c *harness.Case) int {
	if c == nil {
		return 1 << 30
	}
	return len(c.Ops)*4 + len(c.Faults)*8 + int(c.Sched.GapMean%7)
}

// buildIn builds the case of a seed in a subprocess-free way: generation runs
// the code under test for the dry run, so a crash there must not kill us.
func buildIn(id string, seed uint64, thorough bool) (*harness.Case, error) {
	th := "0"
	if thorough {
		th = "1"
	}
	cmd := exec.Command(self(), "show", id, fmt.Sprint(seed), "build", th)
	cmd.Env = childEnv()
	var eb bytes.Buffer
	cmd.Stderr = &eb
	b, err := cmd.Output()
	i := bytes.LastIndex(b, []byte("CASE ")) // the first is without faults, for when the dry run dies
	if i < 0 {
		return nil, fmt.Errorf("cannot rebuild case for seed %d: %v %s", seed, err, head(eb.String(), 500))
	}
	b = b[i+5:]
	if j := bytes.IndexByte(b, '\n'); j >= 0 {
		b = b[:j]
	}
	c := &harness.Case{}
	return c, json.Unmarshal(b, c)
}

func writeEvidence(p *harness.Prop, tier string, seed int64, tot *wmsg, distinct, inter map[uint64]struct{}, cov map[int]bool, rc int, explored time.Duration, t0 time.Time, unrepro, workers int) {
	var samples []any
	for i := 0; i < 3; i++ {
		if c, err := buildIn(p.ID, uint64(seed)*1_000_000_007+uint64(i), tier == "thorough"); err == nil {
			if len(c.Ops) > 40 {
				c.Ops = c.Ops[:40]
			}
			samples = append(samples, c)
		}
	}
	covFiles := map[string]int{}
	if f := os.Getenv("VERIF_COV"); f != "" { // the sites passed, for development
		var ks []int
		for k := range cov {
			ks = append(ks, k)
		}
		b, _ := json.Marshal(ks)
		os.WriteFile(f, b, 0o644)
	}
	if b, err := os.ReadFile(filepath.Join(filepath.Dir(self()), "ov", "sites.txt")); err == nil {
		for i, l := range strings.Split(string(b), "\n") {
			if cov[i] {
				covFiles[strings.SplitN(l, ":", 2)[0]]++
			}
		}
	}
	h := explored.Hours()
	evd := map[string]any{
		"property": p.ID, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": map[string]any{
			"evaluations":                tot.Runs,
			"distinct_nontrivial":        len(distinct),
			"rule":                       p.Rule + " Distinct: different (goroutine interleaving hash, observable history hash) pairs; a run counts only if its oracle compared at least once.",
			"samples":                    samples,
			"simulated_runs":             tot.Runs,
			"seeds_per_hour":             int(float64(tot.Runs) / h),
			"simulated_time_s":           float64(tot.Now) / 1e9,
			"scheduling_steps":           tot.Steps,
			"forced_preemptions":         tot.Sw,
			"statements_passed":          tot.Points,
			"distinct_interleavings":     len(inter),
			"oracle_comparisons":         tot.Checks,
			"faults_fired":               tot.Fired,
			"probes":                     tot.Probes,
			"simulated_operations":       tot.Ops,
			"statements_covered_by_file": covFiles,
			"components_real":            p.Real,
			"components_simulated":       p.Stub,
			"workers":                    workers,
			"unreproduced_candidates":    unrepro,
		},
		"assumptions": append([]string{"one processor: goroutines interleave at every statement of go-unixfs and at every channel, select and blocking operation elsewhere, not inside a statement",
			"sampled, not enumerated"}, p.Assume...),
		"wall_s":     time.Since(t0).Seconds(),
		"violations": rc,
	}
	b, _ := json.MarshalIndent(evd, "", " ")
	os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0o755)
	os.WriteFile(filepath.Join(verifDir(), "evidence", p.ID+".json"), append(b, '\n'), 0o644)
}

// ---- replay files ----

type replayFile struct {
	Property string        `json:"property"`
	Class    string        `json:"class"`
	Message  string        `json:"message"`
	Tier     string        `json:"tier"`
	BaseSeed int64         `json:"verif_seed"`
	How      string        `json:"how_to_replay"`
	Case     *harness.Case `json:"case"`
	Trace    []string      `json:"trace"`
}

func replay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var r runner
	defer r.stop()
	o, err := r.run(rf.Case, true, true)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for _, l := range o.Trace {
		fmt.Println(l)
	}
	if o.Viol == nil {
		fmt.Println("no violation on this tree")
		return 0
	}
	fmt.Printf("%s: %s\n", o.Viol.Class, o.Viol.Msg)
	fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, path)
	return 1
}

func show(id, seed string) {
	s, _ := strconv.ParseUint(seed, 10, 64)
	simProcess()
	p := props.Get(id)
	th := len(os.Args) > 5 && os.Args[5] == "1"
	if len(os.Args) > 4 && os.Args[4] == "build" {
		harness.OnBuilt = func(c *harness.Case) {
			fmt.Printf("CASE %s\n", harness.JSON(c))
		}
		c, _ := harness.Build(p, s, th)
		fmt.Printf("CASE %s\n", harness.JSON(c))
		return
	}
	c, _ := harness.Build(p, s, th)
	o := execute(p, c, true)
	fmt.Println(harness.JSON(c))
	for _, l := range o.Trace {
		fmt.Println(l)
	}
	o.Trace, o.Picks, o.Yields = nil, nil, nil
	fmt.Println(harness.JSON(o))
	if o.Viol != nil {
		fmt.Println(o.Viol.Class, o.Viol.Msg)
	}
}

// selftest: the same seeds executed in differently shaped processes must give
// identical interleaving, history and step counts.
func selftest(n int) int {
	bad := 0
	for _, p := range props.All {
		if p.Race != raceEnabled {
			continue
		}
		digest := func(start, stride int) map[uint64]string {
			res := map[uint64]string{}
			var mu sync.Mutex
			var wg sync.WaitGroup
			for w := 0; w < stride; w++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					cmd := exec.Command(self(), "digest", p.ID, fmt.Sprint(start+w), fmt.Sprint(stride), fmt.Sprint(n))
					cmd.Env = childEnv()
					b, _ := cmd.Output()
					mu.Lock()
					defer mu.Unlock()
					for _, l := range strings.Split(string(b), "\n") {
						f := strings.SplitN(l, " ", 2)
						if len(f) == 2 {
							x, _ := strconv.ParseUint(f[0], 10, 64)
							res[x] = f[1]
						}
					}
				}()
			}
			wg.Wait()
			return res
		}
		a, b, c := digest(0, 1), digest(0, 8), digest(0, 5)
		diff := 0
		for k, v := range a {
			if b[k] != v || c[k] != v {
				diff++
				if diff < 4 {
					fmt.Printf("  seed %d: %q %q %q\n", k, v, b[k], c[k])
				}
			}
		}
		fmt.Printf("%s seeds=%d differing=%d\n", p.ID, len(a), diff)
		if diff > 0 || len(a) == 0 {
			bad = 1
		}
	}
	return bad
}

func init() {
	if len(os.Args) > 1 && os.Args[1] == "digest" {
		simProcess()
		p := props.Get(os.Args[2])
		start, _ := strconv.ParseUint(os.Args[3], 10, 64)
		stride, _ := strconv.ParseUint(os.Args[4], 10, 64)
		n, _ := strconv.ParseUint(os.Args[5], 10, 64)
		w := bufio.NewWriter(os.Stdout)
		for i := start; i < n; i += stride {
			c, o := harness.Build(p, 7_000_000+i, false)
			if o == nil {
				o = execute(p, c, false)
			}
			v := ""
			if o.Viol != nil {
				v = o.Viol.Class
			}
			fmt.Fprintf(w, "%d %x %x %d %d %d %s %s\n", i, o.Hash, o.LogHash, o.Steps, o.Points, o.Now, harness.JSON(o.Fired), v)
			maybeGC()
		}
		w.Flush()
		os.Exit(0)
	}
}
