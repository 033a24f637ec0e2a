// Package harness turns a Case (an explicit, serialisable description of one
// simulated execution) into an Outcome, deterministically.
package harness

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"math/bits"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"

	"verifsim/simrt"
	"verifsim/world"
)

// Op is one step of a workload.
type Op struct {
	K string `json:"k"`
	A int64  `json:"a,omitempty"`
	B int64  `json:"b,omitempty"`
	C int64  `json:"c,omitempty"`
	S string `json:"s,omitempty"`
}

func (o Op) String() string {
	s := o.K
	if o.S != "" {
		s += " " + o.S
	}
	return fmt.Sprintf("%s(%d,%d,%d)", s, o.A, o.B, o.C)
}

// Case is one execution: workload, world, faults and schedule.
type Case struct {
	Prop   string           `json:"prop"`
	Seed   uint64           `json:"seed"`
	P      map[string]int64 `json:"p"`
	Ops    []Op             `json:"ops,omitempty"`
	World  world.Cfg        `json:"world"`
	Faults []world.Fault    `json:"faults,omitempty"`
	Sched  simrt.Sched      `json:"sched"`
	// Before are executions made first in the same process: for a violation
	// that depends on package-level state they leave behind.
	Before []*Case `json:"before,omitempty"`
}

// Clone deep-copies a case.
func (c *Case) Clone() *Case {
	n := *c
	n.P = map[string]int64{}
	for k, v := range c.P {
		n.P[k] = v
	}
	n.Ops = append([]Op(nil), c.Ops...)
	n.Faults = append([]world.Fault(nil), c.Faults...)
	n.Sched.Picks = append([]uint16(nil), c.Sched.Picks...)
	n.Sched.Yields = append([]uint64(nil), c.Sched.Yields...)
	n.Before = nil
	for _, b := range c.Before {
		n.Before = append(n.Before, b.Clone())
	}
	return &n
}

// Violation is a broken property.
type Violation struct {
	Class string `json:"class"`
	Msg   string `json:"msg"`
}

// Outcome of one execution.
type Outcome struct {
	Viol     *Violation     `json:"viol,omitempty"`
	Hash     uint64         `json:"hash"`    // interleaving
	LogHash  uint64         `json:"loghash"` // observable history
	Steps    uint64         `json:"steps"`
	Points   uint64         `json:"points"`
	Switches uint64         `json:"switches"`
	Gs       uint32         `json:"gs"`
	Now      int64          `json:"now"`
	Fired    map[string]int `json:"fired,omitempty"`
	Probes   map[string]int `json:"probes,omitempty"`
	Checks   int            `json:"checks"`
	Ops      map[string]int `json:"ops,omitempty"`
	Counts   map[string]int `json:"counts,omitempty"`
	Trace    []string       `json:"trace,omitempty"`
	Picks    []uint16       `json:"picks,omitempty"`
	Yields   []uint64       `json:"yields,omitempty"`
	Trunc    bool           `json:"trunc,omitempty"`
}

// Prop is one property: a case generator and an executor with its oracle.
type Prop struct {
	ID    string
	Title string
	Rule  string // how cases are made and what makes one non-trivial
	// Gen makes a case from the stream. Faults that depend on operation counts
	// are placed afterwards by Place, given the counts of a fault-free run.
	Gen   func(r *Rand, thorough bool) *Case
	Place func(r *Rand, c *Case, counts map[string]int)
	Exec  func(e *Env)
	// Leak: goroutines left after everything is quiescent are a violation.
	Leak      bool
	MaxSteps  uint64
	MaxPoints uint64
	// Shrink lists parameters to minimise and their smallest value.
	Shrink map[string]int64
	Race   bool // run the race-detector build
	Real   []string
	Stub   []string
	Assume []string
}

// Env is what an executing property sees.
type Env struct {
	S       *simrt.Sim
	W       *world.World
	C       *Case
	Ctx     context.Context
	probes  map[string]int
	trace   []string
	verbose bool
	lh      uint64
	viol    *Violation
	checks  int
	parent  *Env
}

// With is e with some parameters replaced.
func (e *Env) With(set map[string]int64) *Env {
	e2 := *e
	e2.parent = e
	e2.C = e.C.Clone()
	for k, v := range set {
		e2.C.P[k] = v
	}
	return &e2
}

type failed struct{}

// P returns a parameter.
func (e *Env) P(k string) int64 { return e.C.P[k] }

// Probe counts a rare condition.
func (e *Env) Probe(k string) { e.probes[k]++ }

// Check counts one oracle evaluation.
func (e *Env) Check() {
	if e.parent != nil {
		e.parent.Check()
		return
	}
	e.checks++
}

// Logf records an observable event.
func (e *Env) Logf(format string, a ...any) {
	if e.parent != nil {
		e.parent.Logf(format, a...)
		return
	}
	s := fmt.Sprintf(format, a...)
	for i := 0; i < len(s); i++ {
		e.lh = (e.lh ^ uint64(s[i])) * 0x100000001b3
	}
	if e.verbose && len(e.trace) < 2000 {
		if len(s) > 400 {
			s = s[:400] + "..."
		}
		e.trace = append(e.trace, fmt.Sprintf("[t=%dus step=%d g%d] %s", e.S.Now()/1000, e.S.Steps(), simrt.Self(), s))
	}
}

// Failf reports a violation and ends the run (root goroutine only).
func (e *Env) Failf(class, format string, a ...any) {
	e.Note(class, format, a...)
	panic(failed{})
}

// Note reports a violation without ending the run.
func (e *Env) Note(class, format string, a ...any) {
	if e.parent != nil {
		e.parent.Note(class, format, a...)
		return
	}
	if e.viol == nil {
		e.viol = &Violation{class, fmt.Sprintf(format, a...)}
		e.Logf("VIOLATION %s: %s", class, e.viol.Msg)
	}
}

// Failed reports whether a violation was noted.
func (e *Env) Failed() bool { return e.viol != nil }

// Reset is called before every execution to restore package-level knobs.
var Reset = func() {}

// RaceCheck, in a build with the race detector, returns a race reported since
// the last call, if any.
var RaceCheck func() string

// Exec runs one case.
func Exec(p *Prop, c *Case, verbose bool) *Outcome {
	Reset()
	e := &Env{C: c, probes: map[string]int{}, verbose: verbose, lh: 0xcbf29ce484222325}
	sc := c.Sched
	sc.MaxSteps, sc.MaxPoints = p.MaxSteps, p.MaxPoints
	if sc.MaxSteps == 0 {
		sc.MaxSteps = 300_000
	}
	if sc.MaxPoints == 0 {
		sc.MaxPoints = 20_000_000
	}
	if c.P["big"] != 0 { // megabytes, filled in byte by byte
		sc.MaxSteps, sc.MaxPoints = 10*sc.MaxSteps, 20*sc.MaxPoints
	}
	res := simrt.Run(sc, func(s *simrt.Sim) {
		e.S = s
		e.W = world.New(s, c.World, c.Faults)
		e.Ctx = context.Background()
		defer func() {
			if x := recover(); x != nil {
				if _, ok := x.(failed); !ok {
					st := trimStack(debug.Stack())
					e.Note("panic", "panic: %v\n%s", x, st)
				}
			}
		}()
		p.Exec(e)
	})
	switch {
	case e.viol != nil:
	case res.Status == simrt.Deadlock:
		e.viol = &Violation{"deadlock", "the workload is blocked for ever: nothing is runnable and no event is pending\n" + blocked()}
	case res.Status == simrt.OverSteps:
		e.viol = &Violation{"no-progress", fmt.Sprintf("no completion within %d scheduling steps\n%s", sc.MaxSteps, blocked())}
	case res.Status == simrt.OverPoints:
		e.viol = &Violation{"no-progress", fmt.Sprintf("no completion within %d executed statements\n%s", sc.MaxPoints, blocked())}
	case res.Leaked > 0 && p.Leak:
		// With the real merkledag in between, goroutines of its own may stay
		// behind (its GetMany can block for ever on reporting a cancellation).
		// Those are not ours; with the bare DAG service there are none.
		if b := blocked(); b != "" || c.World.Mode != 0 {
			e.viol = &Violation{"goroutine-leak", fmt.Sprintf("%d goroutines are still alive after everything finished or was cancelled\n%s", res.Leaked, b)}
		}
	}
	if p.Race { // whatever else goes wrong is for the other properties to say
		e.viol = nil
	}
	if RaceCheck != nil {
		if v := RaceCheck(); v != "" && p.Race {
			e.viol = &Violation{"data-race", v}
		}
	}
	if res.Leaked > 0 {
		e.probes["leaked-goroutines"]++
	}
	o := &Outcome{Viol: e.viol, Hash: res.Hash, LogHash: e.lh, Steps: res.Steps, Points: res.Points, Switches: res.NYield,
		Gs: res.Gs, Now: res.Now, Probes: e.probes, Checks: e.checks, Trace: e.trace,
		Picks: res.Picks, Yields: res.Yields, Trunc: res.Trunc}
	if e.W != nil {
		o.Fired, o.Ops, o.Counts = e.W.Fired, e.W.Ops, e.W.ArmedCounts()
	}
	return o
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	var out []string
	for i := 0; i+1 < len(lines); i++ {
		if strings.HasPrefix(lines[i+1], "\t") {
			if strings.Contains(lines[i+1], "/runtime/") || strings.Contains(lines[i+1], "harness.go") {
				i++
				continue
			}
			loc := strings.TrimSpace(lines[i+1])
			if j := strings.Index(loc, " +0x"); j > 0 {
				loc = loc[:j]
			}
			f := lines[i]
			if j := strings.LastIndex(f, "("); j > 0 {
				f = f[:j]
			}
			out = append(out, "  "+f+" "+loc)
			i++
			if len(out) >= 12 {
				break
			}
		}
	}
	return strings.Join(out, "\n")
}

// blocked describes the goroutines inside the code under test.
func blocked() string {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	var out []string
	for _, g := range bytes.Split(buf, []byte("\n\n")) {
		if !bytes.Contains(g, []byte("go-unixfs")) && !bytes.Contains(g, []byte("/repo/")) {
			continue
		}
		lines := strings.SplitN(string(g), "\n", 2)
		s := trimStack(g)
		hd := lines[0]
		if i := strings.Index(hd, "["); i > 0 {
			hd = hd[i:]
		}
		out = append(out, hd+"\n"+s)
		if len(out) >= 6 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// OnBuilt, if set, sees a generated case before its dry run.
var OnBuilt func(c *Case)

// OnDry, if set, sees a case after its dry run, before faults are placed.
var OnDry func(c *Case)

// Build makes the case for a seed: generate, dry-run to learn how many
// operations there are, then place the faults among them.
func Build(p *Prop, seed uint64, thorough bool) (*Case, *Outcome) {
	r := NewRand(seed ^ hstr(p.ID))
	c := p.Gen(r, thorough)
	c.Prop, c.Seed = p.ID, seed
	if OnBuilt != nil {
		OnBuilt(c)
	}
	if p.Place == nil {
		return c, nil
	}
	dry := Exec(p, c, false)
	if dry.Viol != nil {
		return c, dry
	}
	if OnDry != nil {
		OnDry(c.Clone())
	}
	p.Place(r, c, dry.Counts)
	if len(c.Faults) == 0 {
		return c, dry
	}
	return c, nil
}

func hstr(s string) uint64 {
	h := uint64(0xcbf29ce484222325)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 0x100000001b3
	}
	return h
}

// Rand is a small deterministic stream.
type Rand struct{ s uint64 }

// NewRand seeds a stream.
func NewRand(seed uint64) *Rand { r := &Rand{seed}; r.U(); return r }

// U returns 64 random bits.
func (r *Rand) U() uint64 {
	r.s += 0x9e3779b97f4a7c15
	x := r.s
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// N is uniform in [0,n).
func (r *Rand) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U() % uint64(n))
}

// N64 is uniform in [0,n).
func (r *Rand) N64(n int64) int64 {
	if n <= 1 {
		return 0
	}
	return int64(r.U() % uint64(n))
}

// In is uniform in [a,b].
func (r *Rand) In(a, b int) int { return a + r.N(b-a+1) }

// P is true with probability pct percent.
func (r *Rand) P(pct int) bool { return r.N(100) < pct }

// Pick chooses one of its arguments.
func (r *Rand) Pick(v ...int64) int64 { return v[r.N(len(v))] }

// PickS chooses one string.
func (r *Rand) PickS(v ...string) string { return v[r.N(len(v))] }

// Small prefers small values in [0,n).
func (r *Rand) Small(n int) int {
	if n <= 1 {
		return 0
	}
	k := r.N(bits.Len(uint(n))) + 1
	v := r.N(1 << k)
	if v >= n {
		v = r.N(n)
	}
	return v
}

// Sched draws a schedule configuration.
func (r *Rand) Sched() simrt.Sched {
	return simrt.Sched{
		Seed:      r.U(),
		Policy:    uint32(r.N(5)),
		GapMean:   uint32(r.Pick(0, 3, 10, 30, 100, 100, 400, 2000)),
		WorldProb: uint32(r.Pick(0, 500, 5000, 20000)),
		ChgProb:   uint32(r.Pick(200, 2000, 8000)),
	}
}

// World draws a world configuration.
func (r *Rand) World() world.Cfg {
	return world.Cfg{Mode: r.N(2), Lat: int(r.Pick(0, 1, 2, 3, 0, 1, 2, 3, world.LatSlow)), Remote: int(r.Pick(0, 0, 30, 70, 100)), LatKey: r.U() >> 16}
}

// JSON renders v compactly.
func JSON(v any) string { b, _ := json.Marshal(v); return string(b) }

// SortedKeys of a string map.
func SortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// Par runs the functions as simulated goroutines and waits for all of them. A
// Failf in one of them ends that one and then, once all are done, the run.
func (e *Env) Par(fs ...func()) {
	done := make(chan struct{})
	left := len(fs)
	if left == 0 {
		return
	}
	bad := false
	var wg sync.WaitGroup // orders everything they did before what follows
	wg.Add(left)
	for _, f := range fs {
		f := f
		go func() {
			defer wg.Done()
			defer func() {
				if x := recover(); x != nil {
					bad = true
					if _, ok := x.(failed); !ok {
						e.Note("panic", "panic: %v\n%s", x, trimStack(debug.Stack()))
					}
				}
				left--
				if left == 0 {
					close(done)
				}
			}()
			f()
		}()
	}
	<-done
	wg.Wait()
	if bad {
		panic(failed{})
	}
}
