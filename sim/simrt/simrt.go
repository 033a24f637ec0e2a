// Package simrt runs a function and every goroutine it creates, directly or
// not, under a seeded deterministic scheduler with virtual time. The scheduler
// itself lives in package runtime (see rt_src/zsim.go.txt).
package simrt

import (
	"container/heap"
	_ "unsafe"
)

type config struct {
	Seed, Seed2         uint64
	Policy              uint32
	GapMean             uint32
	WorldProb           uint32
	ChgProb             uint32
	MaxSteps, MaxPoints uint64
	Replay              bool
	Picks               *uint16
	NPicks, CPicks      int
	Yields              *uint64
	NYields, CYields    int
}

type result struct {
	Status  int32
	Steps   uint64
	Points  uint64
	NYield  uint64
	Hash    uint64
	Live    int64
	NPicks  int
	IPick   int
	NYields int
	Gs      uint32
}

func point()
func setup(*config)
func spawn(func())
func wait(*result)
func idle(pending int64)
func setPending(pending int64)
func stop(status int32)
func counters() (steps, points uint64, live int64, hash uint64)

// Yield gives up the processor: a scheduling decision.
func Yield()

// Self is the number of the running simulated goroutine (0 outside).
func Self() uint32

// Cov marks which instrumented statements ran.
var Cov [1 << 15]uint8

// P is inserted before every statement of the code under test.
//
//go:norace
func P(site uint32) {
	Cov[site&(1<<15-1)] = 1
	point()
}

// Sched describes how one execution is scheduled.
type Sched struct {
	Seed      uint64 `json:"seed"`
	Policy    uint32 `json:"policy"`
	GapMean   uint32 `json:"gap"`
	WorldProb uint32 `json:"world"`
	ChgProb   uint32 `json:"chg"`
	// Explicit schedule: when Replay, the decisions below are used, and the
	// default (oldest runnable goroutine, no preemption) after them.
	Replay bool     `json:"replay,omitempty"`
	Picks  []uint16 `json:"picks,omitempty"`
	Yields []uint64 `json:"yields,omitempty"`

	MaxSteps  uint64 `json:"-"`
	MaxPoints uint64 `json:"-"`
}

// Outcome statuses.
const (
	OK           = 0
	OverSteps    = 1
	OverPoints   = 2
	Deadlock     = 10
	LeakAfterEnd = 11
)

// Result of one execution.
type Result struct {
	Status int32
	Steps  uint64
	Points uint64
	NYield uint64
	Hash   uint64
	Leaked int64 // simulated goroutines still alive at the end
	Gs     uint32
	Now    int64
	Events int
	Picks  []uint16
	Yields []uint64
	Trunc  bool // decision log overflowed: not replayable explicitly
}

type event struct {
	at  int64
	seq uint64
	f   func()
	hb  *byte // orders After before f for the race detector
}
type evHeap []event

func (h evHeap) Len() int { return len(h) }
func (h evHeap) Less(i, j int) bool {
	return h[i].at < h[j].at || h[i].at == h[j].at && h[i].seq < h[j].seq
}
func (h evHeap) Swap(i, j int) { h[i], h[j] = h[j], h[i] }
func (h *evHeap) Push(x any)   { *h = append(*h, x.(event)) }
func (h *evHeap) Pop() any {
	o := *h
	x := o[len(o)-1]
	o[len(o)-1] = event{}
	*h = o[:len(o)-1]
	return x
}

// Sim is one running simulation.
type Sim struct {
	h        evHeap
	now      int64
	seq      uint64
	rootDone bool
	events   int
}

// After runs f in the world goroutine d virtual nanoseconds from now. f must
// not block.
func (s *Sim) After(d int64, f func()) {
	if d < 0 {
		d = 0
	}
	s.seq++
	hb := newHB()
	release(hb)
	heap.Push(&s.h, event{s.now + d, s.seq, f, hb})
	setPending(int64(len(s.h)))
}

// Now is the virtual time in nanoseconds.
func (s *Sim) Now() int64 { return s.now }

// Steps is the number of scheduling steps so far.
func (s *Sim) Steps() uint64 { st, _, _, _ := counters(); return st }

// Points is the number of preemption points passed so far.
func (s *Sim) Points() uint64 { _, p, _, _ := counters(); return p }

// Live is the number of live simulated goroutines apart from the world.
func (s *Sim) Live() int64 { _, _, l, _ := counters(); return l - 1 }

// Sleep parks the caller for d virtual nanoseconds.
func (s *Sim) Sleep(d int64) {
	c := make(chan struct{})
	s.After(d, func() { close(c) })
	<-c
}

const (
	maxPicks  = 1 << 19
	maxYields = 1 << 17
)

var (
	pickLog  [maxPicks]uint16
	yieldLog [maxYields]uint64
)

// Run executes root under the scheduler. It returns when root has returned
// and everything is quiescent with no event left, on deadlock, or when a
// bound is exceeded. Unless Status is OK and Leaked is 0 the process must not
// start another simulation.
func Run(sc Sched, root func(*Sim)) Result {
	s := &Sim{}
	current = s
	c := config{Seed: sc.Seed, Seed2: sc.Seed ^ 0xabcdef0123456789, Policy: sc.Policy, GapMean: sc.GapMean,
		WorldProb: sc.WorldProb, ChgProb: sc.ChgProb, MaxSteps: sc.MaxSteps, MaxPoints: sc.MaxPoints, Replay: sc.Replay}
	if c.MaxSteps == 0 {
		c.MaxSteps = 2_000_000
	}
	if c.MaxPoints == 0 {
		c.MaxPoints = 50_000_000
	}
	if sc.Replay {
		if len(sc.Picks) > 0 {
			c.Picks = &sc.Picks[0]
		}
		if len(sc.Yields) > 0 {
			c.Yields = &sc.Yields[0]
		}
		c.NPicks, c.NYields = len(sc.Picks), len(sc.Yields)
	} else {
		c.Picks, c.CPicks = &pickLog[0], maxPicks
		c.Yields, c.CYields = &yieldLog[0], maxYields
	}
	setup(&c)
	spawn(func() {
		for {
			idle(int64(len(s.h)))
			if len(s.h) > 0 {
				e := heap.Pop(&s.h).(event)
				if e.at > s.now {
					s.now = e.at
				}
				s.events++
				runEvent(&e)
				continue
			}
			if s.rootDone {
				stop(OK)
			} else {
				stop(Deadlock)
			}
			return
		}
	})
	spawn(func() {
		defer func() { s.rootDone = true }()
		root(s)
	})
	var r result
	wait(&r)
	res := Result{Status: r.Status, Steps: r.Steps, Points: r.Points, NYield: r.NYield, Hash: r.Hash,
		Leaked: r.Live - 1, Gs: r.Gs, Now: s.now, Events: s.events}
	if r.Live < 1 {
		res.Leaked = 0
	}
	if !sc.Replay {
		if r.IPick > maxPicks || r.NYields >= maxYields {
			res.Trunc = true
		}
		res.Picks = pickLog[:r.NPicks]
		res.Yields = yieldLog[:r.NYields]
	}
	return res
}
