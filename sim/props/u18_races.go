package props

import (
	"verifsim/harness"
)

// shared are the workloads in which several clients, or the library's own
// goroutines, work at the same time on what they share.
var shared = []struct {
	id string
	ok func(r *harness.Rand, c *harness.Case) // makes it concurrent
}{
	{"U12", func(r *harness.Rand, c *harness.Case) { twice(c) }},
	{"U13", func(r *harness.Rand, c *harness.Case) {}},
	{"U07", func(r *harness.Rand, c *harness.Case) { c.P["readers"] = int64(r.In(2, 3)) }},
	{"U14", func(r *harness.Rand, c *harness.Case) { c.P["par"] = int64(r.In(2, 4)) }},
	{"U15", func(r *harness.Rand, c *harness.Case) { twice(c) }},
	{"U17", func(r *harness.Rand, c *harness.Case) { c.P["par"] = int64(r.In(2, 3)) }},
	{"U19", func(r *harness.Rand, c *harness.Case) { c.P["par"] = int64(r.In(1, 3)) }},
	{"U03", func(r *harness.Rand, c *harness.Case) { c.P["par"] = int64(r.In(2, 3)) }},
	{"U05", func(r *harness.Rand, c *harness.Case) {}},
	{"U11", func(r *harness.Rand, c *harness.Case) {}},
}

func twice(c *harness.Case) {
	if len(c.Ops) == 1 {
		c.Ops = append(c.Ops, c.Ops[0])
	}
	for i := range c.Ops { // loads shards into the directory: for one client at a time
		if c.Ops[i].K == "foreach" {
			c.Ops[i].K = "async"
		}
	}
}

var _ = register(&harness.Prop{
	ID: "U18", Title: "Concurrent use that shares nothing but nodes and a store is free of data races",
	Rule: "The workloads of U03, U05, U07, U11-U15, U17 and U19, with at least two clients where they have clients, in a build with the race detector, whose happens-before analysis is applied to the simulated, seeded interleavings: " +
		"two accesses to the same memory by go-unixfs (or by a dependency on its behalf) that no synchronisation orders, at least one of them a write, are a violation. Only races are judged here.",
	Race: true,
	Gen: func(r *harness.Rand, thorough bool) *harness.Case {
		k := r.N(len(shared))
		c := Get(shared[k].id).Gen(r, thorough)
		shared[k].ok(r, c)
		c.P["which"] = int64(k)
		return c
	},
	Exec:   func(e *harness.Env) { Get(shared[e.P("which")].id).Exec(e) },
	Shrink: map[string]int64{"len": 0, "n": 0, "names": 0, "nseed": 0, "cid": 0, "kind": 0, "raw": 0, "pre": 0, "extra": 0, "touch": 0},
	Real:   append([]string{"Go race detector (ThreadSanitizer runtime)"}, realAll...), Stub: stubAll,
	Place: func(r *harness.Rand, c *harness.Case, counts map[string]int) {
		if p := Get(shared[c.P["which"]].id); p.Place != nil && r.P(60) {
			p.Place(r, c, counts)
		}
	},
})
