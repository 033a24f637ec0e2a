package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"slices"
	"time"

	"verifsim/harness"
)

// minimise reproduces cd in a fresh process, shrinks it while the violation
// class stays the same, confirms the result in another fresh process and
// writes the replay file.
func minimise(p *harness.Prop, cd candidate, seed int64, tier string) (string, *harness.Violation, bool, error) {
	var r runner
	defer r.stop()
	want := cd.v.Class
	limit := time.Now().Add(45 * time.Second)
	var lastErr error
	run := func(c *harness.Case, fresh bool) *harness.Outcome {
		o, err := r.run(c, false, fresh)
		if err != nil {
			lastErr = err
			return nil
		}
		return o
	}
	cur := cd.c.Clone()
	o := run(cur, true)
	if o == nil || o.Viol == nil || o.Viol.Class != want {
		// not by itself: does it depend on what the process executed before?
		if cur = withBefore(&r, p, &cd, tier == "thorough"); cur == nil {
			return "", nil, false, lastErr
		}
		cd.c = cur.Clone()
		limit = time.Now().Add(60 * time.Second)
	}
	test := func(c *harness.Case) bool {
		if time.Now().After(limit) {
			return false
		}
		o := run(c, raceEnabled)
		return o != nil && o.Viol != nil && o.Viol.Class == want
	}
	try := func(mut func(c *harness.Case)) bool {
		n := cur.Clone()
		mut(n)
		if test(n) {
			cur = n
			return true
		}
		return false
	}
	// which of the executions before it are needed
	for k := (len(cur.Before) + 1) / 2; k >= 1; k /= 2 {
		for i := len(cur.Before) - k; i >= 0; i -= k {
			if i+k <= len(cur.Before) {
				try(func(c *harness.Case) { c.Before = append(c.Before[:i:i], c.Before[i+k:]...) })
			}
		}
	}
	for i := range cur.Before {
		try(func(c *harness.Case) { c.Before[i].Faults = nil })
		for k := len(cur.Before[i].Ops) / 2; k >= 1; k /= 2 {
			for j := len(cur.Before[i].Ops) - k; j >= 0; j -= k {
				if j+k <= len(cur.Before[i].Ops) {
					try(func(c *harness.Case) { c.Before[i].Ops = append(c.Before[i].Ops[:j:j], c.Before[i].Ops[j+k:]...) })
				}
			}
		}
		try(func(c *harness.Case) {
			c.Before[i].Sched.Replay, c.Before[i].Sched.Picks, c.Before[i].Sched.Yields = true, nil, nil
		})
	}
	// is the schedule needed at all?
	seqOnly := try(func(c *harness.Case) { c.Sched.Replay, c.Sched.Picks, c.Sched.Yields = true, nil, nil })
	shrink := func() {
		for pass := 0; pass < 4; pass++ {
			changed := false
			// faults
			for i := len(cur.Faults) - 1; i >= 0; i-- {
				if try(func(c *harness.Case) { c.Faults = append(c.Faults[:i:i], c.Faults[i+1:]...) }) {
					changed = true
				}
			}
			// operations, in halving chunks
			for k := len(cur.Ops) / 2; k >= 1; k /= 2 {
				for i := len(cur.Ops) - k; i >= 0; i -= k {
					if i+k > len(cur.Ops) {
						continue
					}
					if try(func(c *harness.Case) { c.Ops = append(c.Ops[:i:i], c.Ops[i+k:]...) }) {
						changed = true
					}
				}
			}
			// parameters
			for _, k := range harness.SortedKeys(p.Shrink) {
				lo := p.Shrink[k]
				for cur.P[k] > lo {
					v := cur.P[k]
					if try(func(c *harness.Case) { c.P[k] = lo }) {
						changed = true
						break
					}
					if try(func(c *harness.Case) { c.P[k] = lo + (v-lo)/2 }) {
						changed = true
						continue
					}
					if try(func(c *harness.Case) { c.P[k] = v - 1 }) {
						changed = true
						continue
					}
					break
				}
			}
			// operation arguments
			for i := range cur.Ops {
				for f := 0; f < 3; f++ {
					get := func(c *harness.Case) *int64 {
						switch f {
						case 0:
							return &c.Ops[i].A
						case 1:
							return &c.Ops[i].B
						}
						return &c.Ops[i].C
					}
					for n := 0; n < 24; n++ {
						v := *get(cur)
						if v == 0 {
							break
						}
						ok := false
						for _, nv := range []int64{0, v / 2, v - sign(v)} {
							if nv != v && try(func(c *harness.Case) { *get(c) = nv }) {
								ok = true
								break
							}
						}
						if !ok {
							break
						}
						changed = true
					}
				}
			}
			// the world
			if cur.World.Lat != 0 && try(func(c *harness.Case) { c.World.Lat = 0 }) {
				changed = true
			}
			if cur.World.Remote != 0 && try(func(c *harness.Case) { c.World.Remote = 0 }) {
				changed = true
			}
			if cur.World.Mode != 1 && try(func(c *harness.Case) { c.World.Mode = 1 }) {
				changed = true
			}
			if !seqOnly && try(func(c *harness.Case) { c.Sched.Replay, c.Sched.Picks, c.Sched.Yields = true, nil, nil }) {
				seqOnly = true
				changed = true
			}
			if !changed || time.Now().After(limit) {
				break
			}
		}
	}
	shrink()
	if !seqOnly {
		// turn the seeded schedule into an explicit list of decisions and shrink it
		if o := run(cur, true); o != nil && o.Viol != nil && !o.Trunc && !cur.Sched.Replay && o.Viol.Class != "crash" {
			picks := append([]uint16(nil), o.Picks...)
			yields := append([]uint64(nil), o.Yields...)
			if try(func(c *harness.Case) { c.Sched.Replay, c.Sched.Picks, c.Sched.Yields = true, picks, yields }) {
				for k := len(cur.Sched.Yields); k >= 1; k /= 2 {
					for i := len(cur.Sched.Yields) - k; i >= 0; i -= k {
						if i+k <= len(cur.Sched.Yields) {
							try(func(c *harness.Case) { c.Sched.Yields = append(c.Sched.Yields[:i:i], c.Sched.Yields[i+k:]...) })
						}
					}
				}
				for k := len(cur.Sched.Picks); k >= 1; k /= 2 {
					for i := 0; i+k <= len(cur.Sched.Picks); i += k {
						nz := false
						for _, v := range cur.Sched.Picks[i : i+k] {
							nz = nz || v != 0
						}
						if nz {
							try(func(c *harness.Case) {
								for j := i; j < i+k; j++ {
									c.Sched.Picks[j] = 0
								}
							})
						}
					}
				}
				n := len(cur.Sched.Picks)
				for n > 0 && cur.Sched.Picks[n-1] == 0 {
					n--
				}
				try(func(c *harness.Case) { c.Sched.Picks = c.Sched.Picks[:n] })
			}
		}
	}
	// confirm in a fresh process, with the trace
	final, err := r.run(cur, true, true)
	if err != nil {
		return "", nil, false, err
	}
	if final.Viol == nil || final.Viol.Class != want {
		cur = cd.c
		if final, err = r.run(cur, true, true); err != nil || final.Viol == nil || final.Viol.Class != want {
			return "", nil, false, err
		}
	}
	again, err := r.run(cur, true, true)
	if err != nil || again.Viol == nil || again.Viol.Class != want || want != "crash" && want != "data-race" && (again.Hash != final.Hash || again.LogHash != final.LogHash) {
		return "", nil, false, err
	}
	dir := filepath.Join(verifDir(), "replays")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", p.ID, want, cur.Seed))
	rf := replayFile{Property: p.ID, Class: want, Message: final.Viol.Msg, Tier: tier, BaseSeed: seed,
		How: "cd /verif && ./check.sh replay " + path, Case: cur, Trace: final.Trace}
	b, _ := json.MarshalIndent(rf, "", " ")
	if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
		return "", nil, false, err
	}
	return path, final.Viol, true, nil
}

// withBefore is cd's case with executions made before it that make it violate
// the property again in a fresh process, or nil.
func withBefore(r *runner, p *harness.Prop, cd *candidate, thorough bool) *harness.Case {
	limit := time.Now().Add(90 * time.Second)
	for n := 0; ; n = max(1, n*4) {
		seeds := cd.before(n)
		// the dry run of the case itself comes before it, too: its seed is
		// built again last
		resp, err := r.request(execReq{Case: cd.c, Seeds: append(slices.Clone(seeds), cd.c.Seed), Thorough: thorough}, true)
		r.stop()
		if err == nil && resp.Viol != nil && resp.Viol.Class == cd.v.Class && resp.Before != nil {
			c := cd.c.Clone()
			c.Before = resp.Before
			if o, err := r.run(c, false, true); err == nil && o.Viol != nil && o.Viol.Class == cd.v.Class {
				return c
			}
		}
		if len(seeds) < n || time.Now().After(limit) {
			return nil
		}
	}
}

func sign(v int64) int64 {
	if v < 0 {
		return -1
	}
	return 1
}
