package props

import (
	"context"
	"fmt"

	ipld "github.com/ipfs/go-ipld-format"

	ft "github.com/ipfs/go-unixfs"
	"github.com/ipfs/go-unixfs/hamt"
	uio "github.com/ipfs/go-unixfs/io"

	"verifsim/harness"
)

func genEnum(live bool) func(r *harness.Rand, thorough bool) *harness.Case {
	return func(r *harness.Rand, thorough bool) *harness.Case {
		c := &harness.Case{P: map[string]int64{}, World: r.World(), Sched: r.Sched()}
		c.P["width"] = r.Pick(8, 8, 8, 16, 16, 32, 256, 1024)
		c.P["defw"] = r.Pick(c.P["width"], 8, 256)
		c.P["cid"] = r.Pick(0, 1)
		c.P["names"] = r.Pick(0, 0, 0, 1, 1, 4)
		c.P["nseed"] = int64(r.U() >> 50)
		n := r.Small(140)
		if thorough {
			n = r.Small(500)
		}
		c.P["n"] = int64(n)
		c.P["basic"] = int64(b2i(r.P(8)))
		c.P["extra"] = int64(r.Small(12)) // added after loading: in memory only
		if r.P(10) {
			c.P["loose"] = 1 + r.N64(1000)
		}
		c.P["touch"] = int64(r.Small(10)) // looked up after loading: loaded shards
		k := int(r.Pick(1, 1, 1, 2, 3))
		for i := 0; i < k; i++ {
			op := harness.Op{K: r.PickS("async", "async", "links", "shardasync", "shardlinks")}
			if k == 1 && r.P(20) {
				op.K = "foreach"
			}
			op.A = r.N64(int64(r.Pick(1, 1, 1000, 3_000_000))) // consumer's delay per entry
			if live {
				switch r.N(4) {
				case 0: // walk away after some entries
					op.B = 1 + int64(r.Small(n+2))
				case 1, 2: // the context ends
					op.C = 1 + r.N64(int64(r.Pick(1, 10_000, 1_000_000, 30_000_000, 500_000_000)))
				}
			}
			c.Ops = append(c.Ops, op)
		}
		return c
	}
}

// stallable tells whether a fault makes somebody wait for ever.
func stalls(e *harness.Env) bool {
	for _, f := range e.C.Faults {
		if f.Do == "stall" {
			return true
		}
	}
	return false
}

func execEnum(e *harness.Env) {
	uio.DefaultShardWidth = int(e.P("defw"))
	uio.HAMTShardingSize = 0
	q := e.W.Quiet()
	m := dirModel{}
	var nd ipld.Node
	add := func(set func(name string, v ipld.Node) error, i int64) {
		v := value(e, i%40)
		q.Add(e.Ctx, v)
		if err := set(dirName(e, i), v); err != nil {
			e.Failf("setup", "%v", err)
		}
		m[dirName(e, i)] = entryOf(v)
	}
	if e.P("basic") == 1 {
		d := uio.NewDirectory(q)
		for i := int64(0); i < e.P("n"); i++ {
			add(func(n string, v ipld.Node) error { return d.AddChild(e.Ctx, n, v) }, i)
		}
		nd, _ = d.GetNode()
	} else {
		sh, err := hamt.NewShard(q, int(e.P("width")))
		if err != nil {
			e.Failf("setup", "%v", err)
		}
		sh.SetCidBuilder(cidBuilder(e.P("cid")))
		for i := int64(0); i < e.P("n"); i++ {
			add(func(n string, v ipld.Node) error { return sh.Set(e.Ctx, n, v) }, i)
		}
		if nd, err = sh.Node(); err != nil {
			e.Failf("setup", "%v", err)
		}
		if l := e.P("loose"); l != 0 {
			nd = loosen(e, q, nd, harness.NewRand(uint64(l)))
		}
	}
	// load it, and bring parts of it into memory, some of them changed
	e.W.Split()
	dag := e.W.DAG()
	d, err := uio.NewDirectoryFromNode(dag, nd)
	if err != nil {
		e.Failf("open", "NewDirectoryFromNode: %v", err)
	}
	var sh *hamt.Shard
	if e.P("basic") == 0 {
		if sh, err = hamt.NewHamtFromDag(dag, nd); err != nil {
			e.Failf("open", "NewHamtFromDag: %v", err)
		}
	}
	base := m.clone()
	for i := int64(0); i < e.P("extra"); i++ {
		add(func(n string, v ipld.Node) error {
			if sh != nil {
				if err := sh.Set(e.Ctx, n, v); err != nil {
					return err
				}
			}
			return d.AddChild(e.Ctx, n, v)
		}, e.P("n")+i*3)
	}
	for i := int64(0); i < e.P("touch"); i++ {
		d.Find(e.Ctx, dirName(e, i*7%max(1, e.P("n"))))
	}
	_ = base
	e.W.Armed = true
	var fs []func()
	for _, op := range e.C.Ops {
		op := op
		fs = append(fs, func() { enumerate(e, d, sh, m, op) })
	}
	e.Par(fs...)
	e.W.Armed = false
	left := false // an enumeration nobody waited for may still be at work
	for _, op := range e.C.Ops {
		left = left || op.B > 0 && op.B%2 == 1
	}
	// and afterwards everything is still there
	enumerate(e, d, sh, m, harness.Op{K: "links"})
	enumerate(e, d, sh, m, harness.Op{K: "async"})
	if !left { // ForEachLink loads shards into the directory
		enumerate(e, d, sh, m, harness.Op{K: "foreach"})
	}
	e.Logf("%d entries", len(m))
}

func enumerate(e *harness.Env, d uio.Directory, sh *hamt.Shard, m dirModel, op harness.Op) {
	got := dirModel{}
	ctx, cancel := context.WithCancel(e.Ctx)
	defer cancel()
	if op.C == 1 {
		cancel()
	} else if op.C > 1 {
		e.W.S.After(op.C, cancel)
	} else if op.B > 0 {
		// a consumer that has not seen enough gives up eventually
		e.W.S.After(1e15, cancel)
	} else if stalls(e) {
		e.W.S.After(1e15, cancel)
	}
	put := func(l *ipld.Link) {
		if l == nil {
			e.Failf("enum-nil", "a result carries neither a link nor an error")
		}
		if _, dup := got[l.Name]; dup {
			e.Failf("enum-twice", "entry %q is listed twice", l.Name)
		}
		x := entry{string(l.Cid.Bytes()), l.Size}
		if w, ok := m[l.Name]; !ok {
			e.Failf("enum-phantom", "entry %q does not exist", l.Name)
		} else if w != x {
			e.Failf("enum-wrong", "entry %q is %x/%d, want %x/%d", l.Name, x.cid, x.size, w.cid, w.size)
		}
		got[l.Name] = x
	}
	var ferr error
	gone := false
	async := func(ch <-chan ft.LinkResult) {
		n := int64(0)
		for r := range ch {
			if gone {
				continue // only waiting for the channel to close
			}
			if r.Err != nil {
				ferr = r.Err
				continue
			}
			if ferr != nil {
				e.Failf("enum-after-error", "entry delivered after the error %v", ferr)
			}
			put(r.Link)
			if op.A > 0 {
				e.W.S.Sleep(op.A)
			}
			if n++; op.B > 0 && n >= op.B {
				gone = true
				cancel()
				if op.B%2 == 1 {
					return // not even waiting for the channel to close
				}
			}
		}
	}
	if sh == nil {
		switch op.K {
		case "shardasync":
			op.K = "async"
		case "shardlinks":
			op.K = "links"
		}
	}
	switch op.K {
	case "async":
		async(d.EnumLinksAsync(ctx))
	case "shardasync":
		async(sh.EnumLinksAsync(ctx))
	case "links", "shardlinks":
		f := d.Links
		if op.K == "shardlinks" {
			f = sh.EnumLinks
		}
		var ls []*ipld.Link
		ls, ferr = f(ctx)
		if ferr == nil {
			for _, l := range ls {
				put(l)
			}
			gone = false
			if len(got) != len(m) {
				e.Failf("enum-partial", "Links returned %d of %d entries and no error (context: %v)", len(got), len(m), ctx.Err())
			}
		}
	case "foreach":
		stop := fmt.Errorf("stop")
		n := int64(0)
		ferr = d.ForEachLink(ctx, func(l *ipld.Link) error {
			put(l)
			if n++; op.B > 0 && n >= op.B {
				return stop
			}
			return nil
		})
		if ferr == stop {
			ferr, gone = nil, true
		} else if op.B > 0 && n >= op.B {
			e.Failf("enum-error", "ForEachLink returned %v, not the error of its callback", ferr)
		}
		if ferr == nil && !gone && len(got) != len(m) {
			e.Failf("enum-partial", "ForEachLink visited %d of %d entries and returned no error", len(got), len(m))
		}
	}
	e.Check()
	cancelled := ctx.Err() != nil
	e.Logf("%v: %d of %d, %v, cancelled %v", op, len(got), len(m), ferr, cancelled)
	switch {
	case ferr != nil:
		e.Probe("failed " + op.K)
		blame(e, op.K, ferr, cancelled)
		if !cancelled && len(e.W.Fired) == 0 {
			e.Failf("enum-error", "%s: unexpected error %v", op.K, ferr)
		}
	case gone:
		e.Probe("abandoned " + op.K)
	case cancelled:
		e.Probe("cancelled " + op.K)
	case len(got) != len(m):
		e.Failf("enum-partial", "%s ended after %d of %d entries without an error", op.K, len(got), len(m))
	}
}

var enumShrink = map[string]int64{"loose": 0, "n": 0, "basic": 0, "extra": 0, "touch": 0, "names": 0, "nseed": 0, "cid": 0}

var _ = register(&harness.Prop{
	ID: "U12", Title: "Enumerating a directory yields every entry exactly once, or an error",
	Rule: "Sharded directories (and some basic ones) of 0-500 entries, widths 8-256, also with needless and empty shards, partly loaded and changed in memory, enumerated by 1-3 concurrent consumers through five interfaces, with slow consumers, " +
		"blocks arriving in any order, and 0-4 faults among the fetches.",
	Gen: genEnum(false), Exec: execEnum, Leak: true, Shrink: enumShrink, Real: realAll, Stub: stubAll,
	Place: func(r *harness.Rand, c *harness.Case, counts map[string]int) {
		if r.P(70) {
			place(r, c, counts, readFaults, 4)
		}
	},
})

var _ = register(&harness.Prop{
	ID: "U13", Title: "Enumeration always ends, and leaves nothing running behind",
	Rule: "The directories of U12; consumers that leave after some entries, contexts that end before, during or after, fetches that fail or never answer; each enumeration must end in bounded steps, " +
		"close its channel and leave no goroutine behind.",
	Gen: genEnum(true), Exec: execEnum, Leak: true, Shrink: enumShrink, Real: realAll, Stub: stubAll,
	Place: func(r *harness.Rand, c *harness.Case, counts map[string]int) {
		place(r, c, counts, []fk{{"get", []string{"stall", "err", "cancel", "ctxerr"}}, {"item", []string{"stall", "stall", "err", "notfound", "ctxerr"}}, {"net", []string{"stall", "err", "ctxerr"}}, {"getmany", []string{"err", "ctxerr"}}, {"netmany", []string{"err"}}}, 4)
	},
})
