package props

import (
	"fmt"
	"slices"

	cid "github.com/ipfs/go-cid"
	mdag "github.com/ipfs/go-merkledag"

	"github.com/ipfs/go-unixfs/importer/trickle"

	"verifsim/harness"
	"verifsim/world"
)

// trickleShape checks the layout's rules on a stored file: up to m direct
// leaves first, then subtrees, four for each depth, none deeper than its
// place allows, and nothing but leaves at depth 0.
func trickleShape(w *world.World, root cid.Cid, m int) error {
	var rec func(c cid.Cid, depth int) error
	rec = func(c cid.Cid, depth int) error {
		nd, err := getNode(w, c)
		if err != nil {
			return err
		}
		links := nd.Links()
		for i, l := range links {
			ch, err := getNode(w, l.Cid)
			if err != nil {
				return err
			}
			_, raw := ch.(*mdag.RawNode)
			leaf := raw || len(ch.Links()) == 0
			if i < m {
				if !leaf {
					return fmt.Errorf("child %d of a node at depth %d is a tree, the first %d are to be leaves", i, depth, m)
				}
				continue
			}
			if leaf {
				return fmt.Errorf("child %d of a node at depth %d is a leaf, only the first %d are", i, depth, m)
			}
			d := (i-m)/4 + 1
			if depth >= 0 && d >= depth {
				return fmt.Errorf("a tree of depth %d has a subtree (child %d) of depth %d", depth, i, d)
			}
			if err := rec(l.Cid, d); err != nil {
				return err
			}
		}
		return nil
	}
	return rec(root, -1)
}

func (t *tree) leaves() []int64 {
	if t.kids == nil {
		return []int64{t.leaf}
	}
	var l []int64
	for _, k := range t.kids {
		l = append(l, k.leaves()...)
	}
	return l
}

// grown is the tree that appending chunks to a file laid out as t has to give,
// where that is determined: in the first layer of subtrees, and when the next
// place is at the begin of a layer. (Otherwise, a subtree begun earlier may be
// left as it is.)
func grown(t *tree, chunks []int64, m int) *tree {
	if t.kids == nil {
		return nil
	}
	old := t.leaves()
	cl := slices.Clone(old)
	if trickleTree(&cl, m, -1).String() != t.String() {
		return nil
	}
	if n := len(t.kids) - m; n > 3 {
		full := make([]int, n/4+1) // leaves of a complete tree of each depth
		for d := range full {
			full[d] = m
			for k := 1; k < d; k++ {
				full[d] += 4 * full[k]
			}
		}
		if n%4 != 0 || len(t.kids[len(t.kids)-1].leaves()) != full[n/4] {
			return nil
		}
	}
	cl = append(old, chunks...)
	return trickleTree(&cl, m, -1)
}

func execAppend(e *harness.Env) {
	m := int(e.P("mlinks"))
	data := content(e.P("cseed"), e.P("kind"), e.P("len"))
	nd, err := makeFile(e, e.W.Quiet(), data)
	if err != nil {
		e.Failf("setup", "%v", err)
	}
	e.W.Split()
	dag := e.W.DAG()
	check := func(what string, c cid.Cid) {
		e.Check()
		got, err := fileBytes(e.W, c)
		if err != nil {
			e.Failf("append-unreadable", "after %s: %v", what, err)
		}
		if !eq(got, data) {
			e.Failf("append-content", "after %s: %s", what, diff(got, data))
		}
		if err := sizes(e.W, c); err != nil {
			e.Failf("append-sizes", "after %s: %v", what, err)
		}
		if err := trickleShape(e.W, c, m); err != nil {
			e.Failf("append-shape", "after %s: %v", what, err)
		}
		n, err := getNode(e.W, c)
		if err != nil {
			e.Failf("append-unreadable", "%v", err)
		}
		if err := trickle.VerifyTrickleDagStructure(n, trickle.VerifyParams{Getter: e.W.Quiet(), Direct: m, LayerRepeat: 4, RawLeaves: e.P("raw") == 1}); err != nil {
			e.Failf("append-shape", "after %s: VerifyTrickleDagStructure: %v", what, err)
		}
	}
	check("Layout", nd.Cid())
	e.W.Armed = true
	for i, op := range e.C.Ops {
		more := content(op.B, 0, op.A)
		was, err := storedTree(e.W, nd.Cid())
		if err != nil {
			e.Failf("append-unreadable", "%v", err)
		}
		want := grown(was, chunkLens(e, int64(len(more))), m)
		for try := 0; ; try++ {
			if try > 0 {
				e.W.Armed = try < 3 // the fault passes
			}
			base, err := dag.Get(e.Ctx, nd.Cid())
			if err != nil {
				if len(e.W.Fired) == 0 {
					e.Failf("append-error", "Get: %v", err)
				}
				continue
			}
			s := &stream{e: e, data: more, r: harness.NewRand(uint64(op.B))}
			db, err := buildParams(e, dag).New(splitterFor(e, s))
			if err != nil {
				e.Failf("append-error", "%v", err)
			}
			fired := bad(e.W)
			out, err := trickle.Append(e.Ctx, base, db)
			if err == nil {
				if bad(e.W) > fired {
					e.Failf("append-swallowed", "Append succeeded although %s", harness.JSON(e.W.Fired))
				}
				if err = dag.Add(e.Ctx, out); err == nil {
					nd = out
					data = append(data[:len(data):len(data)], more...)
					break
				}
			}
			if len(e.W.Fired) == 0 {
				e.Failf("append-error", "Append: unexpected error %v", err)
			}
			e.Probe("failed Append")
			blame(e, "Append", err, false)
			e.Logf("append %d failed: %v", i, err)
			check("a failed Append", nd.Cid())
			if !e.W.Armed {
				e.Failf("append-error", "Append still fails without faults: %v", err)
			}
		}
		e.Logf("append %d: %d bytes -> %s", i, op.A, nd.Cid())
		check("Append", nd.Cid())
		if want != nil {
			e.Probe("exact layout")
			if got, err := storedTree(e.W, nd.Cid()); err != nil || got.String() != want.String() {
				e.Failf("append-layout", "appending to %s gives %s (%v), the layout calls for %s", was, got, err, want)
			}
		}
	}
	e.W.Armed = false
}

// bad counts the injected faults that had to surface as errors. (A block the
// store claims not to have is asked for from the network.)
func bad(w *world.World) int {
	n := 0
	for k, v := range w.Fired {
		switch k {
		case "put:slow", "putmany:slow", "get:slow", "net:slow", "item:slow", "get:notfound":
		default:
			n += v
		}
	}
	return n
}

var _ = register(&harness.Prop{
	ID: "U20", Title: "Appending to a trickle file keeps the content and the layout",
	Rule: "Trickle files of 0-160 chunks (fanouts 2-174, raw or protobuf leaves, four CID formats) and 1-6 appends of 0-60 chunks, with 0-3 faults among the writes, fetches and input reads; failed appends are retried " +
		"from the stored file.",
	Gen: func(r *harness.Rand, thorough bool) *harness.Case {
		c := &harness.Case{P: map[string]int64{}, World: r.World(), Sched: r.Sched()}
		shapeParams(r, c.P, thorough)
		c.P["shape"] = shTrickle
		if r.P(10) {
			c.P["mlinks"] = 1
		}
		for n := r.In(1, 6); n > 0; n-- {
			c.Ops = append(c.Ops, harness.Op{K: "append", A: int64(r.Small(60))*c.P["chunk"] + int64(r.N(int(c.P["chunk"]))), B: int64(r.N(1000))})
		}
		return c
	},
	Exec: execAppend, Leak: true, Shrink: map[string]int64{"len": 0, "raw": 0, "cid": 0, "kind": 0, "chunk": 1}, Real: realAll, Stub: stubAll,
	Place: func(r *harness.Rand, c *harness.Case, counts map[string]int) {
		if r.P(50) {
			place(r, c, counts, []fk{writeFaults[0], {"get", []string{"err", "notfound"}}, {"net", []string{"err"}}, {"stream", []string{"err", "errdata"}}}, 3)
		}
	},
})
