package props

import (
	"fmt"
	"io"

	blocks "github.com/ipfs/go-block-format"
	cid "github.com/ipfs/go-cid"
	chunker "github.com/ipfs/go-ipfs-chunker"
	ipld "github.com/ipfs/go-ipld-format"

	"github.com/ipfs/go-unixfs/hamt"
	"github.com/ipfs/go-unixfs/importer/trickle"
	uio "github.com/ipfs/go-unixfs/io"
	"github.com/ipfs/go-unixfs/mod"

	help "github.com/ipfs/go-unixfs/importer/helpers"

	"verifsim/harness"
)

// version is a root whose making was acknowledged.
type version struct {
	what string
	cid  cid.Cid
	data []byte   // a file
	dir  dirModel // a directory
	trk  bool     // a trickle file of the session's parameters

	pfx    cid.Prefix // what its protobuf nodes are to be made with
	leaves int        // what its leaves are to be: rawLeaf, protoLeaf or both
}

// session is one client's work; it survives crashes as the client's memory of
// what it was told.
type session struct {
	e    *harness.Env
	vs   []version
	ops  []harness.Op
	next int

	onAck func(version)

	pfx    cid.Prefix // expected of the next version
	leaves int
}

func (s *session) ack(what string, c cid.Cid, data []byte, dir dirModel, trk bool) {
	v := version{what, c, append([]byte(nil), data...), dir, trk, s.pfx, s.leaves}
	s.verify(v, "right after it was acknowledged")
	s.vs = append(s.vs, v)
	if s.onAck != nil {
		s.onAck(v)
	}
	s.e.Logf("%s -> %s", what, c)
}

// verify: an acknowledged version is completely on disk, with its content.
func (s *session) verify(v version, when string) {
	e := s.e
	e.Check()
	if err := closure(e.W, v.cid); err != nil {
		e.Failf("not-durable", "%s %s: the result of %s is incomplete: %v", when, v.cid, v.what, err)
	}
	if v.dir != nil {
		got, _, err := storedDir(e.W, v.cid, false)
		if err != nil {
			e.Failf("not-durable", "%s: the result of %s: %v", when, v.what, err)
		}
		if d := sameDir(got, v.dir); d != "" {
			e.Failf("durable-content", "%s: the result of %s: %s", when, v.what, d)
		}
		return
	}
	got, err := fileBytes(e.W, v.cid)
	if err != nil {
		e.Failf("not-durable", "%s: the result of %s: %v", when, v.what, err)
	}
	if !eq(got, v.data) {
		e.Failf("durable-content", "%s: the result of %s: %s", when, v.what, diff(got, v.data))
	}
}

// pick chooses an acknowledged version.
func (s *session) pick(n int64, ok func(v *version) bool) *version {
	var c []*version
	for i := range s.vs {
		if ok(&s.vs[i]) {
			c = append(c, &s.vs[i])
		}
	}
	if len(c) == 0 {
		return nil
	}
	return c[int(n%int64(len(c)))]
}

// run goes on until the work is done or the machine crashes (false).
func (s *session) run(dag ipld.DAGService, gen int) {
	w := s.e.W
	for s.next < len(s.ops) {
		err := s.step(dag, s.ops[s.next])
		if w.Dead || w.Gen != gen {
			return // whatever this process still believed is gone
		}
		if err != nil {
			if len(w.Fired) == 0 || w.Fired["put:crash"]+w.Fired["put:crashafter"]+w.Fired["get:crash"]+w.Fired["item:crash"]+w.Fired["net:crash"] == total(w.Fired) {
				s.e.Failf("session-error", "%v: unexpected error %v", s.ops[s.next], err)
			}
		}
		s.next++
	}
}

func total(m map[string]int) int {
	n := 0
	for _, v := range m {
		n += v
	}
	return n
}

func (s *session) step(dag ipld.DAGService, op harness.Op) error {
	e := s.e
	r := harness.NewRand(uint64(op.B))
	switch op.K {
	case "import":
		sh := int64(shBalanced)
		if op.C%2 == 1 {
			sh = shTrickle
		}
		e2 := e.With(map[string]int64{"shape": sh, "var": 0, "wrap": 0, "nocopy": 0, "raw": op.C / 2 % 2})
		data := content(op.B, op.C/4%4, op.A)
		root, err := doImport(e2, dag, &stream{e: e2, data: data, r: r})
		if err != nil {
			return err
		}
		s.pfx, s.leaves = prefixOf(e.P("cid")), leafKind(e2.P("raw") == 1)
		s.ack("import", root.Cid(), data, nil, sh == shTrickle && e2.P("raw") == e.P("raw"))
	case "append":
		v := s.pick(op.A, func(v *version) bool { return v.trk })
		if v == nil {
			return nil
		}
		base, err := dag.Get(e.Ctx, v.cid)
		if err != nil {
			return err
		}
		more := content(op.B, 0, op.C)
		db, err := buildParams(e, dag).New(chunker.NewSizeSplitter(&stream{e: e, data: more, r: r}, max(1, e.P("chunk"))))
		if err != nil {
			return err
		}
		out, err := trickle.Append(e.Ctx, base, db)
		if err != nil {
			return err
		}
		if err := dag.Add(e.Ctx, out); err != nil {
			return err
		}
		s.pfx, s.leaves = v.pfx, v.leaves|leafKind(e.P("raw") == 1)
		s.ack("append", out.Cid(), append(append([]byte(nil), v.data...), more...), nil, true)
	case "edit":
		v := s.pick(op.A, func(v *version) bool { return v.dir == nil })
		if v == nil {
			return nil
		}
		base, err := dag.Get(e.Ctx, v.cid)
		if err != nil {
			return err
		}
		dm, err := mod.NewDagModifier(e.Ctx, base, dag, func(rd io.Reader) chunker.Splitter {
			return chunker.NewSizeSplitter(rd, max(1, e.P("chunk")))
		})
		if err != nil {
			e.Failf("open", "NewDagModifier: %v", err)
		}
		raw := v.cid.Prefix().Version > 0 // unless asked for otherwise, as is usual for the CID version
		if op.C%3 != 0 {
			raw = op.C%3 == 1
			dm.RawLeaves = raw
		}
		pfx, leaves := v.cid.Prefix(), v.leaves|leafKind(raw)
		pfx.Codec = cid.DagProtobuf
		tmp := &harness.Case{P: e.C.P}
		genModOps(r, tmp, int64(len(v.data)), r.In(1, 5))
		st, _ := runModOps(e, dm, modSet{{b: append([]byte(nil), v.data...)}}, tmp.Ops)
		if e.W.Dead {
			return nil
		}
		nd, err := dm.GetNode()
		if err != nil {
			return err
		}
		st = keepNode(e, st, nd)
		s.pfx, s.leaves = pfx, leaves
		s.ack("edit", nd.Cid(), st[0].b, nil, false)
	case "dir":
		m := dirModel{}
		var d uio.Directory
		if v := s.pick(op.A, func(v *version) bool { return v.dir != nil }); v != nil && op.A%4 != 0 {
			nd, err := dag.Get(e.Ctx, v.cid)
			if err != nil {
				return err
			}
			if d, err = uio.NewDirectoryFromNode(dag, nd); err != nil {
				e.Failf("open", "NewDirectoryFromNode: %v", err)
			}
			m = v.dir.clone()
		} else if r.P(30) { // sharded from the start
			sh, err := hamt.NewShard(dag, int(e.P("width")))
			if err != nil {
				e.Failf("setup", "%v", err)
			}
			sh.SetCidBuilder(cidBuilder(e.P("cid")))
			nd, err := sh.Node()
			if err != nil {
				return err
			}
			s.pfx, s.leaves = prefixOf(e.P("cid")), 0
			s.ack("new sharded directory", nd.Cid(), nil, dirModel{}, false)
			if d, err = uio.NewDirectoryFromNode(dag, nd); err != nil {
				e.Failf("open", "NewDirectoryFromNode: %v", err)
			}
		} else {
			d = uio.NewDirectory(dag)
			d.SetCidBuilder(cidBuilder(e.P("cid")))
		}
		for n := int(op.C); n > 0; n-- {
			name := dirName(e, int64(r.N(int(e.P("pool")))))
			if _, had := m[name]; had && r.P(45) {
				if err := d.RemoveChild(e.Ctx, name); err != nil {
					return err
				}
				delete(m, name)
				continue
			}
			if len(s.vs) == 0 {
				break
			}
			nd, err := dag.Get(e.Ctx, s.vs[r.N(len(s.vs))].cid)
			if err != nil {
				return err
			}
			if err := d.AddChild(e.Ctx, name, nd); err != nil {
				return err
			}
			m[name] = entryOf(nd)
		}
		nd, err := d.GetNode()
		if err != nil {
			return err
		}
		if !isHAMT(d) {
			if err := dag.Add(e.Ctx, nd); err != nil {
				return err
			}
		}
		s.pfx, s.leaves = prefixOf(e.P("cid")), 0
		s.ack("directory change", nd.Cid(), nil, m, false)
	}
	return nil
}

func execCrash(e *harness.Env) {
	help.DefaultLinksPerBlock = int(e.P("links"))
	uio.DefaultShardWidth = int(e.P("width"))
	uio.HAMTShardingSize = int(e.P("thr"))
	w := e.W
	// every block that reaches the disk finds what it refers to there already
	w.OnPut = func(b blocks.Block) {
		if e.Failed() {
			return
		}
		nd, err := decodeBlock(b)
		if err != nil {
			e.Note("bad-block", "a block was stored that does not decode: %v", err)
			return
		}
		for i, l := range nd.Links() {
			if !w.Has(l.Cid) {
				e.Note("dangling", "block %s was stored before its child %d (%s): a crash now leaves a tree with a hole", b.Cid(), i, l.Cid)
			}
		}
	}
	w.Armed = true
	ss := make([]*session, max(1, min(3, e.P("par"))))
	for i := range ss {
		ss[i] = &session{e: e}
	}
	for i, op := range e.C.Ops {
		k := ss[i%len(ss)]
		k.ops = append(k.ops, op)
	}
	for life := 0; ; life++ {
		dag := w.DAG()
		var fs []func()
		for _, s := range ss {
			s := s
			fs = append(fs, func() { s.run(dag, w.Gen) })
		}
		e.Par(fs...)
		if e.Failed() {
			return
		}
		crashed := w.Dead
		if crashed {
			e.Probe("crash")
			w.Restart()
		}
		for _, s := range ss {
			for _, v := range s.vs {
				s.verify(v, fmt.Sprintf("after %d crashes", life))
			}
		}
		if !crashed {
			break
		}
		e.Logf("restarted")
	}
	if n := w.Ops["delete"]; n > 0 {
		e.Failf("deletes", "%d blocks were deleted from the store", n)
	}
	for _, s := range ss {
		if s.next < len(s.ops) {
			e.Failf("session-error", "a client did not finish")
		}
	}
}

var _ = register(&harness.Prop{
	ID: "U03", Title: "What was acknowledged survives a crash, and nothing stored has holes",
	Rule: "1-3 concurrent clients, each with 1-10 steps (balanced and trickle imports, trickle appends, modifier edits, changes of plain, sharded (from the start too) and switching directories) on one store; 0-3 crashes (before or after " +
		"a block reaches the disk, or at a fetch), each followed by a restart with nothing but the disk; after each, every acknowledged root is read back from the disk image, and at every single put the block's references must be stored.",
	Gen:  genSession,
	Exec: execCrash, Leak: true, Shrink: map[string]int64{"par": 1, "names": 0, "nseed": 0, "cid": 0, "raw": 0, "thr": 0}, Real: realAll, Stub: stubAll,
	Place: func(r *harness.Rand, c *harness.Case, counts map[string]int) {
		if r.P(85) {
			c1 := []string{"crash", "crashafter"}
			place(r, c, counts, []fk{{"put", c1}, {"put", c1}, {"put", c1}, {"get", []string{"crash"}}, {"item", []string{"crash"}}, {"putmany", []string{"crashtorn", "crashafter"}}}, 3)
			for i := range c.Faults {
				c.Faults[i].Len = 0
			}
		}
	},
})
