package props

import (
	"bytes"
	"fmt"
	"io"

	cid "github.com/ipfs/go-cid"
	chunker "github.com/ipfs/go-ipfs-chunker"
	files "github.com/ipfs/go-ipfs-files"
	ipld "github.com/ipfs/go-ipld-format"
	mdag "github.com/ipfs/go-merkledag"

	ft "github.com/ipfs/go-unixfs"
	unixfile "github.com/ipfs/go-unixfs/file"
	help "github.com/ipfs/go-unixfs/importer/helpers"
	uio "github.com/ipfs/go-unixfs/io"
	"github.com/ipfs/go-unixfs/mod"

	"verifsim/harness"
	"verifsim/world"
)

// linkSizes checks that every link below c records the cumulative size of
// what it leads to: the sizes of all blocks in it, met once per link.
func linkSizes(w *world.World, c cid.Cid) (uint64, error) {
	memo := map[string]uint64{}
	var rec func(c cid.Cid, depth int) (uint64, error)
	rec = func(c cid.Cid, depth int) (uint64, error) {
		if n, ok := memo[c.KeyString()]; ok {
			return n, nil
		}
		nd, err := getNode(w, c)
		if err != nil {
			return 0, err
		}
		n := uint64(len(nd.RawData()))
		for i, l := range nd.Links() {
			k, err := rec(l.Cid, depth+1)
			if err != nil {
				return 0, err
			}
			if l.Size != k {
				return 0, fmt.Errorf("link %d %q of %s (depth %d) records a cumulative size of %d, which is %d", i, l.Name, c, depth, l.Size, k)
			}
			n += k
		}
		memo[c.KeyString()] = n
		return n, nil
	}
	return rec(c, 0)
}

// sizeTruth: everything that is recorded or reported about v's size is so.
func sizeTruth(e *harness.Env, v version) {
	e.Check()
	q := e.W.Quiet()
	cum, err := linkSizes(e.W, v.cid)
	if err != nil {
		e.Failf("link-size", "the result of %s: %v", v.what, err)
	}
	nd, err := q.Get(e.Ctx, v.cid)
	if err != nil {
		e.Failf("not-durable", "the result of %s: %v", v.what, err)
	}
	if n, err := nd.Size(); err != nil || n != cum {
		e.Failf("node-size", "the root of %s gives its cumulative size as %d (%v), it is %d", v.what, n, err, cum)
	}
	f, err := unixfile.NewUnixfsFile(e.Ctx, q, nd)
	if err != nil {
		e.Failf("file-open", "NewUnixfsFile on the result of %s: %v", v.what, err)
	}
	got, err := f.Size()
	if err != nil {
		e.Failf("file-size", "Size of the result of %s: %v", v.what, err)
	}
	if v.dir != nil {
		if uint64(got) != cum {
			e.Failf("file-size", "the directory made by %s reports a size of %d, it is %d", v.what, got, cum)
		}
		if _, ok := f.(files.Directory); !ok {
			e.Failf("file-size", "the result of %s shows as %T", v.what, f)
		}
		if _, err := ft.DataSize(nd.(*mdag.ProtoNode).Data()); err == nil {
			e.Failf("data-size", "a directory has a data size")
		}
		return
	}
	want := int64(len(v.data))
	if got != want {
		e.Failf("file-size", "the file made by %s reports a size of %d, it is %d", v.what, got, want)
	}
	if err := sizes(e.W, v.cid); err != nil {
		e.Failf("recorded-size", "the result of %s: %v", v.what, err)
	}
	dr, err := uio.NewDagReader(e.Ctx, nd, q)
	if err != nil {
		e.Failf("file-open", "NewDagReader on the result of %s: %v", v.what, err)
	}
	if n := dr.Size(); n != uint64(want) {
		e.Failf("reader-size", "a reader of the result of %s reports %d bytes, there are %d", v.what, n, want)
	}
	if n, err := dr.Seek(0, io.SeekEnd); err != nil || n != want {
		e.Failf("reader-size", "seeking to the end of the result of %s leads to %d (%v) of %d", v.what, n, err, want)
	}
	dr.Close()
	dm, err := mod.NewDagModifier(e.Ctx, nd, q, func(rd io.Reader) chunker.Splitter { return chunker.NewSizeSplitter(rd, 16) })
	if err != nil {
		e.Failf("file-open", "NewDagModifier on the result of %s: %v", v.what, err)
	}
	if n, err := dm.Size(); err != nil || n != want {
		e.Failf("modifier-size", "a modifier of the result of %s reports %d bytes (%v), there are %d", v.what, n, err, want)
	}
	if p, ok := nd.(*mdag.ProtoNode); ok {
		if n, err := ft.DataSize(p.Data()); err != nil || n != uint64(want) {
			e.Failf("data-size", "DataSize of the result of %s is %d (%v), want %d", v.what, n, err, want)
		}
		fsn, err := ft.ExtractFSNode(p)
		if err != nil {
			e.Failf("data-size", "ExtractFSNode: %v", err)
		}
		if fsn.FileSize() != uint64(want) || fsn.NumChildren() != len(p.Links()) {
			e.Failf("data-size", "the root of %s records %d bytes in %d children, there are %d in %d", v.what, fsn.FileSize(), fsn.NumChildren(), want, len(p.Links()))
		}
	}
}

// fsNodeOps edits one FSNode at random: its file size is always its data plus
// its children, also after being stored and loaded.
func fsNodeOps(e *harness.Env, r *harness.Rand) {
	fsn := ft.NewFSNode(ft.TFile)
	var kids []uint64
	var data []byte
	for n := r.In(1, 12); n > 0; n-- {
		switch r.N(8) {
		case 0, 1, 2:
			s := uint64(r.Small(1 << 20))
			fsn.AddBlockSize(s)
			kids = append(kids, s)
		case 3, 4:
			if len(kids) > 0 {
				i := r.N(len(kids))
				fsn.RemoveBlockSize(i)
				kids = append(kids[:i:i], kids[i+1:]...)
			}
		case 5:
			data = content(int64(r.N(100)), 0, int64(r.Small(40)))
			fsn.SetData(data)
		case 6:
			fsn.RemoveAllBlockSizes()
			kids = nil
		case 7:
			b, err := fsn.GetBytes()
			if err != nil {
				e.Failf("fsnode", "GetBytes: %v", err)
			}
			if fsn, err = ft.FSNodeFromBytes(b); err != nil {
				e.Failf("fsnode", "FSNodeFromBytes: %v", err)
			}
		}
		want := uint64(len(data))
		for i, k := range kids {
			want += k
			if i < fsn.NumChildren() && fsn.BlockSize(i) != k {
				e.Failf("fsnode", "child %d has size %d, want %d", i, fsn.BlockSize(i), k)
			}
		}
		e.Check()
		if fsn.NumChildren() != len(kids) || fsn.FileSize() != want || !eq(fsn.Data(), data) {
			e.Failf("fsnode", "an FSNode of %d bytes of data and children %v reports %d bytes, %d children, %d bytes of data", len(data), kids, fsn.FileSize(), fsn.NumChildren(), len(fsn.Data()))
		}
	}
	m := &ft.Metadata{MimeType: fmt.Sprintf("type/%d", r.N(100)), Size: uint64(r.Small(1 << 30))}
	b, err := ft.BytesForMetadata(m)
	if err != nil {
		e.Failf("metadata", "BytesForMetadata: %v", err)
	}
	m2, err := ft.MetadataFromBytes(b)
	if err != nil || *m2 != *m {
		e.Failf("metadata", "metadata %+v is stored and loaded as %+v (%v)", *m, m2, err)
	}
}

// overDagOps builds and edits one node at both its layers at random, the way
// importers do: its links, their cumulative sizes and the file sizes agree.
func overDagOps(e *harness.Env, r *harness.Rand) {
	type kid struct {
		nd   ipld.Node
		size uint64
	}
	dag := e.W.DAG()
	p := help.DagBuilderParams{Dagserv: dag, Maxlinks: 4, RawLeaves: r.P(50), CidBuilder: cidBuilder(int64(r.N(4)))}
	db, err := p.New(chunker.NewSizeSplitter(bytes.NewReader(nil), 8))
	if err != nil {
		e.Failf("overdag", "New: %v", err)
	}
	fsn := db.NewFSNodeOverDag(ft.TFile)
	var kids []kid
	leaves := 0
	check := func(what string, fsn *help.FSNodeOverDag) {
		var sum uint64
		for _, k := range kids {
			sum += k.size
		}
		e.Check()
		if fsn.NumChildren() != len(kids) || fsn.FileSize() != sum {
			e.Failf("overdag", "after %s: %d children of %d bytes, want %d of %d", what, fsn.NumChildren(), fsn.FileSize(), len(kids), sum)
		}
	}
	// stored makes the node final and looks at what would be stored.
	stored := func(what string) *mdag.ProtoNode {
		nd, err := fsn.Commit()
		if err != nil {
			e.Failf("overdag", "Commit after %s: %v", what, err)
		}
		if g, err := fsn.GetDagNode(); err != nil || !g.Cid().Equals(nd.Cid()) {
			e.Failf("overdag", "GetDagNode is not what Commit gave (%v)", err)
		}
		cp, err := mdag.DecodeProtobuf(nd.RawData())
		if err != nil {
			e.Failf("overdag", "the node after %s does not decode: %v", what, err)
		}
		cp.SetCidBuilder(nd.(*mdag.ProtoNode).CidBuilder())
		in, err := ft.FSNodeFromBytes(cp.Data())
		if err != nil || len(cp.Links()) != len(kids) || in.NumChildren() != len(kids) {
			e.Failf("overdag", "the node after %s has %d links and %d sizes (%v), want %d", what, len(cp.Links()), in.NumChildren(), err, len(kids))
		}
		for i, l := range cp.Links() {
			n, _ := kids[i].nd.Size()
			if !l.Cid.Equals(kids[i].nd.Cid()) || l.Name != "" || l.Size != n || in.BlockSize(i) != kids[i].size {
				e.Failf("overdag", "link %d after %s is %q %s of size %d for %d bytes, want %s of %d for %d", i, what, l.Name, l.Cid, l.Size, in.BlockSize(i), kids[i].nd.Cid(), n, kids[i].size)
			}
		}
		return cp
	}
	for n := r.In(1, 10); n > 0; n-- {
		what := "AddChild"
		switch r.N(8) {
		case 0, 1, 2, 3:
			var k kid
			if r.P(30) && len(kids) > 0 {
				nd := stored("Commit")
				k = kid{nd, fsn.FileSize()}
				if r.P(50) { // go on above it
					if err := dag.Add(e.Ctx, nd); err != nil {
						return
					}
					fsn, kids = db.NewFSNodeOverDag(ft.TFile), nil
				}
			} else {
				b := content(int64(leaves), 0, int64(r.In(1, 40)))
				leaves++
				nd, err := db.NewLeafNode(b, ft.TRaw)
				if err != nil {
					e.Failf("overdag", "NewLeafNode: %v", err)
				}
				k = kid{nd, uint64(len(b))}
			}
			if err := fsn.AddChild(k.nd, k.size, db); err != nil {
				if len(e.W.Fired) > 0 {
					return
				}
				e.Failf("overdag", "AddChild: %v", err)
			}
			if !e.W.Has(k.nd.Cid()) {
				e.Failf("overdag", "AddChild succeeded, but the child is not stored")
			}
			kids = append(kids, k)
		case 4:
			if len(kids) == 0 {
				continue
			}
			what = "RemoveChild"
			i := r.N(len(kids))
			fsn.RemoveChild(i, db)
			kids = append(kids[:i:i], kids[i+1:]...)
		case 5:
			what = "loading"
			cp := stored("Commit")
			if fsn, err = help.NewFSNFromDag(cp); err != nil {
				e.Failf("overdag", "NewFSNFromDag: %v", err)
			}
		case 6:
			if len(kids) == 0 {
				continue
			}
			what = "GetChild"
			i := r.N(len(kids))
			c, err := fsn.GetChild(e.Ctx, i, dag)
			if _, raw := kids[i].nd.(*mdag.RawNode); raw {
				if err == nil {
					e.Failf("overdag", "GetChild gives a raw leaf")
				}
				break
			}
			if err != nil {
				if len(e.W.Fired) > 0 {
					return
				}
				e.Failf("overdag", "GetChild: %v", err)
			}
			if nd, _ := c.GetDagNode(); !nd.Cid().Equals(kids[i].nd.Cid()) || c.FileSize() != kids[i].size {
				e.Failf("overdag", "child %d is %s of %d bytes, want %s of %d", i, nd.Cid(), c.FileSize(), kids[i].nd.Cid(), kids[i].size)
			}
		case 7:
			what = "Commit"
			stored(what)
		}
		check(what, fsn)
	}
	stored("the end")
}

// runSessions runs the case's sessions and has every result judged, when it is
// made and at the end.
func runSessions(e *harness.Env, judge func(*harness.Env, version)) {
	help.DefaultLinksPerBlock = int(e.P("links"))
	uio.DefaultShardWidth = int(e.P("width"))
	uio.HAMTShardingSize = int(e.P("thr"))
	e.W.Armed = true
	ss := make([]*session, max(1, min(3, e.P("par"))))
	for i := range ss {
		ss[i] = &session{e: e, onAck: func(v version) { judge(e, v) }}
	}
	for i, op := range e.C.Ops {
		if op.K == "fsnode" {
			fsNodeOps(e, harness.NewRand(uint64(op.B)))
			overDagOps(e, harness.NewRand(uint64(op.B)+1))
			continue
		}
		k := ss[i%len(ss)]
		k.ops = append(k.ops, op)
	}
	dag := e.W.DAG()
	var fs []func()
	for _, s := range ss {
		s := s
		fs = append(fs, func() { s.run(dag, e.W.Gen) })
	}
	e.Par(fs...)
	e.W.Armed = false
	for _, s := range ss {
		for _, v := range s.vs {
			judge(e, v)
		}
	}
}

func genSession(r *harness.Rand, thorough bool) *harness.Case {
	c := &harness.Case{P: map[string]int64{}, World: r.World(), Sched: r.Sched()}
	shapeParams(r, c.P, thorough)
	c.World.Remote = 0
	c.P["par"] = r.Pick(1, 1, 1, 2, 3)
	c.P["links"] = r.Pick(2, 3, 4)
	c.P["width"] = r.Pick(8, 8, 16, 256, 1024)
	c.P["thr"] = r.Pick(0, 1, 120, 300, 500)
	c.P["names"] = r.Pick(0, 0, 1, 1, 1, 2, 2, 4)
	c.P["nseed"] = int64(r.U() >> 50)
	c.P["pool"] = r.Pick(4, 10, 24)
	n := r.In(1, 10)
	if thorough {
		n = r.In(1, 24)
	}
	for i := 0; i < n; i++ {
		op := harness.Op{K: r.PickS("import", "append", "edit", "edit", "dir", "dir"), A: int64(r.N(100)), B: int64(r.U() >> 44), C: int64(r.Small(14))}
		if i == 0 {
			op.K = "import"
		}
		switch op.K {
		case "import":
			op.A, op.C = int64(r.Small(40))*c.P["chunk"]+int64(r.N(5)), int64(r.N(16))
		case "append":
			op.C = int64(r.Small(20)) * c.P["chunk"]
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

var _ = register(&harness.Prop{
	ID: "U21", Title: "Every recorded and reported size is the truth",
	Rule: "The sessions of U03 (1-3 concurrent clients: imports, trickle appends, modifier edits, changes of plain, sharded and switching directories, built on each other's results) with 0-4 write and fetch faults instead of " +
		"crashes, random edits of single FSNodes, and nodes built and edited link by link; every root that results is judged by recomputing all sizes from the stored blocks.",
	Gen: func(r *harness.Rand, thorough bool) *harness.Case {
		c := genSession(r, thorough)
		for n := r.N(3); n > 0; n-- {
			c.Ops = append(c.Ops, harness.Op{K: "fsnode", B: int64(r.U() >> 44)})
		}
		return c
	},
	Exec: func(e *harness.Env) { runSessions(e, sizeTruth) }, Leak: true, Shrink: map[string]int64{"par": 1, "names": 0, "nseed": 0, "cid": 0, "raw": 0, "thr": 0}, Real: realAll, Stub: stubAll,
	Place: func(r *harness.Rand, c *harness.Case, counts map[string]int) {
		if r.P(50) {
			place(r, c, counts, append(append([]fk{}, readFaults...), writeFaults...), 4)
		}
	},
})
