package props

import (
	"errors"
	"fmt"
	"io"
	"os"
	"time"

	"context"
	cid "github.com/ipfs/go-cid"
	chunker "github.com/ipfs/go-ipfs-chunker"
	pi "github.com/ipfs/go-ipfs-posinfo"
	ipld "github.com/ipfs/go-ipld-format"
	mdag "github.com/ipfs/go-merkledag"

	ft "github.com/ipfs/go-unixfs"
	"github.com/ipfs/go-unixfs/importer"
	"github.com/ipfs/go-unixfs/importer/balanced"
	help "github.com/ipfs/go-unixfs/importer/helpers"
	"github.com/ipfs/go-unixfs/importer/trickle"

	"verifsim/harness"
	"verifsim/simrt"
	"verifsim/world"
)

// stream is the input of an import: it delivers its bytes in odd pieces and
// may fail.
type stream struct {
	e    *harness.Env
	data []byte
	r    *harness.Rand // nil: everything at once
	off  int
	n    int
	bad  error // the error delivered, if any
}

func (s *stream) Read(p []byte) (int, error) {
	if s.bad != nil {
		return 0, s.bad
	}
	if len(p) == 0 {
		return 0, nil
	}
	k := min(len(p), len(s.data)-s.off)
	if s.r != nil {
		s.n++
		if f := s.e.W.Hit("stream"); f != nil {
			if f.Do == "errdata" { // some data together with the error
				k = min(k, int(f.Arg)%4)
			} else {
				k = 0
			}
			copy(p, s.data[s.off:s.off+k])
			s.off += k
			s.bad = fmt.Errorf("stream: %w", world.ErrInjected)
			return k, s.bad
		}
		switch s.r.N(8) {
		case 0:
			simrt.Yield()
		case 1:
			s.e.W.S.Sleep(int64(s.r.N(1000000)))
		case 2:
			if s.n%5 == 0 && s.off < len(s.data) {
				return 0, nil
			}
		}
		if k > 1 && s.r.P(70) {
			k = s.r.In(1, k)
		}
	}
	copy(p, s.data[s.off:s.off+k])
	s.off += k
	if s.off == len(s.data) && (k == 0 || s.r != nil && s.r.P(50)) {
		return k, io.EOF
	}
	return k, nil
}

type fileStream struct{ *stream }

func (fileStream) AbsPath() string   { return "/scratch/none" }
func (fileStream) Stat() os.FileInfo { return fakeStat{} }

func (fileStream) Close() error           { return nil }
func (s fileStream) Size() (int64, error) { return int64(len(s.data)), nil }

type fakeStat struct{}

func (fakeStat) Name() string       { return "none" }
func (fakeStat) Size() int64        { return 0 }
func (fakeStat) Mode() os.FileMode  { return 0o644 }
func (fakeStat) ModTime() time.Time { return time.Time{} }
func (fakeStat) IsDir() bool        { return false }
func (fakeStat) Sys() any           { return nil }

// varSplitter cuts the stream into chunks of varying size.
type varSplitter struct {
	rd io.Reader
	k  int64
	n  int64
}

func (v *varSplitter) Reader() io.Reader { return v.rd }
func (v *varSplitter) size() int64 {
	v.n++
	return 1 + (v.n*7+v.n*v.n*3)%(2*v.k)
}
func (v *varSplitter) NextBytes() ([]byte, error) {
	b := make([]byte, v.size())
	n, err := io.ReadFull(v.rd, b)
	if err == io.ErrUnexpectedEOF {
		return b[:n:n], nil
	}
	if err != nil {
		return nil, err
	}
	return b, nil
}

// spy sees every node handed to the DAG service.
type spy struct {
	ipld.DAGService
	onAdd func(n ipld.Node)
}

func (s spy) Add(ctx context.Context, n ipld.Node) error { s.onAdd(n); return s.DAGService.Add(ctx, n) }
func (s spy) AddMany(ctx context.Context, ns []ipld.Node) error {
	for _, n := range ns {
		s.onAdd(n)
	}
	return s.DAGService.AddMany(ctx, ns)
}

// chunkLens is how the splitter in use cuts the data.
func chunkLens(e *harness.Env, n int64) []int64 {
	var out []int64
	v := &varSplitter{k: max(1, e.P("chunk"))}
	for n > 0 {
		k := max(1, e.P("chunk"))
		if e.P("var") == 1 {
			k = v.size()
		}
		k = min(k, n)
		out = append(out, k)
		n -= k
	}
	return out
}

func splitterFor(e *harness.Env, s *stream) chunker.Splitter {
	var rd io.Reader = s
	if e.P("nocopy") == 1 {
		rd = fileStream{s}
	}
	if e.P("var") == 1 {
		return &varSplitter{rd: rd, k: max(1, e.P("chunk"))}
	}
	return chunker.NewSizeSplitter(rd, max(1, e.P("chunk")))
}

// doImport runs one import of data through the code under test.
func doImport(e *harness.Env, dag ipld.DAGService, s *stream) (ipld.Node, error) {
	spl := splitterFor(e, s)
	if e.P("wrap") == 1 {
		help.DefaultLinksPerBlock = int(e.P("mlinks"))
		if e.P("shape") == shTrickle {
			return importer.BuildTrickleDagFromReader(dag, spl)
		}
		return importer.BuildDagFromReader(dag, spl)
	}
	dbp := buildParams(e, dag)
	dbp.NoCopy = e.P("nocopy") == 1
	db, err := dbp.New(spl)
	if err != nil {
		return nil, err
	}
	if e.P("shape") == shTrickle {
		return trickle.Layout(db)
	}
	return balanced.Layout(db)
}

// tree is the shape of a file: leaf lengths, nested.
type tree struct {
	leaf int64
	kids []*tree
}

func (t *tree) String() string {
	if t == nil {
		return "nil"
	}
	if t.kids == nil {
		return fmt.Sprint(t.leaf)
	}
	s := "("
	for i, k := range t.kids {
		if i > 0 {
			s += " "
		}
		s += k.String()
	}
	return s + ")"
}

func balancedTree(chunks []int64, m int) *tree {
	if len(chunks) == 0 {
		return &tree{}
	}
	var lvl []*tree
	for _, c := range chunks {
		lvl = append(lvl, &tree{leaf: c})
	}
	for len(lvl) > 1 {
		var up []*tree
		for len(lvl) > 0 {
			k := min(m, len(lvl))
			up = append(up, &tree{kids: lvl[:k:k]})
			lvl = lvl[k:]
		}
		lvl = up
	}
	return lvl[0]
}

// trickleTree: direct leaves first, then, for each depth, four subtrees.
func trickleTree(chunks *[]int64, m, maxDepth int) *tree {
	t := &tree{kids: []*tree{}}
	for len(t.kids) < m && len(*chunks) > 0 {
		t.kids = append(t.kids, &tree{leaf: (*chunks)[0]})
		*chunks = (*chunks)[1:]
	}
	for d := 1; (maxDepth < 0 || d < maxDepth) && len(*chunks) > 0; d++ {
		for i := 0; i < 4 && len(*chunks) > 0; i++ {
			t.kids = append(t.kids, trickleTree(chunks, m, d))
		}
	}
	return t
}

func storedTree(w *world.World, c cid.Cid) (*tree, error) {
	nd, err := getNode(w, c)
	if err != nil {
		return nil, err
	}
	if r, ok := nd.(*mdag.RawNode); ok {
		return &tree{leaf: int64(len(r.RawData()))}, nil
	}
	if len(nd.Links()) == 0 {
		u, err := decodeUnixfs(nd.(*mdag.ProtoNode).Data())
		if err != nil {
			return nil, err
		}
		return &tree{leaf: int64(len(u.data))}, nil
	}
	t := &tree{}
	for _, l := range nd.Links() {
		k, err := storedTree(w, l.Cid)
		if err != nil {
			return nil, err
		}
		t.kids = append(t.kids, k)
	}
	return t, nil
}

func genImport(r *harness.Rand, thorough bool) *harness.Case {
	c := &harness.Case{P: map[string]int64{}, World: r.World(), Sched: r.Sched()}
	shapeParams(r, c.P, thorough)
	c.P["shape"] = int64(r.Pick(shBalanced, shTrickle))
	if c.P["shape"] == shTrickle && r.P(10) {
		c.P["mlinks"] = 1
	}
	c.P["var"] = int64(b2i(r.P(25)))
	c.P["rseed"] = int64(r.U() >> 40)
	if r.P(6) {
		c.P["limit"] = int64(r.In(1, 26)) // largest block (this too is a knob)
	}
	if r.P(15) {
		c.P["wrap"], c.P["raw"], c.P["cid"] = 1, 0, 0
	} else if r.P(15) {
		c.P["nocopy"] = r.Pick(1, 1, 1, 1, 2)
	}
	return c
}

// checkImported judges a root returned by an import.
func checkImported(e *harness.Env, root ipld.Node, data []byte) {
	e.Check()
	got, err := fileBytes(e.W, root.Cid())
	if err != nil {
		e.Failf("import-incomplete", "the import succeeded but its result cannot be read from the store: %v", err)
	}
	if !eq(got, data) {
		e.Failf("import-content", "the stored file is not the input: %s", diff(got, data))
	}
	if err := sizes(e.W, root.Cid()); err != nil {
		e.Failf("import-sizes", "%v", err)
	}
	sh, err := storedTree(e.W, root.Cid())
	if err != nil {
		e.Failf("import-incomplete", "%v", err)
	}
	cl := chunkLens(e, int64(len(data)))
	var want *tree
	if e.P("shape") == shTrickle {
		want = trickleTree(&cl, int(e.P("mlinks")), -1)
	} else {
		want = balancedTree(cl, int(e.P("mlinks")))
	}
	if ws := want.String(); sh.String() != ws && !(ws == "()" && sh.String() == "0") {
		e.Failf("import-shape", "the tree is %s, the layout calls for %s", sh, ws)
	}
}

func execImport(e *harness.Env) {
	if defLinks != 174 || defLimit != 1<<20 {
		e.Failf("defaults", "by default nodes have %d links and blocks %d bytes", defLinks, defLimit)
	}
	data := content(e.P("cseed"), e.P("kind"), e.P("len"))
	var s *stream
	var posErr error
	dag := ipld.DAGService(spy{e.W.DAG(), func(n ipld.Node) {
		if f, ok := n.(*pi.FilestoreNode); ok {
			o := int64(f.PosInfo.Offset)
			raw := n.RawData()
			if o+int64(len(raw)) > int64(len(data)) || !eq(raw, data[o:o+int64(len(raw))]) || f.PosInfo.FullPath != "/scratch/none" || f.PosInfo.Stat != os.FileInfo(fakeStat{}) {
				posErr = fmt.Errorf("block of %d bytes is recorded at offset %d of %q, where the file holds something else", len(raw), o, f.PosInfo.FullPath)
			}
		} else if _, raw := n.(*mdag.RawNode); raw && e.P("nocopy") == 1 && e.P("raw") == 1 && len(data) > 0 {
			posErr = errors.New("a raw leaf was stored without its position in the file")
		}
	}})
	if e.P("nocopy") == 2 { // references asked for, but the input is no file
		_, err := (&help.DagBuilderParams{Maxlinks: 8, Dagserv: dag, NoCopy: true, RawLeaves: true}).New(splitterFor(e, &stream{e: e, data: data}))
		if !errors.Is(err, help.ErrMissingFsRef) {
			e.Failf("import-position", "an import that is to refer to a file, of an input that is no file, gives the error %v", err)
		}
		e.Check()
	}
	imp := func(odd bool) (ipld.Node, error) {
		s = &stream{e: e, data: data}
		if odd {
			s.r = harness.NewRand(uint64(e.P("rseed")))
		}
		nd, err := doImport(e, dag, s)
		if posErr != nil {
			e.Failf("import-position", "%v", posErr)
		}
		return nd, err
	}
	e.W.Armed = true
	over := false
	if l := e.P("limit"); l > 0 {
		help.BlockSizeLimit = int(l)
		for _, n := range chunkLens(e, int64(len(data))) {
			over = over || n > l
		}
	}
	root, err := imp(true)
	bad := 0
	for k, n := range e.W.Fired {
		if k != "put:slow" && k != "put:crash" {
			bad += n
		}
	}
	e.W.Armed = false
	e.Logf("import: %v", err)
	if over {
		if err == nil {
			e.Failf("import-limit", "an import with chunks above the block size limit of %d succeeds", e.P("limit"))
		}
		if _, err := imp(false); !errors.Is(err, help.ErrSizeLimitExceeded) {
			e.Failf("import-limit", "an import with chunks above the block size limit of %d gives the error %v", e.P("limit"), err)
		}
		e.Check()
		e.Probe("above the block size limit")
		return
	}
	switch {
	case err == nil && bad > 0:
		checkImported(e, root, data)
		e.Failf("import-swallowed", "the import succeeded although %s", harness.JSON(e.W.Fired))
	case err == nil:
		checkImported(e, root, data)
	case bad == 0:
		e.Failf("import-error", "unexpected error %v", err)
	default:
		e.Check()
		e.Probe("failed import")
		blame(e, "the import", err, false, s.bad)
		root = nil // a node may accompany the error; it means nothing
		ours := errors.Is(err, world.ErrInjected) ||
			e.W.Fired["put:ctxerr"] > 0 && (errors.Is(err, context.Canceled) || errors.Is(err, context.DeadlineExceeded))
		if s.bad != nil && !ours {
			e.Failf("import-wrong-error", "the input failed with %q but the import reports %q", s.bad, err)
		}
	}
	// again, undisturbed: whatever happened before makes no difference
	root2, err := imp(false)
	if err != nil {
		e.Failf("import-error", "an undisturbed import fails: %v", err)
	}
	checkImported(e, root2, data)
	if root != nil && !root.Cid().Equals(root2.Cid()) {
		e.Failf("import-nondeterministic", "the same input gave %s and then %s", root.Cid(), root2.Cid())
	}
	if e.P("rseed")%4 == 0 {
		handBuilt(e, dag, data)
	}
	e.Logf("root %s", root2.Cid())
}

// handBuilt takes the chunks from the builder one by one, as layouts of other
// packages do: Done may be asked at any time, any number of times.
func handBuilt(e *harness.Env, dag ipld.DAGService, data []byte) {
	r := harness.NewRand(uint64(e.P("rseed")) + 7)
	st := &stream{e: e, data: data}
	db, err := (&help.DagBuilderParams{Maxlinks: int(e.P("mlinks")), Dagserv: dag, RawLeaves: e.P("raw") == 1}).New(splitterFor(e, st))
	if err != nil {
		e.Failf("import-error", "New: %v", err)
	}
	if db.Maxlinks() != int(e.P("mlinks")) || db.GetDagServ() == nil {
		e.Failf("import-builder", "the builder has %d links for %d, or no DAG service", db.Maxlinks(), e.P("mlinks"))
	}
	cl := chunkLens(e, int64(len(data)))
	var off int64
	for i := 0; ; i++ {
		for r.N(100) < 40 {
			if done := db.Done(); done != (i >= len(cl)) {
				e.Failf("import-builder", "Done after %d of %d chunks: %v", i, len(cl), done)
			}
		}
		var b []byte
		if r.N(100) < 30 && i < len(cl) {
			nd, n, err := db.NewLeafDataNode(ft.TFile)
			if err != nil || n != uint64(cl[i]) {
				e.Failf("import-builder", "NewLeafDataNode: %d bytes of %d, %v", n, cl[i], err)
			}
			if b, err = leafData(nd); err != nil {
				e.Failf("import-builder", "NewLeafDataNode: %v", err)
			}
		} else if b, err = db.Next(); err != nil {
			e.Failf("import-builder", "Next after %d of %d chunks: %v", i, len(cl), err)
		}
		if i >= len(cl) {
			if b != nil {
				e.Failf("import-builder", "Next after the end returns %d bytes", len(b))
			}
			if i > len(cl)+2 {
				break
			}
			continue
		}
		if !eq(b, data[off:off+cl[i]]) {
			e.Failf("import-builder", "chunk %d of %d: %s", i, len(cl), diff(b, data[off:off+cl[i]]))
		}
		off += cl[i]
	}
	e.Check()
}

func leafData(nd ipld.Node) ([]byte, error) {
	switch n := nd.(type) {
	case *mdag.RawNode:
		return n.RawData(), nil
	case *mdag.ProtoNode:
		f, err := ft.FSNodeFromBytes(n.Data())
		if err != nil {
			return nil, err
		}
		return f.Data(), nil
	}
	return nil, fmt.Errorf("a leaf is a %T", nd)
}

var importShrink = map[string]int64{"len": 0, "raw": 0, "cid": 0, "kind": 0, "chunk": 1, "var": 0, "wrap": 0, "nocopy": 0, "limit": 0}

var _ = register(&harness.Prop{
	ID:    "U04",
	Title: "Importing stores exactly the input, in exactly the layout asked for",
	Rule: "Balanced and trickle imports (directly, through the importer package and with file references, also without a file to refer to) of 0-160 chunks, fanouts 2-174, fixed and varying chunk sizes, raw or protobuf leaves, four CID " +
		"formats, from a stream that delivers odd pieces with delays, into a store with latency; then once more undisturbed.",
	Gen: genImport, Exec: execImport, Leak: true, Shrink: importShrink, Real: realAll, Stub: append([]string{"input stream (odd pieces, delays, errors)"}, stubAll...),
})

var _ = register(&harness.Prop{
	ID:    "U05",
	Title: "A failing store or input never yields a successful import",
	Rule:  "The imports of U04 with 1-3 faults among the writes and the reads of the input (with and without data); a failed import is then repeated without faults.",
	Gen:   genImport, Exec: execImport, Leak: true, Shrink: importShrink, Real: realAll, Stub: append([]string{"input stream (odd pieces, delays, errors)"}, stubAll...),
	Place: func(r *harness.Rand, c *harness.Case, counts map[string]int) {
		place(r, c, counts, []fk{writeFaults[0], {"stream", []string{"err", "errdata"}}}, 3)
	},
})
