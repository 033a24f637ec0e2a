package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"

	cid "github.com/ipfs/go-cid"
	chunker "github.com/ipfs/go-ipfs-chunker"
	files "github.com/ipfs/go-ipfs-files"
	ipld "github.com/ipfs/go-ipld-format"
	mdag "github.com/ipfs/go-merkledag"

	ft "github.com/ipfs/go-unixfs"
	unixfile "github.com/ipfs/go-unixfs/file"
	"github.com/ipfs/go-unixfs/hamt"
	uio "github.com/ipfs/go-unixfs/io"
	"github.com/ipfs/go-unixfs/mod"

	"verifsim/harness"
)

// A sort of node a store may hold.
const (
	ndFile     = iota // a file of any shape
	ndRaw             // a raw block
	ndDir             // plain directory
	ndHAMT            // sharded directory
	ndLink            // symlink
	ndMeta            // metadata, of whichever other node
	ndNoMeta          // metadata of nothing
	ndBadShard        // sharded directory no shard may be: by fanout or hash function
	ndUnknown         // a type the format does not know
	ndGarbage         // protobuf, but no UnixFS
	ndForeign         // not merkledag's
	nNodeKinds
)

// foreign is a node of some other implementation.
type foreign struct{ ipld.Node }

type typed struct {
	kind int
	nd   ipld.Node
	data []byte            // of a file, a link's target
	kids map[string]*typed // of a directory
	of   *typed            // of metadata
	bad  bool              // the metadata itself is malformed
}

func (t *typed) String() string {
	s := [...]string{"file", "raw block", "directory", "sharded directory", "symlink", "metadata", "metadata of nothing", "shard of impossible parameters", "node of unknown type", "node that is not UnixFS", "foreign node"}[t.kind]
	if t.of != nil {
		s += " of a " + t.of.String()
	}
	return s
}

// unclear: metadata of a raw block, which only some writers make.
func (t *typed) unclear() bool {
	return t.kind == ndMeta && (t.of.kind == ndRaw || t.of.unclear())
}

// file is what reading t amounts to: a file's content, or an error.
func (t *typed) file() (b []byte, doc error, ok bool) {
	switch t.kind {
	case ndFile, ndRaw:
		return t.data, nil, true
	case ndDir, ndHAMT, ndBadShard:
		return nil, uio.ErrIsDir, false
	case ndLink:
		return nil, uio.ErrCantReadSymlinks, false
	case ndUnknown:
		return nil, ft.ErrUnrecognizedType, false
	case ndForeign:
		return nil, uio.ErrUnkownNodeType, false
	case ndMeta:
		return t.of.file()
	}
	return nil, nil, false
}

func makeTyped(e *harness.Env, q ipld.DAGService, r *harness.Rand, kind, depth int) *typed {
	t := &typed{kind: kind}
	put := func(nd ipld.Node) {
		if err := q.Add(e.Ctx, nd); err != nil {
			e.Failf("setup", "%v", err)
		}
		t.nd = nd
	}
	pb := func(data []byte) *mdag.ProtoNode {
		nd := mdag.NodeWithData(data)
		nd.SetCidBuilder(cidBuilder(e.P("cid")))
		return nd
	}
	// fields only a shard should have mean nothing elsewhere
	odd := func(b []byte) []byte {
		if r.P(25) {
			b = append(append([]byte(nil), b...), 0x28, byte(hamt.HashMurmur3), 0x30, 16)
		}
		return b
	}
	named := func(nd *mdag.ProtoNode) { // gives it links
		t.kids = map[string]*typed{}
		for i := r.Small(5); i > 0; i-- {
			name := fmt.Sprintf("n%d", r.N(6))
			if t.kids[name] != nil {
				continue
			}
			t.kids[name] = makeTyped(e, q, r, []int{ndFile, ndRaw, ndLink, ndGarbage, ndUnknown, ndMeta, ndBadShard}[r.N(7)], depth+1)
			if err := nd.AddNodeLink(name, t.kids[name].nd); err != nil {
				e.Failf("setup", "%v", err)
			}
		}
	}
	switch kind {
	case ndFile:
		t.data = content(int64(r.N(1000)), int64(r.N(3)), int64(r.Small(60)))
		nd, err := makeFile(with(e, map[string]int64{"shape": int64(r.N(nShapes)), "chunk": int64(r.In(1, 9)), "mlinks": int64(r.In(2, 4)), "raw": int64(r.N(2)), "useed": int64(r.N(1000))}), q, t.data)
		if err != nil {
			e.Failf("setup", "%v", err)
		}
		if r.P(20) { // a leaf on its own
			nd = pb(odd(ft.WrapData(t.data)))
		}
		put(nd)
		if _, ok := nd.(*mdag.RawNode); ok {
			t.kind = ndRaw
		}
	case ndRaw:
		t.data = content(int64(r.N(1000)), 0, int64(r.Small(30)))
		put(mdag.NewRawNode(t.data))
	case ndDir:
		nd := pb(odd(ft.FolderPBData()))
		named(nd)
		put(nd)
	case ndHAMT:
		sh, err := hamt.NewShard(q, int(r.Pick(8, 16, 256)))
		if err != nil {
			e.Failf("setup", "%v", err)
		}
		sh.SetCidBuilder(cidBuilder(e.P("cid")))
		tmp := pb(nil)
		named(tmp)
		for _, l := range tmp.Links() {
			if err := sh.SetLink(e.Ctx, l.Name, l); err != nil {
				e.Failf("setup", "%v", err)
			}
		}
		nd, err := sh.Node()
		if err != nil {
			e.Failf("setup", "%v", err)
		}
		put(nd)
	case ndLink:
		t.data = []byte(fmt.Sprintf("../to/%d", r.N(99)))
		b, _ := ft.SymlinkData(string(t.data))
		put(pb(odd(b)))
	case ndMeta, ndNoMeta:
		b, err := ft.BytesForMetadata(&ft.Metadata{MimeType: "text/plain", Size: uint64(r.N(99))})
		if err != nil {
			e.Failf("setup", "%v", err)
		}
		if r.P(30) {
			t.bad = true
			fsn := ft.NewFSNode(ft.TMetadata)
			fsn.SetData([][]byte{{0xff}, {10, 200, 1, 'x'}, {10}}[r.N(3)])
			b, _ = fsn.GetBytes()
		}
		nd := pb(b)
		if kind == ndMeta {
			k := []int{ndFile, ndFile, ndFile, ndRaw, ndLink, ndUnknown, ndNoMeta, ndGarbage}[r.N(8)]
			if depth < 2 && r.P(20) {
				k = []int{ndDir, ndHAMT, ndMeta}[r.N(3)]
			}
			t.of = makeTyped(e, q, r, k, depth+1)
			if err := nd.AddNodeLink("", t.of.nd); err != nil {
				e.Failf("setup", "%v", err)
			}
		}
		put(nd)
	case ndBadShard:
		fan, hash := badFanout(r), uint64(hamt.HashMurmur3)
		if r.P(40) {
			fan, hash = uint64(r.Pick(8, 16, 256)), uint64(r.Pick(0, 1, 0x11, 0x12, 0x21, 0x23, 0x2200))
		}
		b, err := ft.HAMTShardData(nil, fan, hash)
		if err != nil {
			e.Failf("setup", "%v", err)
		}
		nd := pb(b)
		put(nd)
	case ndUnknown:
		put(pb([]byte{8, byte(6 + r.N(100)), 18, 2, 'h', 'i'}))
	case ndGarbage:
		nd := pb([][]byte{nil, {0xff}, []byte("hello"), {18, 9, 1}}[r.N(4)])
		named(nd)
		put(nd)
	case ndForeign:
		in := makeTyped(e, q, r, r.N(ndForeign), depth+1)
		t.nd = foreign{in.nd}
	}
	return t
}

// badFanout is a width that no shard may have: not a power of two, not a
// multiple of eight, or beyond 1024.
func badFanout(r *harness.Rand) uint64 {
	return uint64(r.Pick(0, 1, 2, 4, 3, 7, 9, 10, 12, 24, 48, 257, 264, 1000, 1023, 1032, 2048, 1<<16, 1<<20, 1<<31, 1<<32, 1<<40, 1<<62, -1))
}

type typeRun struct {
	e   *harness.Env
	dag ipld.DAGService
}

// refused judges an error where one is due; doc is the documented one, if any.
func (s *typeRun) refused(what string, t *typed, err, doc error) {
	e := s.e
	e.Check()
	switch {
	case err == nil:
		e.Failf("type-accepted", "%s takes a %v", what, t)
	case len(e.W.Fired) > 0:
	case doc != nil && !errors.Is(err, doc):
		e.Failf("type-error", "%s refuses a %v with %q, not %q", what, t, err, doc)
	default:
		e.Probe("refused " + what)
	}
}

// taken judges an error where none is due.
func (s *typeRun) taken(what string, t *typed, err error) bool {
	s.e.Check()
	if err == nil {
		s.e.Probe("taken " + what)
		return true
	}
	if len(s.e.W.Fired) == 0 {
		s.e.Failf("type-refused", "%s refuses a %v: %v", what, t, err)
	}
	blame(s.e, what, err, false)
	return false
}

func (s *typeRun) same(what string, t *typed, got, want []byte) {
	if !bytes.Equal(got, want) {
		s.e.Failf("type-content", "%s of a %v: %s", what, t, diff(got, want))
	}
}

func (s *typeRun) files(t *typed, n files.Node, err error, depth int) {
	e := s.e
	const what = "NewUnixfsFile"
	if t.unclear() {
		return
	}
	switch t.kind {
	case ndLink:
		if !s.taken(what, t, err) {
			return
		}
		l, ok := n.(*files.Symlink)
		if !ok {
			e.Failf("type-kind", "a symlink is shown as %T", n)
		}
		s.same(what, t, []byte(l.Target), t.data)
	case ndDir, ndHAMT:
		if !s.taken(what, t, err) {
			return
		}
		d, ok := n.(files.Directory)
		if !ok {
			e.Failf("type-kind", "a %v is shown as %T", t, n)
		}
		it := d.Entries()
		seen := 0
		for it.Next() {
			k := t.kids[it.Name()]
			if k == nil {
				e.Failf("type-entry", "a %v shows an entry %q", t, it.Name())
			}
			s.files(k, it.Node(), nil, depth+1)
			seen++
		}
		bad := 0
		for _, k := range t.kids {
			if k.unclear() {
				return
			}
			if _, _, ok := k.file(); !ok && k.kind != ndLink && k.kind != ndDir && k.kind != ndHAMT {
				bad++
			}
		}
		switch err := it.Err(); {
		case bad > 0:
			s.refused("an entry", t, err, nil)
		case s.taken("an entry", t, err) && seen != len(t.kids):
			e.Failf("type-entry", "a %v shows %d of its %d entries", t, seen, len(t.kids))
		}
	default:
		b, doc, ok := t.file()
		if !ok {
			s.refused(what, t, err, map[bool]error{true: doc}[t.kind != ndForeign && t.kind != ndBadShard])
			return
		}
		if !s.taken(what, t, err) {
			return
		}
		f, ok := n.(files.File)
		if !ok {
			e.Failf("type-kind", "a %v is shown as %T", t, n)
		}
		if sz, err := f.Size(); err != nil || sz != int64(len(b)) {
			e.Failf("type-content", "the size of a %v is %d, %v, want %d", t, sz, err, len(b))
		}
		got, err := io.ReadAll(f)
		if err == nil || len(e.W.Fired) == 0 {
			s.same("reading", t, got, b)
		}
		f.Close()
	}
}

func (s *typeRun) step(op harness.Op, t *typed) {
	e, dag, nd := s.e, s.dag, t.nd
	e.Logf("%s of a %v", op.K, t)
	if t.unclear() && (op.K == "read" || op.K == "file") {
		return
	}
	switch op.K {
	case "read":
		b, doc, ok := t.file()
		dr, err := uio.NewDagReader(e.Ctx, nd, dag)
		if !ok {
			s.refused("NewDagReader", t, err, doc)
			return
		}
		if !s.taken("NewDagReader", t, err) {
			return
		}
		if dr.Size() != uint64(len(b)) {
			e.Failf("type-content", "the size of a %v is %d, want %d", t, dr.Size(), len(b))
		}
		got, err := io.ReadAll(dr)
		if err == nil || len(e.W.Fired) == 0 {
			s.same("reading", t, got, b)
		}
		dr.Close()
	case "file":
		f, err := unixfile.NewUnixfsFile(e.Ctx, dag, nd)
		s.files(t, f, err, 0)
	case "dir":
		d, err := uio.NewDirectoryFromNode(dag, nd)
		if t.kind != ndDir && t.kind != ndHAMT {
			var doc error = uio.ErrNotADir
			if t.kind == ndGarbage || t.kind == ndBadShard {
				doc = nil
			}
			s.refused("NewDirectoryFromNode", t, err, doc)
			return
		}
		if !s.taken("NewDirectoryFromNode", t, err) {
			return
		}
		if isHAMT(d) != (t.kind == ndHAMT) {
			e.Failf("type-kind", "a %v opens as %T", t, d.(*uio.DynamicDirectory).Directory)
		}
		ls, err := d.Links(e.Ctx)
		if !s.taken("Links", t, err) {
			return
		}
		for _, l := range ls {
			if k := t.kids[l.Name]; k == nil || !k.nd.Cid().Equals(l.Cid) {
				e.Failf("type-entry", "a %v has an entry %q of %s", t, l.Name, l.Cid)
			}
		}
		if len(ls) != len(t.kids) {
			e.Failf("type-entry", "a %v lists %d of its %d entries", t, len(ls), len(t.kids))
		}
	case "shard":
		r := harness.NewRand(uint64(op.B)*nNodeKinds + uint64(op.A))
		fan := badFanout(r)
		_, err := hamt.NewShard(dag, int(fan))
		if e.Check(); err == nil {
			e.Failf("type-accepted", "NewShard makes shards %d wide", int(fan))
		}
	case "hamt":
		_, err := hamt.NewHamtFromDag(dag, nd)
		switch t.kind {
		case ndHAMT:
			s.taken("NewHamtFromDag", t, err)
		case ndRaw, ndForeign:
			s.refused("NewHamtFromDag", t, err, mdag.ErrNotProtobuf)
		default:
			s.refused("NewHamtFromDag", t, err, nil)
		}
	case "mod":
		dm, err := mod.NewDagModifier(e.Ctx, nd, dag, func(r io.Reader) chunker.Splitter { return chunker.NewSizeSplitter(r, 8) })
		switch t.kind {
		case ndForeign:
			s.refused("NewDagModifier", t, err, mod.ErrNotUnixfs)
		case ndFile, ndRaw:
			if !s.taken("NewDagModifier", t, err) {
				return
			}
			if n, err := dm.Size(); err != nil || n != int64(len(t.data)) {
				e.Failf("type-content", "the modifier's size of a %v is %d, %v, want %d", t, n, err, len(t.data))
			}
		case ndGarbage:
			if err == nil {
				_, err = dm.Size()
			}
			s.refused("Size", t, err, nil)
		}
	case "resolve":
		name := fmt.Sprintf("n%d", op.B%6)
		l, rest, err := uio.ResolveUnixfsOnce(e.Ctx, dag, nd, []string{name, "on"})
		k := t.kids[name]
		if t.kind == ndForeign {
			return // as its own method sees fit
		}
		if k == nil {
			s.refused("ResolveUnixfsOnce", t, err, nil)
			if len(e.W.Fired) == 0 && !notExist(err) && t.kind != ndBadShard {
				e.Failf("type-error", "resolving a name that a %v does not have fails with %q", t, err)
			}
			return
		}
		if s.taken("ResolveUnixfsOnce", t, err) && (!l.Cid.Equals(k.nd.Cid()) || len(rest) != 1 || rest[0] != "on") {
			e.Failf("type-entry", "resolving %q of a %v leads to %v, left %q", name, t, l, rest)
		}
	case "data":
		b, err := ft.ReadUnixFSNodeData(nd)
		switch {
		case t.kind == ndRaw:
			if s.taken("ReadUnixFSNodeData", t, err) {
				s.same("data", t, b, t.data)
			}
		case t.kind == ndFile:
			if s.taken("ReadUnixFSNodeData", t, err) && len(nd.Links()) == 0 {
				s.same("data", t, b, t.data)
			}
		case t.kind == ndForeign:
			s.refused("ReadUnixFSNodeData", t, err, ft.ErrUnrecognizedType)
		default:
			s.refused("ReadUnixFSNodeData", t, err, nil)
		}
		f, err := ft.ExtractFSNode(nd)
		if t.kind == ndRaw || t.kind == ndForeign || t.kind == ndGarbage {
			s.refused("ExtractFSNode", t, err, nil)
		} else if s.taken("ExtractFSNode", t, err) && f.IsDir() != (t.kind == ndDir || t.kind == ndHAMT || t.kind == ndBadShard) {
			e.Failf("type-kind", "IsDir of a %v is %v", t, f.IsDir())
		}
		p, ok := nd.(*mdag.ProtoNode)
		if !ok {
			return
		}
		n, err := ft.DataSize(p.Data())
		if t.kind == ndFile || t.kind == ndLink {
			if s.taken("DataSize", t, err) && n != uint64(len(t.data)) {
				e.Failf("type-content", "DataSize of a %v of %d bytes is %d", t, len(t.data), n)
			}
		} else {
			s.refused("DataSize", t, err, nil)
		}
		_, err = ft.MetadataFromBytes(p.Data())
		if !t.bad && (t.kind == ndMeta || t.kind == ndNoMeta) {
			s.taken("MetadataFromBytes", t, err)
		} else {
			s.refused("MetadataFromBytes", t, err, nil)
		}
	}
}

func execTypes(e *harness.Env) {
	q := e.W.Quiet()
	r := harness.NewRand(uint64(e.P("tseed")))
	uio.HAMTShardingSize, uio.DefaultShardWidth = 0, 16
	var ts []*typed
	for _, op := range e.C.Ops {
		ts = append(ts, makeTyped(e, q, r, int(op.A)%nNodeKinds, 0))
	}
	e.W.Split()
	s := &typeRun{e, e.W.DAG()}
	e.W.Armed = true
	for i, op := range e.C.Ops {
		s.step(op, ts[i])
	}
	for _, t := range ts { // looking at them has changed none
		if c, err := cid.Cast(t.nd.Cid().Bytes()); err != nil || !c.Equals(t.nd.Cid()) {
			e.Failf("type-content", "a %v has the CID %v", t, t.nd.Cid())
		}
	}
}

var _ = register(&harness.Prop{
	ID: "U27", Title: "Each entry point takes what it is for and refuses the rest by name",
	Rule: "2-8 nodes of eleven kinds (files of all shapes, raw blocks, plain and sharded directories with entries of these kinds, symlinks, well-formed and malformed metadata of any of these and of nothing, shards of impossible parameters, unknown types, other protobuf, foreign implementations), each " +
		"handed to one of eight entry points (reader, files.Node view, directory, shard, new shard, modifier, lookup, format functions), over a store with latency and remote blocks, with 0-2 faults.",
	Gen: func(r *harness.Rand, thorough bool) *harness.Case {
		c := &harness.Case{P: map[string]int64{}, World: r.World(), Sched: r.Sched()}
		c.P["cid"] = r.Pick(0, 0, 1, 1, 2, 3)
		c.P["tseed"] = int64(r.U() >> 40)
		for i := r.In(2, 8); i > 0; i-- {
			c.Ops = append(c.Ops, harness.Op{K: r.PickS("read", "file", "dir", "hamt", "mod", "resolve", "data", "shard"), A: int64(r.N(nNodeKinds)), B: int64(r.N(600))})
		}
		return c
	},
	Exec: execTypes, Leak: true, Shrink: map[string]int64{"cid": 0}, Real: realAll, Stub: stubAll,
	Place: func(r *harness.Rand, c *harness.Case, counts map[string]int) {
		if r.P(30) {
			place(r, c, counts, readFaults, 2)
		}
	},
})
