package props

import (
	"encoding/binary"
	"fmt"
	"slices"
	"sort"

	cid "github.com/ipfs/go-cid"
	mdag "github.com/ipfs/go-merkledag"

	ft "github.com/ipfs/go-unixfs"
	"github.com/ipfs/go-unixfs/importer/trickle"
	ftpb "github.com/ipfs/go-unixfs/pb"

	"verifsim/harness"
)

// ---- the formats, written down independently ----

func uv(b []byte, v uint64) []byte { return binary.AppendUvarint(b, v) }

// field appends one length-delimited protobuf field.
func field(b []byte, n uint64, v []byte) []byte {
	return append(uv(uv(b, n<<3|2), uint64(len(v))), v...)
}

// encUnixfs is the UnixFS message: fields in the order of their numbers, an
// absent one not at all, block sizes one by one.
func encUnixfs(u *udata) []byte {
	b := uv([]byte{1 << 3}, u.typ)
	if len(u.data) > 0 || u.hasData {
		b = field(b, 2, u.data)
	}
	if u.hasSize {
		b = uv(append(b, 3<<3), u.filesize)
	}
	for _, s := range u.blocksizes {
		b = uv(append(b, 4<<3), s)
	}
	if u.typ == tHAMT {
		b = uv(append(b, 5<<3), u.hashType)
		b = uv(append(b, 6<<3), u.fanout)
	}
	return b
}

type rlink struct {
	name string
	c    cid.Cid
	size uint64
}

// encNode is the dag-pb message: links by name, each with all three fields,
// then the data.
func encNode(links []rlink, data []byte) []byte {
	links = append([]rlink(nil), links...)
	sort.SliceStable(links, func(i, j int) bool { return links[i].name < links[j].name })
	var b []byte
	for _, l := range links {
		lb := field(nil, 1, l.c.Bytes())
		lb = field(lb, 2, []byte(l.name))
		lb = uv(append(lb, 3<<3), l.size)
		b = field(b, 2, lb)
	}
	if len(data) > 0 {
		b = field(b, 1, data)
	}
	return b
}

// rnode is a reference node.
type rnode struct {
	c   cid.Cid
	b   []byte
	cum uint64 // with everything below it
	n   uint64 // bytes of the file
}

func sum(e *harness.Env, p cid.Prefix, b []byte) cid.Cid {
	c, err := p.Sum(b)
	if err != nil {
		e.Failf("setup", "%v", err)
	}
	return c
}

// refFile encodes a file of the given shape.
func refFile(e *harness.Env, t *tree, data *[]byte, leafType uint64, raw bool, p cid.Prefix) rnode {
	if t.kids == nil {
		d := (*data)[:t.leaf]
		*data = (*data)[t.leaf:]
		if raw {
			p.Version, p.Codec = 1, cid.Raw
			return rnode{sum(e, p, d), d, uint64(len(d)), uint64(len(d))}
		}
		b := encNode(nil, encUnixfs(&udata{typ: leafType, data: d, hasSize: true, filesize: uint64(len(d))}))
		return rnode{sum(e, p, b), b, uint64(len(b)), uint64(len(d))}
	}
	u := &udata{typ: tFile, hasSize: true}
	var ls []rlink
	var cum uint64
	for _, k := range t.kids {
		r := refFile(e, k, data, leafType, raw, p)
		u.blocksizes = append(u.blocksizes, r.n)
		u.filesize += r.n
		cum += r.cum
		ls = append(ls, rlink{"", r.c, r.cum})
	}
	b := encNode(ls, encUnixfs(u))
	return rnode{sum(e, p, b), b, cum + uint64(len(b)), u.filesize}
}

// refDir encodes a directory.
func refDir(e *harness.Env, m dirModel, sharded bool, width uint64, p cid.Prefix) rnode {
	var names []string
	for k := range m {
		names = append(names, k)
	}
	sort.Strings(names)
	link := func(prefix, name string) rlink {
		c, err := cid.Cast([]byte(m[name].cid))
		if err != nil {
			e.Failf("setup", "%v", err)
		}
		return rlink{prefix + name, c, m[name].size}
	}
	if !sharded {
		var ls []rlink
		var cum uint64
		for _, n := range names {
			ls = append(ls, link("", n))
			cum += m[n].size
		}
		b := encNode(ls, encUnixfs(&udata{typ: tDirectory}))
		return rnode{sum(e, p, b), b, cum + uint64(len(b)), 0}
	}
	lg := 0
	for 1<<lg < width {
		lg++
	}
	pad := len(fmt.Sprintf("%X", width-1))
	var rec func(names []string, depth int) rnode
	rec = func(names []string, depth int) rnode {
		slots := map[uint64][]string{}
		for _, n := range names {
			i := nameHash(n) << uint(depth*lg) >> uint(64-lg)
			slots[i] = append(slots[i], n)
		}
		bits := make([]byte, width/8)
		var ls []rlink
		var cum uint64
		for i := uint64(0); i < width; i++ {
			in := slots[i]
			if len(in) == 0 {
				continue
			}
			bits[uint64(len(bits))-1-i/8] |= 1 << (i % 8)
			pre := fmt.Sprintf("%0*X", pad, i)
			var l rlink
			if len(in) == 1 {
				l = link(pre, in[0])
			} else {
				r := rec(in, depth+1)
				l = rlink{pre, r.c, r.cum}
			}
			ls = append(ls, l)
			cum += l.size
		}
		for len(bits) > 0 && bits[0] == 0 {
			bits = bits[1:]
		}
		b := encNode(ls, encUnixfs(&udata{typ: tHAMT, data: bits, hashType: 0x22, fanout: width}))
		return rnode{sum(e, p, b), b, cum + uint64(len(b)), 0}
	}
	return rec(names, 0)
}

// canonical: every node below c is the format's one encoding of what it says.
func canonicalNodes(e *harness.Env, what string, c cid.Cid) {
	nd, err := getNode(e.W, c)
	if err != nil {
		e.Failf("bytes-missing", "the result of %s: %v", what, err)
	}
	p, ok := nd.(*mdag.ProtoNode)
	if !ok {
		return
	}
	u, err := decodeUnixfs(p.Data())
	if err != nil {
		e.Failf("bytes-node", "node %s of the result of %s: %v", c, what, err)
	}
	if u.typ > tHAMT {
		e.Failf("bytes-node", "node %s of the result of %s has type %d", c, what, u.typ)
	}
	if len(p.Links()) > 0 && u.typ != tFile {
		e.Failf("bytes-node", "node %s of the result of %s has children and type %d", c, what, u.typ)
	}
	u.hasSize = u.typ == tFile || u.typ == tRaw
	var ls []rlink
	for _, l := range p.Links() {
		ls = append(ls, rlink{l.Name, l.Cid, l.Size})
	}
	if want := encNode(ls, encUnixfs(u)); !eq(want, e.W.Blocks[string(c.Hash())].RawData()) {
		e.Failf("bytes-node", "node %s of the result of %s is stored as %x, the format calls for %x", c, what, e.W.Blocks[string(c.Hash())].RawData(), want)
	}
	for _, l := range p.Links() {
		canonicalNodes(e, what, l.Cid)
	}
}

func sameNode(e *harness.Env, what string, got cid.Cid, want rnode) {
	e.Check()
	if got.Equals(want.c) {
		return
	}
	stored := []byte(nil)
	if b := e.W.Blocks[string(got.Hash())]; b != nil {
		stored = b.RawData()
	}
	e.Failf("bytes-root", "the root of %s is %s (%x), the format calls for %s (%x)", what, got, stored, want.c, want.b)
}

// wholeFile is the reference of the case's import of data.
func wholeFile(e *harness.Env, chunks []int64, data []byte) rnode {
	lt := uint64(tFile)
	var t *tree
	if e.P("shape") == shTrickle {
		lt = tRaw
		t = trickleTree(&chunks, int(e.P("mlinks")), -1)
	} else {
		t = balancedTree(chunks, int(e.P("mlinks")))
	}
	k := e.P("cid")
	return refFile(e, t, &data, lt, e.P("raw") == 1, prefixOf(k))
}

func bytesImport(e *harness.Env) {
	data := content(e.P("cseed"), e.P("kind"), e.P("len"))
	chunks := chunkLens(e, int64(len(data)))
	var root cid.Cid
	imp := func() error {
		nd, err := doImport(e, e.W.DAG(), &stream{e: e, data: data, r: harness.NewRand(uint64(e.P("rseed")))})
		if err == nil {
			root = nd.Cid()
		}
		return err
	}
	e.W.Armed = true
	err := imp()
	e.W.Armed = false
	if err != nil {
		if len(e.W.Fired) == 0 {
			e.Failf("bytes-error", "import: unexpected error %v", err)
		}
		if err = imp(); err != nil {
			e.Failf("bytes-error", "an undisturbed import fails: %v", err)
		}
	}
	sameNode(e, "an import", root, wholeFile(e, chunks, data))
	canonicalNodes(e, "an import", root)
	e.Logf("import -> %s", root)
	if e.P("shape") != shTrickle || e.P("wrap") == 1 || e.P("nocopy") == 1 || len(e.C.Ops) == 0 {
		return
	}
	for _, op := range e.C.Ops {
		more := content(op.B, 0, op.A)
		for try := 0; ; try++ {
			e.W.Armed = try < 3
			dag := e.W.DAG()
			base, err := dag.Get(e.Ctx, root)
			if err == nil {
				db, err2 := buildParams(e, dag).New(splitterFor(e, &stream{e: e, data: more, r: harness.NewRand(uint64(op.B))}))
				if err2 != nil {
					e.Failf("bytes-error", "%v", err2)
				}
				out, err2 := trickle.Append(e.Ctx, base, db)
				if err = err2; err == nil {
					if err = dag.Add(e.Ctx, out); err == nil {
						root = out.Cid()
						break
					}
				}
			}
			if len(e.W.Fired) == 0 || !e.W.Armed {
				e.Failf("bytes-error", "Append: unexpected error %v", err)
			}
		}
		data = append(data[:len(data):len(data)], more...)
		// (where new leaves go is another matter, see U20)
		t, err := storedTree(e.W, root)
		if err != nil {
			e.Failf("bytes-missing", "the result of an append: %v", err)
		}
		if t.kids == nil {
			t.kids = []*tree{}
		}
		left := data
		sameNode(e, "an append", root, refFile(e, t, &left, tRaw, e.P("raw") == 1, prefixOf(e.P("cid"))))
		if len(left) > 0 {
			e.Failf("bytes-missing", "an append left out %d bytes", len(left))
		}
		canonicalNodes(e, "an append", root)
		e.Logf("append -> %s", root)
	}
	e.W.Armed = false
}

// bytesMade checks what the package's constructors make.
func bytesMade(e *harness.Env, r *harness.Rand) {
	same := func(what string, got []byte, err error, u *udata) {
		e.Check()
		if want := encUnixfs(u); err != nil || !eq(got, want) {
			e.Failf("bytes-made", "%s gives %x (%v), the format calls for %x", what, got, err, want)
		}
		// and what is read from it is what was put in
		d, err := ft.FromBytes(got)
		if err != nil || uint64(d.GetType()) != u.typ || !eq(d.GetData(), u.data) || d.GetFilesize() != u.filesize || d.GetFanout() != u.fanout ||
			d.GetHashType() != u.hashType || !slices.Equal(d.GetBlocksizes(), u.blocksizes) {
			e.Failf("bytes-read", "FromBytes of %s (%x) gives something else (%v)", what, got, err)
		}
		size, sized := uint64(0), true
		switch u.typ {
		case tFile, tRaw:
			size = u.filesize
		case tSymlink:
			size = uint64(len(u.data))
		default:
			sized = false
		}
		if n, err := ft.DataSize(got); (err == nil) != sized || n != size {
			e.Failf("bytes-read", "DataSize of %s (%x) is %d, %v", what, got, n, err)
		}
		n, err := ft.FSNodeFromBytes(got)
		if err != nil || uint64(n.Type()) != u.typ || !eq(n.Data(), u.data) || n.FileSize() != size || n.Fanout() != u.fanout ||
			n.HashType() != u.hashType || n.NumChildren() != len(u.blocksizes) || n.IsDir() != (u.typ == tDirectory || u.typ == tHAMT) {
			e.Failf("bytes-read", "FSNodeFromBytes of %s (%x) gives something else (%v)", what, got, err)
		}
		if b, err := n.GetBytes(); err != nil || !eq(b, got) {
			e.Failf("bytes-read", "%s (%x) is encoded again as %x, %v", what, got, b, err)
		}
	}
	data := content(int64(r.N(1000)), int64(r.N(4)), int64(r.Small(300)))
	if len(data) == 0 {
		data = nil
	}
	n := uint64(r.Small(1 << 30))
	same("FilePBData", ft.FilePBData(data, n), nil, &udata{typ: tFile, data: data, hasSize: true, filesize: n})
	same("WrapData", ft.WrapData(data), nil, &udata{typ: tRaw, data: data, hasSize: true, filesize: uint64(len(data))})
	same("FolderPBData", ft.FolderPBData(), nil, &udata{typ: tDirectory})
	same("EmptyDirNode", ft.EmptyDirNode().Data(), nil, &udata{typ: tDirectory})
	same("EmptyFileNode", ft.EmptyFileNode().Data(), nil, &udata{typ: tFile, hasSize: true})
	b, err := ft.SymlinkData(string(data))
	same("SymlinkData", b, err, &udata{typ: tSymlink, data: data, hasData: true})
	w := uint64(8) << r.N(8)
	b, err = ft.HAMTShardData(data, w, 0x22)
	same("HAMTShardData", b, err, &udata{typ: tHAMT, data: data, fanout: w, hashType: 0x22})
	b, err = ft.BytesForMetadata(&ft.Metadata{MimeType: string(data), Size: n})
	same("BytesForMetadata", b, err, &udata{typ: tMetadata, data: field(nil, 1, data), hasSize: true, filesize: n})
	if u, err := ft.UnwrapData(ft.WrapData(data)); err != nil || !eq(u, data) {
		e.Failf("bytes-made", "UnwrapData gives %x (%v) of %x", u, err, data)
	}
	for _, t := range []ftpb.Data_DataType{ft.TRaw, ft.TFile, ft.TDirectory, ft.TMetadata, ft.TSymlink, ft.THAMTShard} {
		fsn := ft.NewFSNode(t)
		u := &udata{typ: uint64(t), hasSize: true}
		if r.P(50) && len(data) > 0 {
			fsn.SetData(data)
			u.data = data
			u.filesize = uint64(len(data))
		}
		for k := r.N(6); k > 0; k-- {
			s := uint64(r.Small(1 << 24))
			fsn.AddBlockSize(s)
			u.blocksizes = append(u.blocksizes, s)
			u.filesize += s
		}
		if k := len(u.blocksizes); k > 0 && r.P(40) {
			i := r.N(k)
			fsn.RemoveBlockSize(i)
			u.filesize -= u.blocksizes[i]
			u.blocksizes = append(u.blocksizes[:i:i], u.blocksizes[i+1:]...)
		}
		if t == ft.THAMTShard {
			continue
		}
		b, err := fsn.GetBytes()
		same(fmt.Sprintf("an FSNode of type %d", t), b, err, u)
	}
}

func bytesVersion(e *harness.Env, v version) {
	if v.dir == nil {
		e.Check()
		canonicalNodes(e, v.what, v.cid)
		return
	}
	_, sharded, err := storedDir(e.W, v.cid, false)
	if err != nil {
		e.Failf("bytes-missing", "%v", err)
	}
	sameNode(e, fmt.Sprintf("a directory of %d entries (sharded: %v)", len(v.dir), sharded), v.cid, refDir(e, v.dir, sharded, uint64(e.P("width")), v.pfx))
}

var _ = register(&harness.Prop{
	ID: "U24", Title: "Every stored node is, byte for byte, the format's one encoding",
	Rule: "Imports (both layouts, all parameters of U04) and appends to trickle files, and the sessions of U21 (modifier edits, plain, sharded and switching directories, 1-3 clients), with 0-4 write, fetch and input faults; each root " +
		"is compared with the CID of a reference encoding made from the model alone, each file node that results from an edit with its re-encoding, the constructors of the format package with the reference encoder.",
	Gen: func(r *harness.Rand, thorough bool) *harness.Case {
		if r.P(45) {
			c := genSession(r, thorough)
			c.P["what"] = 1
			return c
		}
		c := genImport(r, thorough)
		if c.P["shape"] == shTrickle {
			for n := r.N(5); n > 0; n-- {
				c.Ops = append(c.Ops, harness.Op{K: "append", A: int64(r.Small(60))*c.P["chunk"] + int64(r.N(int(c.P["chunk"]))), B: int64(r.N(1000))})
			}
		}
		return c
	},
	Exec: func(e *harness.Env) {
		bytesMade(e, harness.NewRand(uint64(e.P("cseed"))))
		if e.P("what") == 1 {
			runSessions(e, bytesVersion)
		} else {
			bytesImport(e)
		}
	},
	Leak: true, Shrink: importShrink, Real: realAll, Stub: stubAll,
	Place: func(r *harness.Rand, c *harness.Case, counts map[string]int) {
		if r.P(40) {
			place(r, c, counts, append(append([]fk{{"stream", []string{"err", "errdata"}}}, readFaults...), writeFaults...), 4)
		}
	},
})
