package props

import (
	"context"
	"encoding/binary"
	"errors"
	"io"
	"sort"

	proto "github.com/gogo/protobuf/proto"
	cid "github.com/ipfs/go-cid"
	chunker "github.com/ipfs/go-ipfs-chunker"
	files "github.com/ipfs/go-ipfs-files"
	ipld "github.com/ipfs/go-ipld-format"
	mdag "github.com/ipfs/go-merkledag"

	ft "github.com/ipfs/go-unixfs"
	unixfile "github.com/ipfs/go-unixfs/file"
	"github.com/ipfs/go-unixfs/hamt"
	help "github.com/ipfs/go-unixfs/importer/helpers"
	"github.com/ipfs/go-unixfs/importer/trickle"
	uio "github.com/ipfs/go-unixfs/io"
	"github.com/ipfs/go-unixfs/mod"
	ftpb "github.com/ipfs/go-unixfs/pb"

	"verifsim/harness"
	"verifsim/world"
)

// ---- independent encoders, able to make what no correct writer makes ----

func pbUint(b []byte, field int, v uint64) []byte {
	return binary.AppendUvarint(binary.AppendUvarint(b, uint64(field)<<3), v)
}

func pbBytes(b []byte, field int, v []byte) []byte {
	b = binary.AppendUvarint(binary.AppendUvarint(b, uint64(field)<<3|2), uint64(len(v)))
	return append(b, v...)
}

// rawUnixfs is a UnixFS message field by field.
type rawUnixfs struct {
	typ      *uint64
	data     []byte
	hasData  bool
	filesize *uint64
	sizes    []uint64
	hash     *uint64
	fanout   *uint64
}

func (u *rawUnixfs) encode() []byte {
	var b []byte
	if u.typ != nil {
		b = pbUint(b, 1, *u.typ)
	}
	if u.hasData {
		b = pbBytes(b, 2, u.data)
	}
	if u.filesize != nil {
		b = pbUint(b, 3, *u.filesize)
	}
	for _, s := range u.sizes {
		b = pbUint(b, 4, s)
	}
	if u.hash != nil {
		b = pbUint(b, 5, *u.hash)
	}
	if u.fanout != nil {
		b = pbUint(b, 6, *u.fanout)
	}
	return b
}

func u64(v uint64) *uint64 { return &v }

func toRaw(b []byte) *rawUnixfs {
	d, err := decodeUnixfs(b)
	if err != nil {
		return &rawUnixfs{}
	}
	u := &rawUnixfs{typ: u64(d.typ), data: append([]byte(nil), d.data...), hasData: d.data != nil, sizes: append([]uint64(nil), d.blocksizes...)}
	if d.hasSize {
		u.filesize = u64(d.filesize)
	}
	if d.typ == tHAMT {
		u.hash, u.fanout = u64(d.hashType), u64(d.fanout)
	}
	return u
}

type rawLink struct {
	c    cid.Cid
	name string
	size uint64
}

func encodePB(links []rawLink, data []byte) []byte {
	var b []byte
	for _, l := range links {
		var m []byte
		m = pbBytes(m, 1, l.c.Bytes())
		m = pbBytes(m, 2, []byte(l.name))
		m = pbUint(m, 3, l.size)
		b = pbBytes(b, 2, m)
	}
	return pbBytes(b, 1, data)
}

// corrupter damages stored blocks. A block only ever comes to refer to blocks
// that were below it in height, so the result stays a DAG, as it must be when
// names are hashes.
type corrupter struct {
	e      *harness.Env
	w      *world.World
	r      *harness.Rand
	cids   []cid.Cid // all blocks, in a fixed order
	height map[string]int
}

func newCorrupter(e *harness.Env, root cid.Cid, r *harness.Rand) *corrupter {
	c := &corrupter{e: e, w: e.W, r: r, height: map[string]int{}}
	var rec func(k cid.Cid) int
	rec = func(k cid.Cid) int {
		if h, ok := c.height[k.KeyString()]; ok {
			return h
		}
		h := 0
		nd, err := getNode(e.W, k)
		if err == nil {
			for _, l := range nd.Links() {
				h = max(h, rec(l.Cid)+1)
			}
		}
		c.height[k.KeyString()] = h
		c.cids = append(c.cids, k)
		return h
	}
	rec(root)
	sort.Slice(c.cids, func(i, j int) bool { return c.cids[i].KeyString() < c.cids[j].KeyString() })
	return c
}

// below picks a block lower than k.
func (c *corrupter) below(k cid.Cid) (cid.Cid, bool) {
	var o []cid.Cid
	for _, x := range c.cids {
		if c.height[x.KeyString()] < c.height[k.KeyString()] {
			o = append(o, x)
		}
	}
	if len(o) == 0 {
		return cid.Undef, false
	}
	return o[c.r.N(len(o))], true
}

func (c *corrupter) odd(v uint64) uint64 {
	switch c.r.N(9) {
	case 0:
		return 0
	case 1:
		return v + 1
	case 2:
		return v - 1
	case 3:
		return 1 << 63
	case 4:
		return 1<<64 - 1
	case 5:
		return 1<<62 + uint64(c.r.N(100))
	case 6:
		return uint64(c.r.N(64))
	case 7:
		return -uint64(c.r.N(200))
	}
	return v * 2
}

// replace changes what is stored for k, unless the decoder of the
// dependencies itself panics on it: that one is not under test.
func (c *corrupter) replace(k cid.Cid, raw []byte) {
	old := append([]byte(nil), c.w.Raw(k)...)
	c.w.Replace(k, raw)
	defer func() {
		if recover() != nil {
			c.w.Replace(k, old)
		}
	}()
	getNode(c.w, k)
}

// damage spoils one block.
func (c *corrupter) damage() {
	r := c.r
	k := c.cids[r.N(len(c.cids))]
	if r.P(50) { // prefer interior blocks
		for i := 0; i < 8 && c.height[k.KeyString()] == 0; i++ {
			k = c.cids[r.N(len(c.cids))]
		}
	}
	raw := append([]byte(nil), c.w.Raw(k)...)
	nd, err := getNode(c.w, k)
	p, pb := nd.(*mdag.ProtoNode)
	if err != nil || !pb || r.P(12) {
		switch r.N(4) {
		case 0:
			for n := r.In(1, 4); n > 0 && len(raw) > 0; n-- {
				raw[r.N(len(raw))] ^= byte(1 << r.N(8))
			}
		case 1:
			raw = raw[:r.N(len(raw)+1)]
		case 2:
			raw = content(int64(r.N(1000)), 0, int64(r.N(60)))
		case 3:
			if y, ok := c.below(k); ok {
				raw = c.w.Raw(y)
			}
		}
		c.replace(k, raw)
		c.e.Logf("damage raw %s", k)
		return
	}
	u := toRaw(p.Data())
	var links []rawLink
	for _, l := range p.Links() {
		links = append(links, rawLink{l.Cid, l.Name, l.Size})
	}
	what := r.N(14)
	switch what {
	case 0:
		u.typ = u64(uint64(r.Pick(0, 1, 2, 3, 4, 5, 6, 99)))
	case 1:
		u.typ = nil
	case 2:
		v := uint64(0)
		if u.filesize != nil {
			v = *u.filesize
		}
		u.filesize = u64(c.odd(v))
		if r.P(10) {
			u.filesize = nil
		}
	case 3:
		if len(u.sizes) > 0 {
			i := r.N(len(u.sizes))
			u.sizes[i] = c.odd(u.sizes[i])
		}
	case 4:
		switch r.N(3) {
		case 0:
			u.sizes = nil
		case 1:
			u.sizes = u.sizes[:len(u.sizes)*r.N(100)/100]
		default:
			for n := r.In(1, 6); n > 0; n-- {
				u.sizes = append(u.sizes, uint64(r.N(20)))
			}
		}
	case 5: // data, or a shard's bitfield
		u.hasData = true
		switch r.N(5) {
		case 0:
			u.data, u.hasData = nil, false
		case 1:
			u.data = append(content(int64(r.N(99)), 0, int64(r.In(1, 40))), u.data...)
		case 2:
			u.data = append(make([]byte, r.In(1, 40)), u.data...)
		case 3:
			if len(u.data) > 0 {
				u.data[r.N(len(u.data))] ^= byte(1 << r.N(8))
			}
		default:
			u.data = u.data[:len(u.data)*r.N(100)/100]
		}
	case 6:
		u.fanout = u64(uint64(r.Pick(0, 1, 2, 4, 7, 8, 16, 24, 128, 256, 1024, 2048, 1<<16, 1<<24, 1<<62, -1<<63, -8, -1)))
		if r.P(10) {
			u.fanout = nil
		}
	case 7:
		u.hash = u64(uint64(r.Pick(0, 0x12, 0x23, -1)))
	case 8:
		if len(links) > 0 {
			i := r.N(len(links))
			links = append(links[:i], links[i+1:]...)
		}
	case 9:
		if len(links) > 0 {
			links = append(links, links[r.N(len(links))])
		}
	case 10:
		if len(links) > 1 {
			i, j := r.N(len(links)), r.N(len(links))
			links[i], links[j] = links[j], links[i]
		}
	case 11:
		if len(links) > 0 {
			i := r.N(len(links))
			n := links[i].name
			links[i].name = r.PickS("", "0", "00", "ZZ", "FFF", n+"x", "0"+n, "é", n[:len(n)/2], links[r.N(len(links))].name)
		}
	case 12:
		if len(links) > 0 {
			if y, ok := c.below(k); ok {
				links[r.N(len(links))].c = y
			}
		}
	case 13:
		if len(links) > 0 {
			i := r.N(len(links))
			// not beyond what sums of them fit in an int64: go-merkledag cannot encode that
			links[i].size = c.odd(links[i].size) % (1 << 50)
		} else if y, ok := c.below(k); ok {
			links = append(links, rawLink{y, "", 5})
		}
	}
	c.replace(k, encodePB(links, u.encode()))
	c.e.Logf("damage %d of %s (height %d)", what, k, c.height[k.KeyString()])
}

// ---- U16 ----

func execHostile(e *harness.Env) {
	help.DefaultLinksPerBlock = int(e.P("mlinks"))
	t, dag := loadTree(e)
	r := harness.NewRand(uint64(e.P("hseed")))
	c := newCorrupter(e, t.nd.Cid(), r)
	uio.HAMTShardingSize = int(e.P("thr"))
	for n := e.P("damage"); n > 0; n-- {
		c.damage()
	}
	e.W.Armed = true
	e = e.With(nil)
	ctx, cancel := context.WithCancel(e.Ctx)
	defer cancel()
	e.Ctx = ctx
	for _, op := range e.C.Ops {
		k := t.nd.Cid()
		if op.A%4 != 0 {
			k = c.cids[int(op.A)%len(c.cids)]
		}
		nd, err := dag.Get(e.Ctx, k)
		if err != nil {
			e.Logf("%v: Get: %v", op, err)
			continue
		}
		e.Check()
		hostileOp(e, dag, nd, op)
	}
}

func hostileOp(e *harness.Env, dag ipld.DAGService, nd ipld.Node, op harness.Op) {
	r := harness.NewRand(uint64(op.B))
	log := func(what string, err error) {
		if err != nil {
			e.Probe("rejected: " + op.K)
		}
		e.Logf("%s %s: %v", op.K, what, err)
	}
	split := func(rd io.Reader) chunker.Splitter { return chunker.NewSizeSplitter(rd, 5) }
	names := func() string {
		if ls := nd.Links(); len(ls) > 0 && r.P(50) {
			n := ls[r.N(len(ls))].Name
			return n[min(len(n), r.N(4)):]
		}
		return dirName(e, int64(r.N(70)))
	}
	switch op.K {
	case "read":
		dr, err := uio.NewDagReader(e.Ctx, nd, dag)
		if err != nil {
			log("NewDagReader", err)
			return
		}
		size := int64(dr.Size())
		total := 0
		for n := r.In(1, 6); n > 0; n-- {
			switch r.N(4) {
			case 0:
				_, err = dr.Seek(r.N64(min(max(size, 0), 1000)+5), io.SeekStart)
			case 1:
				_, err = dr.Seek(-r.N64(20), io.SeekEnd)
			case 2:
				var k int
				b := make([]byte, r.In(1, 200))
				k, err = dr.CtxReadFull(e.Ctx, b)
				if k < 0 || k > len(b) {
					e.Failf("hostile-count", "a read of %d bytes returned %d", len(b), k)
				}
				total += k
			default:
				s := &sink{limit: 5000}
				_, err = dr.WriteTo(s)
			}
			log("step", err)
		}
		dr.Close()
	case "mod":
		dm, err := mod.NewDagModifier(e.Ctx, nd, dag, split)
		if err != nil {
			log("NewDagModifier", err)
			return
		}
		tmp := &harness.Case{P: map[string]int64{"wchunk": 5, "chunk": 5}}
		genModOps(r, tmp, int64(r.N(60)), r.In(1, 5))
		for _, o := range tmp.Ops {
			if o.A > 1<<20 || o.B > 1<<20 {
				continue
			}
			var err error
			switch o.K {
			case "write":
				_, err = dm.Write(modOpData(o.B, o.A))
			case "writeat":
				_, err = dm.WriteAt(modOpData(o.C, o.B), o.A)
			case "read":
				_, err = dm.Read(make([]byte, o.A))
			case "seek":
				var at int64
				at, err = dm.Seek(o.A, int(o.B))
				if at > 1<<22 { // writing there, once the file is cut, would be asking for that much
					_, err = dm.Seek(0, io.SeekStart)
				}
			case "trunc":
				err = dm.Truncate(o.A)
			case "size":
				_, err = dm.Size()
			case "sync":
				err = dm.Sync()
			}
			log(o.K, err)
		}
		_, err = dm.GetNode()
		log("GetNode", err)
	case "dir":
		d, err := uio.NewDirectoryFromNode(dag, nd)
		if err != nil {
			log("NewDirectoryFromNode", err)
			return
		}
		for n := r.In(1, 6); n > 0; n-- {
			var err error
			switch r.N(7) {
			case 0:
				_, err = d.Find(e.Ctx, names())
			case 1:
				_, err = d.Links(e.Ctx)
			case 2:
				err = d.ForEachLink(e.Ctx, func(*ipld.Link) error { return nil })
			case 3:
				for l := range d.EnumLinksAsync(e.Ctx) {
					err = l.Err
				}
			case 4:
				err = d.AddChild(e.Ctx, names(), value(e, int64(r.N(9))))
			case 5:
				err = d.RemoveChild(e.Ctx, names())
			default:
				_, err = d.GetNode()
			}
			log("step", err)
		}
		_, err = d.GetNode()
		log("GetNode", err)
	case "hamt":
		sh, err := hamt.NewHamtFromDag(dag, nd)
		if err != nil {
			log("NewHamtFromDag", err)
			return
		}
		for n := r.In(1, 6); n > 0; n-- {
			var err error
			switch r.N(7) {
			case 0:
				_, err = sh.Find(e.Ctx, names())
			case 1:
				_, err = sh.EnumLinks(e.Ctx)
			case 2:
				err = sh.ForEachLink(e.Ctx, func(*ipld.Link) error { return nil })
			case 3:
				err = sh.Set(e.Ctx, names(), value(e, int64(r.N(9))))
			case 4, 5:
				err = sh.Remove(e.Ctx, names())
			default:
				_, err = sh.Node()
			}
			log("step", err)
		}
		_, err = sh.Node()
		log("Node", err)
	case "resolve":
		for n := r.In(1, 4); n > 0; n-- {
			_, _, err := uio.ResolveUnixfsOnce(e.Ctx, dag, nd, []string{names(), "x"})
			log("step", err)
		}
	case "walk":
		f, err := unixfile.NewUnixfsFile(e.Ctx, dag, nd)
		if err != nil {
			log("NewUnixfsFile", err)
			return
		}
		budget := 300
		log("walk", hostileWalk(e, f, &budget))
	case "append":
		db, err := buildParams(e.With(map[string]int64{"mlinks": int64(r.In(2, 5))}), dag).New(split(&stream{e: e, data: content(3, 0, int64(r.N(120)))}))
		if err != nil {
			e.Failf("setup", "%v", err)
		}
		out, err := trickle.Append(e.Ctx, nd, db)
		log("Append", err)
		if err == nil {
			nd = out
		}
		fallthrough
	case "verify":
		log("Verify", trickle.VerifyTrickleDagStructure(nd, trickle.VerifyParams{Getter: dag, Direct: int(e.P("mlinks")), LayerRepeat: 4, RawLeaves: e.P("raw") == 1}))
	case "fsn":
		if _, err := ft.ReadUnixFSNodeData(nd); err != nil {
			log("ReadUnixFSNodeData", err)
		}
		p, ok := nd.(*mdag.ProtoNode)
		if !ok {
			return
		}
		malformed := proto.Unmarshal(p.Data(), new(ftpb.Data)) != nil
		_, err := ft.DataSize(p.Data())
		log("DataSize", err)
		if malformed && err == nil {
			e.Failf("hostile-accepted", "DataSize takes %x", p.Data())
		}
		_, err = ft.MetadataFromBytes(p.Data())
		log("MetadataFromBytes", err)
		if malformed && err == nil {
			e.Failf("hostile-accepted", "MetadataFromBytes takes %x", p.Data())
		}
		_, err = ft.UnwrapData(p.Data())
		log("UnwrapData", err)
		if malformed != (err != nil) {
			e.Failf("hostile-accepted", "UnwrapData of %x: %v", p.Data(), err)
		}
		if _, err := ft.FromBytes(p.Data()); malformed != (err != nil) {
			e.Failf("hostile-accepted", "FromBytes of %x: %v", p.Data(), err)
		}
		if _, err := ft.FSNodeFromBytes(p.Data()); malformed != (err != nil) {
			e.Failf("hostile-accepted", "FSNodeFromBytes of %x: %v", p.Data(), err)
		}
		if malformed {
			e.Probe("malformed bytes")
		}
		if fsn, err := ft.ExtractFSNode(nd); err == nil {
			_, _, _, _ = fsn.FileSize(), fsn.Type(), fsn.IsDir(), fsn.Data()
			_, err = fsn.GetBytes()
			log("GetBytes", err)
		}
		if f, err := help.NewFSNFromDag(p); err == nil {
			for i := 0; i < f.NumChildren() && i < 20; i++ {
				_, err := f.GetChild(e.Ctx, i, dag)
				log("GetChild", err)
			}
			_, err = f.Commit()
			log("Commit", err)
		}
	}
}

var errBudget = errors.New("enough")

func hostileWalk(e *harness.Env, n files.Node, budget *int) error {
	*budget--
	if *budget < 0 {
		return errBudget
	}
	if _, err := n.Size(); err != nil {
		return err
	}
	switch n := n.(type) {
	case files.File:
		_, err := io.Copy(&sink{limit: 5000}, n)
		return err
	case files.Directory:
		it := n.Entries()
		for it.Next() {
			if it.Node() == nil {
				e.Failf("hostile-nil", "an entry has no node and no error")
			}
			if err := hostileWalk(e, it.Node(), budget); err == errBudget {
				return err
			}
		}
		return it.Err()
	}
	return nil
}

var hostileOps = []string{"read", "read", "mod", "mod", "mod", "dir", "dir", "dir", "hamt", "hamt", "resolve", "walk", "walk", "append", "verify", "fsn"}

var _ = register(&harness.Prop{
	ID: "U16", Title: "Malformed or hostile blocks are rejected, never a crash or a hang",
	Rule: "A stored tree (plain and sharded directories, files of all layouts) of which 1-5 blocks have been damaged structurally (types, sizes, bitfields, fanouts, link names, targets, counts; garbage; truncation; " +
		"other blocks' contents), and 1-8 uses of random nodes of it through every package: readers, modifiers, directories, HAMTs, resolver, file walks, appends, verification, raw decoding. No panic in any goroutine, no endless run, nothing left running.",
	Gen: func(r *harness.Rand, thorough bool) *harness.Case {
		c := genTree(r, thorough)
		shapeParams(r, c.P, thorough)
		c.P["budget"] = int64(r.Small(24) + 2)
		c.P["hseed"] = int64(r.U() >> 40)
		c.P["damage"] = r.Pick(1, 1, 1, 2, 3, 5)
		c.P["thr"] = r.Pick(0, 0, 1, 300, 2000)
		for n := r.In(1, 8); n > 0; n-- {
			c.Ops = append(c.Ops, harness.Op{K: r.PickS(hostileOps...), A: int64(r.N(400)), B: int64(r.U() >> 44)})
		}
		return c
	},
	Exec: execHostile, Leak: true, Shrink: map[string]int64{"budget": 2, "names": 0, "nseed": 0, "cid": 0, "damage": 1, "thr": 0}, Real: realAll, Stub: stubAll,
})
