// Package props holds the properties: how each one's cases are made and how
// its oracle judges them.
package props

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"

	blocks "github.com/ipfs/go-block-format"
	cid "github.com/ipfs/go-cid"
	chunker "github.com/ipfs/go-ipfs-chunker"
	ipld "github.com/ipfs/go-ipld-format"
	mdag "github.com/ipfs/go-merkledag"
	mh "github.com/multiformats/go-multihash"

	ft "github.com/ipfs/go-unixfs"
	"github.com/ipfs/go-unixfs/importer/balanced"
	help "github.com/ipfs/go-unixfs/importer/helpers"
	"github.com/ipfs/go-unixfs/importer/trickle"
	uio "github.com/ipfs/go-unixfs/io"

	"verifsim/harness"
	"verifsim/world"
)

// All properties, in order.
var All []*harness.Prop

func register(p *harness.Prop) *harness.Prop { All = append(All, p); return p }

// Get finds a property.
func Get(id string) *harness.Prop {
	for _, p := range All {
		if p.ID == id {
			return p
		}
	}
	return nil
}

var (
	defLimit = help.BlockSizeLimit
	defLinks = help.DefaultLinksPerBlock
	defShard = uio.HAMTShardingSize
	defWidth = uio.DefaultShardWidth
)

func init() {
	harness.Reset = func() {
		help.BlockSizeLimit = defLimit
		help.DefaultLinksPerBlock = defLinks
		uio.HAMTShardingSize = defShard
		uio.DefaultShardWidth = defWidth
	}
}

var (
	realAll  = []string{"go-unixfs: all packages (instrumented copies of the current sources)", "go-merkledag, go-blockservice, go-ipld-format, go-ipfs-chunker", "Go runtime: channels, select, mutexes, wait groups, garbage collector off during a run"}
	stubAll  = []string{"block store (in memory, fault-injecting)", "exchange: peers delivering blocks over a simulated network", "clock and timers (virtual)", "goroutine scheduler (seeded)"}
	contKind = []string{"random", "zeros", "periodic", "mixed"}
)

// ---- content ----

// content makes n deterministic bytes. kind 1 is all zeros and kind 2 repeats,
// so that different parts of a file share blocks.
func content(seed int64, kind int64, n int64) []byte {
	b := make([]byte, n)
	x := uint64(seed)*0x9e3779b97f4a7c15 + 1
	for i := range b {
		switch kind {
		case 1:
			b[i] = 0
		case 2:
			b[i] = byte(i % 8)
		default:
			if i%8 == 0 {
				x ^= x << 13
				x ^= x >> 7
				x ^= x << 17
			}
			b[i] = byte(x >> (8 * uint(i%8)))
			if kind == 3 && (i/16)%3 == 1 {
				b[i] = 0
			}
		}
	}
	return b
}

// ---- independent decoding of UnixFS nodes ----

type udata struct {
	typ        uint64
	data       []byte
	hasData    bool
	filesize   uint64
	hasSize    bool
	blocksizes []uint64
	fanout     uint64
	hashType   uint64
}

func decodeUnixfs(b []byte) (*udata, error) {
	u := &udata{}
	bad := errors.New("malformed unixfs data")
	for len(b) > 0 {
		tag, n := binary.Uvarint(b)
		if n <= 0 {
			return nil, bad
		}
		b = b[n:]
		switch tag & 7 {
		case 0:
			v, n := binary.Uvarint(b)
			if n <= 0 {
				return nil, bad
			}
			b = b[n:]
			switch tag >> 3 {
			case 1:
				u.typ = v
			case 3:
				u.filesize, u.hasSize = v, true
			case 4:
				u.blocksizes = append(u.blocksizes, v)
			case 5:
				u.hashType = v
			case 6:
				u.fanout = v
			}
		case 2:
			l, n := binary.Uvarint(b)
			if n <= 0 || uint64(len(b)-n) < l {
				return nil, bad
			}
			v := b[n : n+int(l)]
			b = b[n+int(l):]
			switch tag >> 3 {
			case 2:
				u.data, u.hasData = v, true
			case 4: // packed
				for len(v) > 0 {
					x, n := binary.Uvarint(v)
					if n <= 0 {
						return nil, bad
					}
					u.blocksizes = append(u.blocksizes, x)
					v = v[n:]
				}
			}
		default:
			return nil, bad
		}
	}
	return u, nil
}

const (
	tRaw = iota
	tDirectory
	tFile
	tMetadata
	tSymlink
	tHAMT
)

// getRaw loads a node from the disk image, without latency or faults.
func getNode(w *world.World, c cid.Cid) (ipld.Node, error) {
	b, ok := w.Blocks[string(c.Hash())]
	if !ok {
		return nil, fmt.Errorf("block %s is not stored", c)
	}
	nb, err := blocks.NewBlockWithCid(b.RawData(), c)
	if err != nil {
		return nil, err
	}
	return decodeBlock(nb)
}

func decodeBlock(b blocks.Block) (ipld.Node, error) {
	switch b.Cid().Prefix().Codec {
	case cid.Raw:
		return mdag.NewRawNodeWPrefix(b.RawData(), b.Cid().Prefix())
	case cid.DagProtobuf:
		return mdag.DecodeProtobuf(b.RawData())
	}
	return nil, fmt.Errorf("unexpected codec")
}

// fileBytes reads a whole file straight from the disk image.
func fileBytes(w *world.World, c cid.Cid) ([]byte, error) {
	var out []byte
	var rec func(c cid.Cid) error
	rec = func(c cid.Cid) error {
		nd, err := getNode(w, c)
		if err != nil {
			return err
		}
		if r, ok := nd.(*mdag.RawNode); ok {
			out = append(out, r.RawData()...)
			return nil
		}
		u, err := decodeUnixfs(nd.(*mdag.ProtoNode).Data())
		if err != nil {
			return err
		}
		if u.typ == tMetadata && len(nd.Links()) > 0 {
			return rec(nd.Links()[0].Cid)
		}
		if u.typ != tFile && u.typ != tRaw {
			return fmt.Errorf("node of type %d inside a file", u.typ)
		}
		if len(nd.Links()) == 0 {
			out = append(out, u.data...)
			return nil
		}
		if len(u.data) != 0 {
			return errors.New("interior node carries data besides its links")
		}
		for _, l := range nd.Links() {
			if err := rec(l.Cid); err != nil {
				return err
			}
		}
		return nil
	}
	err := rec(c)
	return out, err
}

// closure checks that everything reachable from c is stored.
func closure(w *world.World, c cid.Cid) error {
	seen := map[string]bool{}
	var rec func(c cid.Cid) error
	rec = func(c cid.Cid) error {
		if seen[c.KeyString()] {
			return nil
		}
		seen[c.KeyString()] = true
		nd, err := getNode(w, c)
		if err != nil {
			return err
		}
		for _, l := range nd.Links() {
			if err := rec(l.Cid); err != nil {
				return err
			}
		}
		return nil
	}
	return rec(c)
}

// sizes checks that every size recorded in a file DAG is the truth: the file
// size and block sizes of interior nodes, and the cumulative size of links.
func sizes(w *world.World, c cid.Cid) error {
	var rec func(c cid.Cid, depth int) (fileLen, cum uint64, err error)
	rec = func(c cid.Cid, depth int) (uint64, uint64, error) {
		nd, err := getNode(w, c)
		if err != nil {
			return 0, 0, err
		}
		cum := uint64(len(nd.RawData()))
		if r, ok := nd.(*mdag.RawNode); ok {
			return uint64(len(r.RawData())), cum, nil
		}
		u, err := decodeUnixfs(nd.(*mdag.ProtoNode).Data())
		if err != nil {
			return 0, 0, err
		}
		n := uint64(len(u.data))
		links := nd.Links()
		if len(links) != len(u.blocksizes) {
			return 0, 0, fmt.Errorf("node %s has %d links but %d block sizes", c, len(links), len(u.blocksizes))
		}
		for i, l := range links {
			fl, cu, err := rec(l.Cid, depth+1)
			if err != nil {
				return 0, 0, err
			}
			if u.blocksizes[i] != fl {
				return 0, 0, fmt.Errorf("node %s (depth %d) records %d bytes for child %d, which holds %d", c, depth, u.blocksizes[i], i, fl)
			}
			if l.Size != cu {
				return 0, 0, fmt.Errorf("node %s (depth %d) records a cumulative size of %d for child %d, which is %d", c, depth, l.Size, i, cu)
			}
			n += fl
			cum += cu
		}
		if u.filesize != n {
			return 0, 0, fmt.Errorf("node %s (depth %d) records a file size of %d but holds %d bytes", c, depth, u.filesize, n)
		}
		return n, cum, nil
	}
	_, _, err := rec(c, 0)
	return err
}

// ---- making files ----

func cidBuilder(k int64) cid.Builder {
	switch k {
	case 1:
		return cid.V1Builder{Codec: cid.DagProtobuf, MhType: mh.SHA2_256}
	case 2:
		return cid.V1Builder{Codec: cid.DagProtobuf, MhType: mh.SHA2_512}
	case 3:
		return cid.V1Builder{Codec: cid.DagProtobuf, MhType: mh.SHA2_256, MhLength: 20}
	}
	return nil // version 0
}

// File layouts.
const (
	shBalanced = iota
	shTrickle
	shSingleProto // one protobuf node holding the data
	shSingleRaw   // one raw block
	shUneven      // irregular tree, as another implementation might make it
	nShapes
)

func buildParams(e *harness.Env, dag ipld.DAGService) *help.DagBuilderParams {
	return &help.DagBuilderParams{Dagserv: dag, Maxlinks: int(e.P("mlinks")), RawLeaves: e.P("raw") == 1, CidBuilder: cidBuilder(e.P("cid"))}
}

// makeFile stores data as a file of the case's shape.
func makeFile(e *harness.Env, dag ipld.DAGService, data []byte) (ipld.Node, error) {
	switch e.P("shape") {
	case shBalanced, shTrickle:
		db, err := buildParams(e, dag).New(chunker.NewSizeSplitter(bytes.NewReader(data), max(1, e.P("chunk"))))
		if err != nil {
			return nil, err
		}
		if e.P("shape") == shBalanced {
			return balanced.Layout(db)
		}
		return trickle.Layout(db)
	case shSingleProto:
		nd := mdag.NodeWithData(ft.FilePBData(data, uint64(len(data))))
		nd.SetCidBuilder(cidBuilder(e.P("cid")))
		return nd, dag.Add(e.Ctx, nd)
	case shSingleRaw:
		b := cidBuilder(e.P("cid"))
		if b == nil {
			b = cidBuilder(1)
		}
		nd, err := mdag.NewRawNodeWPrefix(data, b)
		if err != nil {
			return nil, err
		}
		return nd, dag.Add(e.Ctx, nd)
	}
	r := harness.NewRand(uint64(e.P("useed")))
	nd, err := uneven(e, dag, r, data, 0)
	return nd, err
}

// uneven builds an irregular tree by hand: leaves and subtrees mixed at every
// level, of different sizes and encodings.
func uneven(e *harness.Env, dag ipld.DAGService, r *harness.Rand, data []byte, depth int) (ipld.Node, error) {
	chunk := int(max(1, e.P("chunk")))
	if depth > 0 && (len(data) <= chunk || depth > 3 || r.P(30)) {
		if e.P("raw") == 1 && r.P(60) || r.P(20) {
			b := cidBuilder(e.P("cid"))
			if b == nil {
				b = cidBuilder(1)
			}
			nd, err := mdag.NewRawNodeWPrefix(data, b)
			if err != nil {
				return nil, err
			}
			return nd, dag.Add(e.Ctx, nd)
		}
		nd := mdag.NodeWithData(ft.FilePBData(data, uint64(len(data))))
		if r.P(50) {
			nd = mdag.NodeWithData(ft.WrapData(data))
		}
		nd.SetCidBuilder(cidBuilder(e.P("cid")))
		return nd, dag.Add(e.Ctx, nd)
	}
	k := r.In(1, int(max(1, e.P("mlinks"))))
	fsn := ft.NewFSNode(ft.TFile)
	nd := new(mdag.ProtoNode)
	nd.SetCidBuilder(cidBuilder(e.P("cid")))
	for i := 0; i < k; i++ {
		n := len(data)
		if i < k-1 {
			n = r.N(min(len(data), 2*(len(data)/(k-i))+1) + 1)
		}
		ch, err := uneven(e, dag, r, data[:n], depth+1)
		if err != nil {
			return nil, err
		}
		if err := nd.AddNodeLink("", ch); err != nil {
			return nil, err
		}
		fsn.AddBlockSize(uint64(n))
		data = data[n:]
	}
	b, err := fsn.GetBytes()
	if err != nil {
		return nil, err
	}
	nd.SetData(b)
	return nd, dag.Add(e.Ctx, nd)
}

// shapeParams draws the parameters makeFile needs; the length is returned.
func shapeParams(r *harness.Rand, p map[string]int64, thorough bool) int64 {
	p["shape"] = int64(r.Pick(shBalanced, shBalanced, shTrickle, shTrickle, shUneven, shSingleProto, shSingleRaw))
	p["raw"] = int64(r.N(2))
	p["cid"] = r.Pick(0, 0, 1, 1, 2, 3)
	p["mlinks"] = int64(r.Pick(2, 2, 3, 4, 5, 8))
	p["chunk"] = int64(r.In(1, 12))
	p["useed"] = int64(r.U() >> 40)
	p["kind"] = int64(r.Pick(0, 0, 0, 1, 2, 3))
	p["cseed"] = int64(r.U() >> 40)
	nch := r.Small(60)
	if thorough {
		nch = r.Small(160)
	}
	if r.P(6) { // wider than what is fetched ahead
		p["mlinks"] = r.Pick(10, 11, 13, 16, 21, 30)
	}
	if p["shape"] <= shTrickle && r.N(200) == 0 { // as wide as by default
		nch = r.In(150, 400)
		p["chunk"] = int64(r.In(1, 2))
		p["mlinks"] = 174
	} else if p["shape"] <= shTrickle && r.N(60) == 0 { // many small chunks: a deep tree
		nch = r.In(200, 900)
		p["chunk"] = int64(r.In(1, 2))
		p["mlinks"] = int64(r.In(2, 3))
	}
	n := int64(nch) * p["chunk"]
	if r.P(60) {
		n += int64(r.N(int(p["chunk"])))
	}
	if r.P(4) {
		n = 0
	}
	p["len"] = n
	return n
}

// ---- faults ----

type fk struct {
	on string
	do []string
}

var (
	readFaults  = []fk{{"get", []string{"err", "notfound", "slow", "ctxerr"}}, {"item", []string{"err", "notfound", "slow", "ctxerr"}}, {"net", []string{"err", "notfound", "slow", "ctxerr"}}, {"getmany", []string{"err", "ctxerr"}}, {"netmany", []string{"err", "ctxerr"}}}
	writeFaults = []fk{{"put", []string{"err", "err", "lostack", "slow", "ctxerr"}}, {"putmany", []string{"err", "torn", "lostack", "ctxerr"}}}
)

// place plants up to max faults among the operations counted in a dry run.
func place(r *harness.Rand, c *harness.Case, counts map[string]int, kinds []fk, max int) {
	var av []fk
	for _, k := range kinds {
		if counts[k.on] > 0 {
			av = append(av, k)
		}
	}
	if len(av) == 0 {
		return
	}
	n := 1
	if r.P(40) {
		n = r.In(1, max)
	}
	for i := 0; i < n; i++ {
		k := av[r.N(len(av))]
		f := world.Fault{On: k.on, N: r.N(counts[k.on]), Do: k.do[r.N(len(k.do))], Arg: int64(r.N(100))}
		if r.P(25) {
			f.Len = r.In(2, 6)
		}
		if r.P(8) {
			f.Len = 1 << 20 // from here on
		}
		c.Faults = append(c.Faults, f)
	}
}

// ---- misc ----

// lend hands b to a writer, which may neither change it nor keep it: the
// caller uses it for something else straight away.
func lend(e *harness.Env, b []byte, write func(b []byte) (int, error)) (int, error) {
	c := append([]byte(nil), b...)
	n, err := write(c)
	if !bytes.Equal(b, c) {
		e.Failf("write-changed", "a write changed the bytes it was given: %s", diff(c, b))
	}
	for i := range c {
		c[i] ^= 0xa5
	}
	return n, err
}

func eq(a, b []byte) bool { return bytes.Equal(a, b) }

// diff describes how got differs from want.
func diff(got, want []byte) string {
	if len(got) != len(want) {
		i := 0
		for i < len(got) && i < len(want) && got[i] == want[i] {
			i++
		}
		return fmt.Sprintf("got %d bytes, want %d; first difference at %d", len(got), len(want), i)
	}
	for i := range got {
		if got[i] != want[i] {
			return fmt.Sprintf("byte %d of %d is %#x, want %#x", i, len(got), got[i], want[i])
		}
	}
	return "equal"
}

func errStr(err error) string {
	if err == nil {
		return "nil"
	}
	return err.Error()
}

var errSink = errors.New("sink refuses")

var _ = io.EOF
var _ = context.Background
