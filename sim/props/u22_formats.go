package props

import (
	"fmt"

	cid "github.com/ipfs/go-cid"
	mdag "github.com/ipfs/go-merkledag"
	mh "github.com/multiformats/go-multihash"

	"verifsim/harness"
)

const (
	protoLeaf = 1
	rawLeaf   = 2
)

func leafKind(raw bool) int {
	if raw {
		return rawLeaf
	}
	return protoLeaf
}

// prefixOf is what cidBuilder(k) makes.
func prefixOf(k int64) cid.Prefix {
	p := cid.Prefix{Version: 1, Codec: cid.DagProtobuf, MhType: mh.SHA2_256, MhLength: 32}
	switch k {
	case 1:
	case 2:
		p.MhType, p.MhLength = mh.SHA2_512, 64
	case 3:
		p.MhLength = 20
	default:
		p.Version = 0
	}
	return p
}

// formats: all nodes of v (for a directory: its own, not its entries') have the
// CID format they are to have, and the leaves are of the right kind.
func formats(e *harness.Env, v version) {
	e.Check()
	raw := v.pfx
	raw.Version, raw.Codec = 1, cid.Raw
	var rec func(c cid.Cid, path string)
	rec = func(c cid.Cid, path string) {
		nd, err := getNode(e.W, c)
		if err != nil {
			e.Failf("not-durable", "the result of %s: %v", v.what, err)
		}
		if _, ok := nd.(*mdag.RawNode); ok {
			if c.Prefix() != raw {
				e.Failf("cid-format", "raw leaf %s of the result of %s has the CID format %+v, want %+v", path, v.what, c.Prefix(), raw)
			}
			if v.leaves&rawLeaf == 0 && len(nd.RawData()) > 0 {
				e.Failf("leaf-format", "leaf %s of the result of %s is a raw block", path, v.what)
			}
			return
		}
		if c.Prefix() != v.pfx {
			e.Failf("cid-format", "node %s of the result of %s has the CID format %+v, want %+v", path, v.what, c.Prefix(), v.pfx)
		}
		u, err := decodeUnixfs(nd.(*mdag.ProtoNode).Data())
		if err != nil {
			e.Failf("cid-format", "node %s of the result of %s: %v", path, v.what, err)
		}
		if v.dir != nil {
			if u.typ == tHAMT {
				for _, l := range nd.Links() {
					if len(l.Name) == len(fmt.Sprintf("%X", u.fanout-1)) {
						rec(l.Cid, path+"/"+l.Name)
					}
				}
			}
			return
		}
		if len(nd.Links()) == 0 && len(u.data) > 0 && v.leaves&protoLeaf == 0 {
			e.Failf("leaf-format", "leaf %s of the result of %s is not a raw block", path, v.what)
		}
		for i, l := range nd.Links() {
			rec(l.Cid, fmt.Sprintf("%s/%d", path, i))
		}
	}
	rec(v.cid, "")
}

var _ = register(&harness.Prop{
	ID: "U22", Title: "The CID and leaf formats asked for are used, and kept by every edit",
	Rule: "The sessions of U21 in four CID formats, raw and protobuf leaves; for every root that results, each node below it (of a directory: each shard) must have the format of what it was made from, and the leaves the kind " +
		"asked for.",
	Gen:  genSession,
	Exec: func(e *harness.Env) { runSessions(e, formats) }, Leak: true,
	Shrink: map[string]int64{"par": 1, "names": 0, "nseed": 0, "raw": 0, "thr": 0}, Real: realAll, Stub: stubAll,
	Place: func(r *harness.Rand, c *harness.Case, counts map[string]int) {
		if r.P(40) {
			place(r, c, counts, append(append([]fk{}, readFaults...), writeFaults...), 4)
		}
	},
})
