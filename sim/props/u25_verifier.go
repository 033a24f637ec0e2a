package props

import (
	"fmt"

	cid "github.com/ipfs/go-cid"
	ipld "github.com/ipfs/go-ipld-format"
	mdag "github.com/ipfs/go-merkledag"

	ft "github.com/ipfs/go-unixfs"
	"github.com/ipfs/go-unixfs/importer/trickle"
	ftpb "github.com/ipfs/go-unixfs/pb"

	"verifsim/harness"
)

// What a tree is spoiled with.
const (
	spNothing = iota
	spLeafType
	spLeafFormat // raw instead of protobuf, or the other way round
	spLeafLinks  // a direct child that is a tree
	spBranchType // an interior node that is no file
	spBranchData // an interior node with data of its own
	spTooDeep    // a subtree as deep as its parent allows, or deeper
	spLeafAsTree // a leaf where a subtree belongs
	spPrefix     // a node of another CID format
	spGarbage    // a node that is no UnixFS node
	nSpoils
)

// spoiler makes trickle trees, one node of which is not as it should be.
type spoiler struct {
	e      *harness.Env
	dag    ipld.DAGService
	r      *harness.Rand
	m, rep int
	raw    bool
	spoil  int
	at     int // the node to spoil, counted among those where that is possible
	seen   int
	did    bool
	n      int
}

func (s *spoiler) here() bool {
	s.seen++
	if s.did || s.seen-1 != s.at {
		return false
	}
	s.did = true
	return true
}

func (s *spoiler) builder() cid.Builder {
	if s.spoil == spPrefix && s.here() {
		return cidBuilder((s.e.P("cid") + 2) % 4)
	}
	return cidBuilder(s.e.P("cid"))
}

func (s *spoiler) add(nd ipld.Node) ipld.Node {
	if err := s.dag.Add(s.e.Ctx, nd); err != nil {
		s.e.Failf("setup", "%v", err)
	}
	return nd
}

func (s *spoiler) leaf() ipld.Node {
	s.n++
	data := []byte(fmt.Sprintf("%d:%d", s.e.P("useed"), s.n%7))
	raw := s.raw
	if s.spoil == spLeafFormat && s.here() {
		raw = !raw
	}
	if s.spoil == spLeafLinks && s.here() {
		if s.r.P(50) { // a leaf but for its links
			nd := mdag.NodeWithData(ft.WrapData(data))
			nd.SetCidBuilder(s.builder())
			s.spoil = spNothing
			for i := s.r.In(1, 3); i > 0; i-- {
				nd.AddNodeLink("", s.leaf())
			}
			s.spoil = spLeafLinks
			return s.add(nd)
		}
		return s.tree(2)
	}
	b := s.builder()
	if raw {
		if b == nil {
			b = cidBuilder(1)
		}
		nd, err := mdag.NewRawNodeWPrefix(data, b)
		if err != nil {
			s.e.Failf("setup", "%v", err)
		}
		return s.add(nd)
	}
	d := ft.WrapData(data)
	if s.spoil == spLeafType && s.here() {
		switch s.r.N(3) {
		case 0:
			d = ft.FilePBData(data, uint64(len(data)))
		case 1:
			d, _ = ft.SymlinkData("x")
		default:
			d = ft.FolderPBData()
		}
	}
	if s.spoil == spGarbage && s.here() {
		d = []byte{0xff, 0xff}
	}
	nd := mdag.NodeWithData(d)
	nd.SetCidBuilder(b)
	return s.add(nd)
}

// tree makes a subtree that stays below depth (the root's is -1).
func (s *spoiler) tree(depth int) ipld.Node {
	typ := ftpb.Data_DataType(ft.TFile)
	if s.spoil == spBranchType && s.here() {
		typ = []ftpb.Data_DataType{ft.TRaw, ft.TDirectory, ft.TSymlink, ft.TMetadata}[s.r.N(4)]
	}
	fsn := ft.NewFSNode(typ)
	if s.spoil == spBranchData && s.here() {
		fsn.SetData([]byte("data")[:s.r.In(1, 4)])
	}
	nd := new(mdag.ProtoNode)
	nd.SetCidBuilder(s.builder())
	link := func(k ipld.Node) {
		if err := nd.AddNodeLink("", k); err != nil {
			s.e.Failf("setup", "%v", err)
		}
		fsn.AddBlockSize(1)
	}
	k := s.r.In(1, s.m)
	if s.r.P(70) {
		k = s.m
	}
	for i := 0; i < k; i++ {
		link(s.leaf())
	}
	if k == s.m {
		top := depth
		if top < 0 {
			top = s.r.In(1, 4)
		}
	all:
		for d := 1; d < top; d++ {
			for i := 0; i < s.rep; i++ {
				if s.n > 60 || s.r.P(8) {
					break all
				}
				switch {
				case s.spoil == spLeafAsTree && s.here():
					sp := s.spoil
					s.spoil = spNothing
					link(s.leaf())
					s.spoil = sp
				case s.spoil == spTooDeep && s.here():
					link(s.exactly(d + 1))
				default:
					link(s.tree(d))
				}
			}
		}
	}
	b, err := fsn.GetBytes()
	if err != nil {
		s.e.Failf("setup", "%v", err)
	}
	if s.spoil == spGarbage && s.here() {
		b = []byte{0xff, 0xff}
	}
	nd.SetData(b)
	return s.add(nd)
}

// exactly makes a subtree that has a subtree of depth d-1, which no place for
// one of depth d-1 may hold.
func (s *spoiler) exactly(d int) ipld.Node {
	sp, rep := s.spoil, s.rep
	s.spoil = spNothing
	defer func() { s.spoil, s.rep = sp, rep }()
	fsn := ft.NewFSNode(ft.TFile)
	nd := new(mdag.ProtoNode)
	nd.SetCidBuilder(cidBuilder(s.e.P("cid")))
	for i := 0; i < s.m+(d-2)*s.rep+1; i++ {
		var k ipld.Node
		if i < s.m {
			k = s.leaf()
		} else {
			k = s.tree(1)
		}
		if err := nd.AddNodeLink("", k); err != nil {
			s.e.Failf("setup", "%v", err)
		}
		fsn.AddBlockSize(1)
	}
	b, err := fsn.GetBytes()
	if err != nil {
		s.e.Failf("setup", "%v", err)
	}
	nd.SetData(b)
	return s.add(nd)
}

func execVerifier(e *harness.Env) {
	r := harness.NewRand(uint64(e.P("useed")))
	s := &spoiler{e: e, dag: e.W.Quiet(), r: r, m: int(e.P("mlinks")), rep: int(e.P("rep")), raw: e.P("raw") == 1, spoil: int(e.P("spoil")), at: int(e.P("at"))}
	root := s.tree(-1)
	e.W.Split()
	e.W.Armed = true
	p := trickle.VerifyParams{Getter: e.W.DAG(), Direct: s.m, LayerRepeat: s.rep, RawLeaves: s.raw}
	if e.P("prefix") == 1 || s.spoil == spPrefix {
		pfx := prefixOf(e.P("cid"))
		if e.P("anylen") == 1 && s.spoil != spPrefix {
			pfx.MhLength = -1 // the hash's usual length, or any
		}
		p.Prefix = &pfx
	}
	err := trickle.VerifyTrickleDagStructure(root, p)
	e.W.Armed = false
	e.Check()
	failed := bad(e.W) > 0
	e.Logf("%d leaves, spoiled %v: %v", s.n, s.did, err)
	switch {
	case err == nil && s.did:
		e.Failf("verifier-accepts", "a tree with a node that is wrong (kind %d) passes", s.spoil)
	case err == nil && failed:
		e.Failf("verifier-accepts", "a tree passes although %s", harness.JSON(e.W.Fired))
	case err != nil && !s.did && len(e.W.Fired) == 0:
		e.Failf("verifier-rejects", "a proper tree is rejected: %v", err)
	}
	if s.did {
		e.Probe(fmt.Sprintf("spoiled %d", s.spoil))
	}
}

var _ = register(&harness.Prop{
	ID: "U25", Title: "The trickle verifier passes exactly the trees that keep the layout",
	Rule: "Trickle trees of 1-60 leaves (1-8 direct children, 1-5 subtrees for each depth, four CID formats, raw and protobuf leaves), half of them with one node spoiled in one of nine ways, with 0-2 faults among the fetches.",
	Gen: func(r *harness.Rand, thorough bool) *harness.Case {
		c := &harness.Case{P: map[string]int64{}, World: r.World(), Sched: r.Sched()}
		c.P["mlinks"] = int64(r.In(1, 8))
		c.P["rep"] = r.Pick(1, 2, 3, 4, 4, 4, 5)
		c.P["raw"] = int64(r.N(2))
		c.P["cid"] = r.Pick(0, 0, 1, 1, 2, 3)
		c.P["prefix"] = int64(r.N(2))
		c.P["anylen"] = int64(r.N(5) / 4)
		c.P["useed"] = int64(r.U() >> 40)
		c.P["at"] = int64(r.Small(40))
		if r.P(65) {
			c.P["spoil"] = int64(r.In(1, nSpoils-1))
		}
		return c
	},
	Exec: execVerifier, Leak: true, Shrink: map[string]int64{"cid": 0, "prefix": 0, "raw": 0}, Real: realAll, Stub: stubAll,
	Place: func(r *harness.Rand, c *harness.Case, counts map[string]int) {
		if r.P(35) {
			place(r, c, counts, readFaults, 2)
		}
	},
})
