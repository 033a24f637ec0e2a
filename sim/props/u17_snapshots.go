package props

import (
	"context"
	"fmt"
	"io"
	"strings"

	chunker "github.com/ipfs/go-ipfs-chunker"
	ipld "github.com/ipfs/go-ipld-format"
	mdag "github.com/ipfs/go-merkledag"

	help "github.com/ipfs/go-unixfs/importer/helpers"
	uio "github.com/ipfs/go-unixfs/io"
	"github.com/ipfs/go-unixfs/mod"

	"verifsim/harness"
)

// held is a node somebody keeps, and what it looked like when they got it.
type held struct {
	what string
	nd   ipld.Node
	fp   string
	data []byte       // a file's content
	dir  dirModel     // a directory's entries
	ls   []*ipld.Link // or a listing
}

func listPrint(ls []*ipld.Link) string {
	var s strings.Builder
	for _, l := range ls {
		fmt.Fprintf(&s, " [%q %d %s]", l.Name, l.Size, l.Cid)
	}
	return s.String()
}

// fingerprint renders everything observable about a node.
func fingerprint(nd ipld.Node) string {
	var s strings.Builder
	fmt.Fprintf(&s, "%s %x", nd.Cid(), nd.RawData())
	if p, ok := nd.(*mdag.ProtoNode); ok {
		fmt.Fprintf(&s, " data %x", p.Data())
	}
	for _, l := range nd.Links() {
		fmt.Fprintf(&s, " [%q %d %s]", l.Name, l.Size, l.Cid)
	}
	// and not only what it remembers of its own encoding
	c := nd.Copy()
	if p, ok := c.(*mdag.ProtoNode); ok {
		p.SetData(append([]byte(nil), p.Data()...))
	}
	fmt.Fprintf(&s, " %s", c.Cid())
	return s.String()
}

type keeper struct {
	e  *harness.Env
	hs []*held
}

func (k *keeper) hold(what string, nd ipld.Node, data []byte, dir dirModel) *held {
	h := &held{what: what, nd: nd, data: append([]byte(nil), data...), fp: fingerprint(nd)}
	if dir != nil {
		h.dir = dir.clone()
	}
	k.hs = append(k.hs, h)
	return h
}

// holdList keeps a listing.
func (k *keeper) holdList(what string, ls []*ipld.Link) {
	k.hs = append(k.hs, &held{what: what, ls: ls, fp: listPrint(ls)})
}

func (k *keeper) check(after string) {
	for _, h := range k.hs {
		k.e.Check()
		fp := ""
		if h.nd == nil {
			fp = listPrint(h.ls)
		} else {
			fp = fingerprint(h.nd)
		}
		if fp != h.fp {
			k.e.Failf("node-mutated", "%s changed under its holder after %s:\n  was %s\n  now %s", h.what, after, h.fp, fp)
		}
	}
}

// final: the held objects still show, and the store still holds, what they did.
func (k *keeper) final(dag ipld.DAGService) {
	e := k.e
	k.check("everything")
	for _, h := range k.hs {
		switch {
		case h.dir != nil:
			d, err := uio.NewDirectoryFromNode(dag, h.nd)
			if err != nil {
				e.Failf("snapshot-dir", "opening %s: %v", h.what, err)
			}
			m := dirModel{}
			if err := d.ForEachLink(e.Ctx, func(l *ipld.Link) error {
				m[l.Name] = entry{string(l.Cid.Bytes()), l.Size}
				return nil
			}); err != nil {
				e.Failf("snapshot-dir", "listing %s: %v", h.what, err)
			}
			if d := sameDir(m, h.dir); d != "" {
				e.Failf("snapshot-dir", "%s now has other entries: %s", h.what, d)
			}
		case h.data != nil:
			dr, err := uio.NewDagReader(e.Ctx, h.nd, dag)
			if err != nil {
				e.Failf("snapshot-file", "opening %s: %v", h.what, err)
			}
			got, err := io.ReadAll(dr)
			if err != nil || !eq(got, h.data) {
				e.Failf("snapshot-file", "%s reads differently now: %v %s", h.what, err, diff(got, h.data))
			}
			dr.Close()
		}
	}
	k.check("reading everything")
}

// snapReader reads a held file bit by bit while others edit it.
type snapReader struct {
	h  *held
	dr uio.DagReader
}

func (s *snapReader) step(e *harness.Env, r *harness.Rand, pos *int64) {
	n := int64(len(s.h.data))
	if r.P(30) {
		*pos = r.N64(n + 1)
		if _, err := s.dr.Seek(*pos, io.SeekStart); err != nil {
			if len(e.W.Fired) == 0 {
				e.Failf("snapshot-reader", "Seek in %s: %v", s.h.what, err)
			}
			*pos = -1
			return
		}
	}
	if *pos < 0 {
		return
	}
	b := make([]byte, 1+r.N(24))
	got, err := io.ReadFull(s.dr, b)
	if err != nil && err != io.EOF && err != io.ErrUnexpectedEOF {
		if len(e.W.Fired) == 0 {
			e.Failf("snapshot-reader", "reading %s: %v", s.h.what, err)
		}
		if got > 0 && (*pos+int64(got) > n || !eq(b[:got], s.h.data[*pos:*pos+int64(got)])) {
			e.Failf("snapshot-reader", "a reader opened on %s sees other bytes at %d", s.h.what, *pos)
		}
		*pos = -1
		return
	}
	want := s.h.data[*pos:min(n, *pos+int64(len(b)))]
	e.Check()
	if !eq(b[:got], want) {
		e.Failf("snapshot-reader", "a reader opened on %s sees other bytes at %d: %s", s.h.what, *pos, diff(b[:got], want))
	}
	*pos += int64(got)
}

func execSnapFile(e *harness.Env) {
	help.DefaultLinksPerBlock = int(e.P("links"))
	data := content(e.P("cseed"), e.P("kind"), e.P("len"))
	root, err := makeFile(e, e.W.Quiet(), data)
	if err != nil {
		e.Failf("setup", "%v", err)
	}
	e.W.Split()
	dag := e.W.DAG()
	k := &keeper{e: e}
	if data == nil {
		data = []byte{}
	}
	k.hold("the node the modifiers were opened on", root, data, nil).data = data
	open := func(nd ipld.Node) *mod.DagModifier {
		dm, err := mod.NewDagModifier(e.Ctx, nd, dag, func(rd io.Reader) chunker.Splitter {
			return chunker.NewSizeSplitter(rd, max(1, e.P("wchunk")))
		})
		if err != nil {
			e.Failf("open", "NewDagModifier: %v", err)
		}
		switch e.P("mraw") {
		case 1:
			dm.RawLeaves = true
		case 2:
			dm.RawLeaves = false
		}
		return dm
	}
	e.W.Armed = true
	var fs []func()
	par := int(max(1, min(3, e.P("par"))))
	for i := 0; i < par; i++ {
		i := i
		fs = append(fs, func() {
			dm := open(root)
			var rds []*snapReader
			var pos []int64
			r := harness.NewRand(uint64(e.P("useed")) + uint64(i))
			addReader := func(h *held) {
				dr, err := uio.NewDagReader(e.Ctx, h.nd, dag)
				if err != nil {
					e.Failf("open", "NewDagReader: %v", err)
				}
				rds, pos = append(rds, &snapReader{h, dr}), append(pos, 0)
			}
			addReader(k.hs[0])
			for j, op := range e.C.Ops {
				if j%par != i || !sane(op) {
					continue
				}
				what := fmt.Sprintf("op %d %v of client %d", j, op, i)
				switch op.K {
				case "write":
					dm.Write(modOpData(op.B, op.A))
				case "writeat":
					dm.WriteAt(modOpData(op.C, op.B), op.A)
				case "read":
					dm.Read(make([]byte, op.A))
				case "seek":
					dm.Seek(op.A, int(op.B))
				case "trunc":
					dm.Truncate(op.A)
				case "size":
					dm.Size()
				case "sync":
					dm.Sync()
				case "node":
					nd, err := dm.GetNode()
					if err != nil {
						break
					}
					got, err := fileBytes(e.W, nd.Cid())
					if err != nil {
						e.Failf("node-unreadable", "%v", err)
					}
					if got == nil {
						got = []byte{}
					}
					h := k.hold(fmt.Sprintf("the node GetNode returned at %s", what), nd, got, nil)
					h.data = got
					if op.A%3 == 0 {
						dm = open(nd) // go on from the very node that is held
					}
					if r.P(50) {
						addReader(h)
					}
				}
				e.Logf("%s", what)
				k.check(what)
				for x := range rds {
					if r.P(50) {
						rds[x].step(e, r, &pos[x])
					}
				}
			}
			for _, s := range rds {
				s.dr.Close()
			}
			nd, err := dm.GetNode()
			if err == nil {
				e.Logf("client %d ends with %s", i, nd.Cid())
			}
		})
	}
	e.Par(fs...)
	e.W.Armed = false
	k.final(dag)
}

func execSnapDir(e *harness.Env) {
	s0 := openDir(e) // builds the starting directory (and sets the knobs)
	dag := s0.dag
	k := &keeper{e: e}
	var nd0 ipld.Node
	if e.P("start") != 0 {
		n, err := s0.d.GetNode()
		if err != nil {
			e.Failf("setup", "%v", err)
		}
		if !isHAMT(s0.d) {
			n = n.Copy() // a plain directory's node is the directory itself
			e.W.Quiet().Add(e.Ctx, n)
		}
		nd0 = n
		k.hold("the node the directories were opened on", nd0, nil, s0.m)
	}
	// the entries' nodes are shared by everybody too
	var vals []ipld.Node
	for v := int64(0); v < 40; v++ {
		nd := value(e, v)
		vals = append(vals, nd)
		k.hold(fmt.Sprintf("the node given to AddChild (%d)", v), nd, nil, nil)
	}
	e.W.Armed = true
	par := int(max(1, min(3, e.P("par"))))
	var fs []func()
	for i := 0; i < par; i++ {
		i := i
		fs = append(fs, func() {
			var d uio.Directory
			open := func(nd ipld.Node) {
				n, err := uio.NewDirectoryFromNode(dag, nd)
				if err != nil {
					e.Failf("open", "NewDirectoryFromNode: %v", err)
				}
				d = n
			}
			m := dirModel{}
			if nd0 == nil {
				d = uio.NewDirectory(dag)
				d.SetCidBuilder(cidBuilder(e.P("cid")))
			} else {
				open(nd0)
				m = s0.m.clone()
			}
			for j, op := range e.C.Ops {
				if j%par != i {
					continue
				}
				what := fmt.Sprintf("op %d %v of client %d", j, op, i)
				name := dirName(e, op.A)
				ctx, cancel := e.Ctx, func() {}
				if op.C != 0 {
					ctx, cancel = context.WithCancel(e.Ctx)
					if op.C == 1 {
						cancel()
					} else {
						e.W.S.After(op.C-2, cancel)
					}
				}
				switch op.K {
				case "add":
					v := vals[op.B%40]
					if err := d.AddChild(ctx, name, v); err == nil {
						m[name] = entryOf(v)
					}
				case "rm":
					if err := d.RemoveChild(ctx, name); err == nil {
						delete(m, name)
					}
				case "find":
					d.Find(ctx, name)
				case "list":
					// (what a plain directory lists are its own links)
					switch op.A % 3 {
					case 0:
						if ls, _ := d.Links(ctx); isHAMT(d) {
							k.holdList("the listing returned at "+what, ls)
						}
					case 1:
						d.ForEachLink(ctx, func(*ipld.Link) error { return nil })
					default:
						var ls []*ipld.Link
						for r := range d.EnumLinksAsync(ctx) {
							if r.Err == nil {
								ls = append(ls, r.Link)
							}
						}
						if isHAMT(d) {
							k.holdList("the entries sent at "+what, ls)
						}
					}
				case "node", "reload":
					h := isHAMT(d)
					n, err := d.GetNode()
					if err != nil {
						break
					}
					if !h {
						n = n.Copy() // see above
						if err := dag.Add(e.Ctx, n); err != nil {
							break
						}
					}
					k.hold(fmt.Sprintf("the node GetNode returned at %s", what), n, nil, m)
					if op.K == "reload" {
						open(n) // go on from the very node that is held
					}
				}
				cancel()
				e.Logf("%s", what)
				k.check(what)
			}
		})
	}
	e.Par(fs...)
	e.W.Armed = false
	k.final(dag)
}

var _ = register(&harness.Prop{
	ID: "U17", Title: "Editing never changes what others hold",
	Rule: "1-3 concurrent clients open modifiers (or directories) on the same node object and edit, while every node handed in or out is kept and readers opened on them go on reading; with 0-4 faults and contexts that end early. " +
		"After every operation each held node must be unchanged, byte for byte and link for link; at the end each is opened again and must show what it showed.",
	Gen: func(r *harness.Rand, thorough bool) *harness.Case {
		var c *harness.Case
		if r.P(50) {
			c = genMod(r, thorough)
			c.P["dir"] = 0
			for i := range c.Ops {
				if k := c.Ops[i].K; k == "size" || k == "sync" || k == "read" && r.P(50) {
					c.Ops[i] = harness.Op{K: "node", A: int64(r.N(9))}
				}
			}
		} else {
			c = genDir(r, thorough)
			c.P["api"] = 0
			c.P["dir"] = 1
			for i := range c.Ops {
				if k := c.Ops[i].K; k == "find" || k == "list" && r.P(50) {
					c.Ops[i].K = r.PickS("node", "reload", "rm")
				}
			}
			if r.P(40) {
				cancelSome(r, c, 20)
			}
		}
		c.P["par"] = r.Pick(1, 1, 2, 3)
		if c.P["par"] > 1 {
			c.Ops = append(c.Ops, append([]harness.Op(nil), c.Ops...)...)
		}
		return c
	},
	Exec: func(e *harness.Env) {
		if e.P("dir") == 1 {
			execSnapDir(e)
		} else {
			execSnapFile(e)
		}
	},
	Leak: true, Shrink: map[string]int64{"par": 1, "len": 0, "raw": 0, "cid": 0, "kind": 0, "mraw": 0, "wchunk": 1, "chunk": 1, "names": 0, "nseed": 0, "pre": 0, "pool": 1},
	Real: realAll, Stub: stubAll,
	Place: func(r *harness.Rand, c *harness.Case, counts map[string]int) {
		if r.P(45) {
			place(r, c, counts, append(append([]fk{}, readFaults...), writeFaults...), 4)
		}
	},
})
