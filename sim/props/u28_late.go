package props

import (
	"io"
	"sort"

	cid "github.com/ipfs/go-cid"
	chunker "github.com/ipfs/go-ipfs-chunker"
	files "github.com/ipfs/go-ipfs-files"
	ipld "github.com/ipfs/go-ipld-format"

	unixfile "github.com/ipfs/go-unixfs/file"
	"github.com/ipfs/go-unixfs/hamt"
	uio "github.com/ipfs/go-unixfs/io"
	"github.com/ipfs/go-unixfs/mod"

	"verifsim/harness"
	"verifsim/world"
)

// forever is longer than all that a simulated store takes for anything.
const forever = 1e14

// span is where in its file a node's bytes are.
type span struct {
	c      cid.Cid
	lo, hi uint64
}

func (f *fnode) spans(at uint64, out []span) []span {
	out = append(out, span{f.c, at, at + f.size})
	for _, k := range f.kids {
		out = k.spans(at, out)
		at += k.size
	}
	return out
}

// rounds bounds how often one has to wait to read a file from one end to the
// other, a few blocks at a time.
func (f *fnode) rounds() int64 {
	if len(f.kids) == 0 {
		return 0
	}
	n := int64((len(f.kids)+4)/5 + 1)
	for _, k := range f.kids {
		n += k.rounds()
	}
	return n
}

// task is an operation in a goroutine of its own.
type task struct {
	what  string
	a, b  int64
	got   []byte
	names map[string]entry
	twice string
	done  bool
	err   error
	took  int64
}

func lateStart(e *harness.Env, op harness.Op, f func(t *task) error) *task {
	t := &task{what: op.K, a: op.A, b: op.B, names: map[string]entry{}}
	from := e.W.S.Now()
	go func() {
		t.err = f(t)
		t.took = e.W.S.Now() - from
		t.done = true
	}()
	return t
}

func (t *task) Write(b []byte) (int, error) {
	t.got = append(t.got, b...)
	return len(b), nil
}

func (t *task) readAll(r io.Reader) error {
	b := make([]byte, max(1, t.b))
	for {
		n, err := r.Read(b)
		t.got = append(t.got, b[:n]...)
		if err == io.EOF {
			return nil
		}
		if err != nil {
			return err
		}
	}
}

func (t *task) entry(l *ipld.Link) {
	if _, ok := t.names[l.Name]; ok {
		t.twice = l.Name
	}
	t.names[l.Name] = entry{string(l.Cid.Bytes()), l.Size}
}

func lateFile(e *harness.Env) {
	data := content(e.P("cseed"), e.P("kind"), e.P("len"))
	nd, err := makeFile(e, e.W.Quiet(), data)
	if err != nil {
		e.Failf("setup", "%v", err)
	}
	tree := fileTree(e, nd.Cid())
	spans := tree.spans(0, nil)[1:]
	sort.SliceStable(spans, func(i, j int) bool { return spans[i].lo < spans[j].lo })
	e.W.Split()
	late := cset{}
	var arrive []func()
	r := harness.NewRand(uint64(e.P("hseed")))
	for i := e.P("late"); i > 0 && len(spans) > 0; i-- {
		s := spans[r.N(len(spans))]
		if s.lo == s.hi || late.has(s.c) || s.c.Equals(nd.Cid()) {
			continue
		}
		late.add(s.c)
		arrive = append(arrive, e.W.Hold(s.c))
		e.Logf("late: %s", s.c)
		e.W.Fired["late block"]++
	}
	avail := uint64(len(data))
	touched := func(lo, hi uint64) bool { // whether a late block has some of it
		for _, s := range spans {
			if late.has(s.c) && s.lo < hi && s.hi > lo {
				return true
			}
		}
		return false
	}
	for _, s := range spans {
		if late.has(s.c) {
			avail = min(avail, s.lo)
		}
	}
	dag := e.W.DAG()
	e.W.Armed = true
	var ts []*task
	for _, op := range e.C.Ops {
		t := lateStart(e, op, func(t *task) error {
			if t.what == "mod" || t.what == "modrange" {
				dm, err := mod.NewDagModifier(e.Ctx, nd, dag, func(r io.Reader) chunker.Splitter { return chunker.NewSizeSplitter(r, 8) })
				if err != nil {
					return err
				}
				if t.what == "mod" {
					return t.readAll(dm)
				}
				if _, err := dm.Seek(t.a, io.SeekStart); err != nil {
					return err
				}
				t.got = make([]byte, t.b)
				_, err = io.ReadFull(dm, t.got)
				return err
			}
			if t.what == "view" {
				n, err := unixfile.NewUnixfsFile(e.Ctx, dag, nd)
				if err != nil {
					return err
				}
				return t.readAll(n.(files.File))
			}
			dr, err := uio.NewDagReader(e.Ctx, nd, dag)
			if err != nil {
				return err
			}
			switch t.what {
			case "copy":
				_, err = dr.WriteTo(t)
				return err
			case "range":
				if _, err := dr.Seek(t.a, io.SeekStart); err != nil {
					return err
				}
				t.got = make([]byte, t.b)
				_, err = io.ReadFull(dr, t.got)
				return err
			}
			return t.readAll(dr)
		})
		ts = append(ts, t)
		if e.P("late") == 0 || e.C.Seed%2 == 0 {
			e.W.S.Sleep(forever)
		}
	}
	e.W.S.Sleep(forever)
	for _, t := range ts {
		e.Check()
		if t.done && t.err != nil {
			e.Failf("late-error", "%s (%d, %d) of %d: unexpected error %v", t.what, t.a, t.b, len(data), t.err)
		}
		switch t.what {
		case "range", "modrange":
			if !touched(uint64(t.a), uint64(t.a+t.b)) && !t.done {
				e.Failf("held-up", "%s [%d,%d) of %d waits for a block that has none of it", t.what, t.a, t.a+t.b, len(data))
			}
		case "copy":
			if uint64(len(t.got)) < avail {
				e.Failf("held-up", "a copy of a file of %d has written %d bytes, though %d have arrived", len(data), len(t.got), avail)
			}
		default:
			if uint64(len(t.got))+uint64(max(1, t.b)) <= avail {
				e.Failf("held-up", "%s of a file of %d, %d at a time, has got %d bytes, though %d have arrived", t.what, len(data), t.b, len(t.got), avail)
			}
		}
		if !t.done {
			e.Probe("waited for a late block")
		} else if len(late) > 0 {
			e.Probe("not held up by a late block")
		}
	}
	for _, f := range arrive {
		f()
	}
	e.W.S.Sleep(forever)
	for _, t := range ts {
		e.Check()
		if !t.done || t.err != nil {
			e.Failf("late-stuck", "%s (%d, %d) of %d has not ended well though every block has arrived: %v", t.what, t.a, t.b, len(data), t.err)
		}
		want := data
		if t.what == "range" || t.what == "modrange" {
			want = data[t.a : t.a+t.b]
		} else if most := (tree.rounds() + 3) * world.FixedLat; e.P("late") == 0 {
			e.Logf("%s took %d rounds of at most %d, %d blocks", t.what, t.took/world.FixedLat, most/world.FixedLat, len(spans))
			if t.took > most {
				e.Failf("one-by-one", "%s of a file of %d blocks takes as long as %d fetches one after the other, %d are enough", t.what, len(spans), t.took/world.FixedLat, most/world.FixedLat)
			}
			if int64(len(spans)) > 2*tree.rounds() {
				e.Probe("fetched side by side")
			}
		}
		if !eq(t.got, want) {
			e.Failf("late-content", "%s (%d, %d): %s", t.what, t.a, t.b, diff(t.got, want))
		}
	}
}

func lateDir(e *harness.Env) {
	uio.DefaultShardWidth = int(e.P("width"))
	uio.HAMTShardingSize = 0
	q := e.W.Quiet()
	m := dirModel{}
	sh, err := hamt.NewShard(q, int(e.P("width")))
	if err != nil {
		e.Failf("setup", "%v", err)
	}
	sh.SetCidBuilder(cidBuilder(e.P("cid")))
	for v := int64(0); v < 40; v++ {
		q.Add(e.Ctx, value(e, v))
	}
	for i := int64(0); i < e.P("n"); i++ {
		v := value(e, i%40)
		if err := sh.Set(e.Ctx, dirName(e, i), v); err != nil {
			e.Failf("setup", "%v", err)
		}
		m[dirName(e, i)] = entryOf(v)
	}
	nd, err := sh.Node()
	if err != nil {
		e.Failf("setup", "%v", err)
	}
	paths := pathsOf(e, nd.Cid(), e.P("width"))
	pathOf := map[string]cset{}
	levels := 0
	where := func(name string) cset {
		if pathOf[name] == nil {
			pathOf[name] = cset{}
			paths.path(pathOf[name], name)
			levels = max(levels, len(pathOf[name]))
		}
		return pathOf[name]
	}
	var shards []string
	for k := range paths.every {
		if k != string(nd.Cid().Hash()) {
			shards = append(shards, k)
		}
	}
	sort.Strings(shards)
	for name := range m {
		where(name)
	}
	e.W.Split()
	late := cset{}
	var arrive []func()
	r := harness.NewRand(uint64(e.P("hseed")))
	for i := e.P("late"); i > 0 && len(shards) > 0; i-- {
		if k := shards[r.N(len(shards))]; !late[k] {
			late[k] = true
			arrive = append(arrive, e.W.Hold(cid.NewCidV1(cid.DagProtobuf, []byte(k))))
			e.W.Fired["late block"]++
		}
	}
	held := func(name string) bool {
		for k := range where(name) {
			if late[k] {
				return true
			}
		}
		return false
	}
	dag := e.W.DAG()
	e.W.Armed = true
	var ts []*task
	for _, op := range e.C.Ops {
		t := lateStart(e, op, func(t *task) error {
			var d uio.Directory
			s, err := hamt.NewHamtFromDag(dag, nd)
			if t.b%2 == 0 {
				d, err = uio.NewDirectoryFromNode(dag, nd)
			}
			if err != nil {
				return err
			}
			enum := s.EnumLinksAsync
			links := s.EnumLinks
			if d != nil {
				enum, links = d.EnumLinksAsync, d.Links
			}
			switch t.what {
			case "enum":
				for x := range enum(e.Ctx) {
					if x.Err != nil {
						return x.Err
					}
					t.entry(x.Link)
				}
			case "links":
				ls, err := links(e.Ctx)
				if err != nil {
					return err
				}
				for _, l := range ls {
					t.entry(l)
				}
			case "find":
				name := dirName(e, t.a)
				if d != nil {
					n, err := d.Find(e.Ctx, name)
					if err == nil {
						sz, _ := n.Size()
						t.names[name] = entry{string(n.Cid().Bytes()), sz}
					} else if !notExist(err) {
						return err
					}
					return nil
				}
				l, err := s.Find(e.Ctx, name)
				if err == nil {
					t.names[name] = entry{string(l.Cid.Bytes()), l.Size}
				} else if !notExist(err) {
					return err
				}
			case "resolve":
				name := dirName(e, t.a)
				l, _, err := uio.ResolveUnixfsOnce(e.Ctx, dag, nd, []string{name})
				if err == nil {
					t.names[name] = entry{string(l.Cid.Bytes()), l.Size}
				} else if !notExist(err) {
					return err
				}
			}
			return nil
		})
		ts = append(ts, t)
		if e.P("late") == 0 || e.C.Seed%2 == 0 {
			e.W.S.Sleep(forever)
		}
	}
	e.W.S.Sleep(forever)
	for _, t := range ts {
		e.Check()
		if t.done && t.err != nil {
			e.Failf("late-error", "%s: unexpected error %v", t.what, t.err)
		}
		switch t.what {
		case "enum":
			for name := range m {
				if _, ok := t.names[name]; !ok && !held(name) {
					e.Failf("held-up", "EnumLinksAsync does not show %q, though only %d shards, which do not lead to it, have not arrived; it shows %d of %d entries", name, len(late), len(t.names), len(m))
				}
			}
		case "find", "resolve":
			if name := dirName(e, t.a); !t.done && !held(name) {
				e.Failf("held-up", "%s of %q waits for a shard that does not lead to it", t.what, name)
			}
		}
		if !t.done {
			e.Probe("waited for a late block")
		} else if len(late) > 0 {
			e.Probe("not held up by a late block")
		}
	}
	for _, f := range arrive {
		f()
	}
	e.W.S.Sleep(forever)
	most := int64(2*levels + 3 + len(shards)/8)
	for _, t := range ts {
		e.Check()
		if !t.done || t.err != nil {
			e.Failf("late-stuck", "%s has not ended well though every block has arrived: %v", t.what, t.err)
		}
		if t.twice != "" {
			e.Failf("late-content", "%s lists %q twice", t.what, t.twice)
		}
		if t.what == "find" || t.what == "resolve" {
			name := dirName(e, t.a)
			if got, want := t.names[name], m[name]; got.cid != want.cid {
				e.Failf("late-content", "%s of %q leads to another node", t.what, name)
			}
			continue
		}
		for name, want := range m {
			if t.names[name] != want {
				e.Failf("late-content", "%s has %v for %q, want %v", t.what, t.names[name], name, want)
			}
		}
		if len(t.names) != len(m) {
			e.Failf("late-content", "%s lists %d of %d entries", t.what, len(t.names), len(m))
		}
		if e.P("late") > 0 {
			continue
		}
		e.Logf("%s took %d rounds of at most %d, %d shards", t.what, t.took/world.FixedLat, most, len(shards))
		if t.took > most*world.FixedLat {
			e.Failf("one-by-one", "%s of %d shards on %d levels takes as long as %d fetches one after the other, %d are enough", t.what, len(shards), levels, t.took/world.FixedLat, most)
		}
		if int64(len(shards)) > 2*most {
			e.Probe("fetched side by side")
		}
	}
}

var _ = register(&harness.Prop{
	ID: "U28", Title: "A late block delays only what needs it; blocks are fetched side by side",
	Rule: "A file of any layout or a sharded directory, with 1-3 blocks that do not arrive until all else has come to rest, and 1-5 readers, copies, ranges, modifiers, files.Node views, enumerations, listings and lookups at once or one " +
		"after another; or none late, and each fetch taking the same virtual time, which the whole operation's is measured in.",
	Gen: func(r *harness.Rand, thorough bool) *harness.Case {
		c := &harness.Case{P: map[string]int64{}, World: r.World(), Sched: r.Sched()}
		c.Sched.WorldProb = 0 // time passes only when nothing can go on
		c.P["late"] = r.Pick(0, 1, 1, 1, 2, 3)
		c.P["hseed"] = int64(r.U() >> 40)
		c.P["what"] = int64(r.N(2))
		if c.World.Mode == 1 && r.P(30) {
			c.World.Remote = 0
		}
		if c.P["late"] == 0 {
			c.World.Lat = world.LatFixed
			if c.World.Mode == 0 {
				c.World.Remote = 100 // a local disk is read block by block
			}
		}
		if c.P["what"] == 0 {
			n := shapeParams(r, c.P, thorough)
			if c.P["shape"] >= shUneven && r.P(70) {
				c.P["shape"] = int64(r.N(2))
			}
			if r.P(40) {
				c.P["mlinks"] = int64(r.In(10, 60))
			}
			for k := r.In(1, 5); k > 0; k-- {
				op := harness.Op{K: r.PickS("read", "copy", "range", "range", "range", "view", "mod", "modrange"), A: r.N64(n + 1)}
				op.B = int64(r.Small(3*int(c.P["chunk"])) + 1)
				if op.K == "range" || op.K == "modrange" {
					op.B = min(op.B, n-op.A)
				} else {
					op.A = 0
				}
				c.Ops = append(c.Ops, op)
			}
			return c
		}
		c.P["width"] = r.Pick(8, 8, 8, 16, 16, 32, 256, 1024)
		c.P["cid"] = r.Pick(0, 1)
		c.P["names"] = r.Pick(0, 0, 0, 1, 1, 4)
		c.P["nseed"] = int64(r.U() >> 50)
		n := r.Small(150)
		if thorough {
			n = r.Small(500)
		}
		c.P["n"] = int64(n)
		for k := r.In(1, 5); k > 0; k-- {
			c.Ops = append(c.Ops, harness.Op{K: r.PickS("enum", "enum", "enum", "links", "find", "resolve"), A: int64(r.N(n + 5)), B: int64(r.N(2))})
		}
		return c
	},
	Exec: func(e *harness.Env) {
		if e.P("what") == 0 {
			lateFile(e)
		} else {
			lateDir(e)
		}
		e.W.Armed = false
	},
	Leak: true, Shrink: map[string]int64{"len": 0, "shape": 0, "raw": 0, "cid": 0, "kind": 0, "n": 0}, Real: realAll, Stub: stubAll,
})
