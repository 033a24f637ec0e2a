package props

import (
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"sort"

	"github.com/ipfs/go-cid"
	files "github.com/ipfs/go-ipfs-files"
	ipld "github.com/ipfs/go-ipld-format"
	mdag "github.com/ipfs/go-merkledag"

	ft "github.com/ipfs/go-unixfs"
	unixfile "github.com/ipfs/go-unixfs/file"
	"github.com/ipfs/go-unixfs/hamt"
	uio "github.com/ipfs/go-unixfs/io"

	"verifsim/harness"
)

// fsNode is what a stored tree should look like.
type fsNode struct {
	nd   ipld.Node
	kind byte // 'f' file, 'd' directory, 'l' symlink
	data []byte
	kids map[string]*fsNode
	hamt bool
}

func (n *fsNode) names() []string { return harness.SortedKeys(n.kids) }

func with(e *harness.Env, set map[string]int64) *harness.Env { return e.With(set) }

func buildTree(e *harness.Env, q ipld.DAGService, r *harness.Rand, depth int, budget *int) *fsNode {
	*budget--
	k := r.N(10)
	if depth == 0 {
		k = 9
	}
	if depth >= 3 || *budget <= 0 {
		k = r.N(6)
	}
	switch {
	case k < 1:
		t := fmt.Sprintf("../target-%d", r.N(50))
		b, err := ft.SymlinkData(t)
		if err != nil {
			e.Failf("setup", "%v", err)
		}
		nd := mdag.NodeWithData(b)
		q.Add(e.Ctx, nd)
		return &fsNode{nd: nd, kind: 'l', data: []byte(t)}
	case k < 6:
		n := r.Small(120)
		data := content(int64(r.N(1000)), int64(r.N(3)), int64(n))
		nd, err := makeFile(with(e, map[string]int64{"shape": int64(r.N(nShapes)), "chunk": int64(r.In(1, 9)), "mlinks": int64(r.In(2, 4)), "raw": int64(r.N(2)),
			"useed": int64(r.N(1000))}), q, data)
		if err != nil {
			e.Failf("setup", "%v", err)
		}
		return &fsNode{nd: nd, kind: 'f', data: data}
	}
	d := &fsNode{kind: 'd', kids: map[string]*fsNode{}, hamt: r.P(60)}
	n := r.Small(24)
	if depth == 0 {
		n++
	}
	for i := 0; i < n && *budget > 0; i++ {
		name := dirName(e, int64(r.N(60)))
		if d.kids[name] != nil {
			continue
		}
		d.kids[name] = buildTree(e, q, r, depth+1, budget)
	}
	if d.hamt {
		sh, err := hamt.NewShard(q, int(r.Pick(e.P("width"), e.P("width"), 8, 64, 256)))
		if err != nil {
			e.Failf("setup", "%v", err)
		}
		sh.SetCidBuilder(cidBuilder(e.P("cid")))
		for _, k := range d.names() {
			if err := sh.Set(e.Ctx, k, d.kids[k].nd); err != nil {
				e.Failf("setup", "%v", err)
			}
		}
		if d.nd, err = sh.Node(); err != nil {
			e.Failf("setup", "%v", err)
		}
		if e.P("loose") == 1 && r.P(50) {
			d.nd = loosen(e, q, d.nd, r)
		}
		return d
	}
	p := ft.EmptyDirNode()
	p.SetCidBuilder(cidBuilder(e.P("cid")))
	for _, k := range d.names() {
		if err := p.AddNodeLink(k, d.kids[k].nd); err != nil {
			e.Failf("setup", "%v", err)
		}
	}
	d.nd = p
	q.Add(e.Ctx, p)
	return d
}

func genTree(r *harness.Rand, thorough bool) *harness.Case {
	c := &harness.Case{P: map[string]int64{}, World: r.World(), Sched: r.Sched()}
	c.P["width"] = r.Pick(8, 8, 16, 256, 1024)
	c.P["cid"] = r.Pick(0, 0, 0, 0, 1, 1, 2, 2, 4)
	c.P["names"] = r.Pick(0, 0, 1, 2)
	c.P["nseed"] = int64(r.U() >> 50)
	c.P["tseed"] = int64(r.U() >> 40)
	c.P["budget"] = int64(r.Small(40) + 2)
	c.P["loose"] = int64(b2i(r.P(10)))
	if thorough {
		c.P["budget"] = int64(r.Small(150) + 2)
	}
	return c
}

func loadTree(e *harness.Env) (*fsNode, ipld.DAGService) {
	uio.DefaultShardWidth = int(e.P("width"))
	uio.HAMTShardingSize = 0
	budget := int(e.P("budget"))
	t := buildTree(e, e.W.Quiet(), harness.NewRand(uint64(e.P("tseed"))), 0, &budget)
	e.W.Split()
	return t, e.W.DAG()
}

// ---- U14: lookups ----

func notExist(err error) bool {
	return errors.Is(err, os.ErrNotExist) || errors.Is(err, mdag.ErrLinkNotFound)
}

func execResolve(e *harness.Env) {
	t, dag := loadTree(e)
	puts := e.W.Ops["put"] + e.W.Ops["putmany"]
	e.W.Armed = true
	var fs []func()
	per := make([][]harness.Op, 4)
	for i, op := range e.C.Ops {
		k := i % int(max(1, e.P("par")))
		per[k%4] = append(per[k%4], op)
	}
	for _, ops := range per {
		ops := ops
		if len(ops) > 0 {
			fs = append(fs, func() {
				for _, op := range ops {
					resolvePath(e, dag, t, op, true)
				}
			})
		}
	}
	e.Par(fs...)
	e.W.Armed = false
	for _, op := range e.C.Ops {
		op.C = 0
		resolvePath(e, dag, t, op, false)
	}
	if n := e.W.Ops["put"] + e.W.Ops["putmany"] + e.W.Ops["delete"] - puts; n > 0 {
		e.Failf("resolve-writes", "lookups wrote to the store %d times", n)
	}
}

func resolvePath(e *harness.Env, dag ipld.DAGService, t *fsNode, op harness.Op, faulty bool) {
	r := harness.NewRand(uint64(op.A))
	// a path through the tree, which may leave it
	var names []string
	for n := t; n != nil && n.kind == 'd'; {
		ks := n.names()
		k := ""
		if len(ks) > 0 && !r.P(18) {
			k = ks[r.N(len(ks))]
		} else {
			k = dirName(e, int64(r.N(70)))
		}
		names = append(names, k)
		n = n.kids[k]
	}
	ctx, cancel := context.WithCancel(e.Ctx)
	defer cancel()
	if op.C == 1 {
		cancel()
	} else if op.C > 1 {
		e.W.S.After(op.C, cancel)
	}
	excused := func(what string, err error) bool {
		if !faulty || len(e.W.Fired) == 0 && op.C == 0 {
			e.Failf("resolve-error", "%s: unexpected error %v", what, err)
		}
		blame(e, what, err, op.C != 0)
		e.Probe("failed " + op.K)
		e.Logf("%s failed: %v", what, err)
		return true
	}
	cur, nd := t, t.nd
	path := append([]string(nil), names...)
	for len(names) > 0 {
		want := cur.kids[names[0]]
		e.Check()
		var c cid.Cid
		if op.K == "find" {
			d, err := uio.NewDirectoryFromNode(dag, nd)
			if err != nil {
				e.Failf("resolve-open", "NewDirectoryFromNode(%q): %v", path, err)
			}
			n, err := d.Find(ctx, names[0])
			switch {
			case err == nil && want == nil:
				e.Failf("resolve-phantom", "Find(%q) of %q found an absent entry", names[0], path)
			case err == nil:
				c = n.Cid()
			case notExist(err):
				if want != nil {
					e.Failf("resolve-missing", "Find(%q) of %q says the entry does not exist: %v", names[0], path, err)
				}
				return
			default:
				excused("Find", err)
				return
			}
			names = names[1:]
		} else {
			if r.P(4) {
				if l, _, err := uio.ResolveUnixfsOnce(ctx, dag, nd, nil); err == nil {
					e.Failf("resolve-empty", "resolving an empty path of a directory led to %v", l)
				}
			}
			in := append([]string(nil), names...)
			l, rest, err := uio.ResolveUnixfsOnce(ctx, dag, nd, in)
			switch {
			case err == nil && want == nil:
				e.Failf("resolve-phantom", "resolving %q of %q found an absent entry", names[0], path)
			case err == nil:
				c = l.Cid
			case notExist(err):
				if want != nil {
					e.Failf("resolve-missing", "resolving %q of %q says the entry does not exist: %v", names[0], path, err)
				}
				return
			default:
				excused("ResolveUnixfsOnce", err)
				return
			}
			if len(rest) != len(names)-1 || len(rest) > 0 && rest[0] != names[1] {
				e.Failf("resolve-rest", "resolving one step of %q left %q", names, rest)
			}
			names = append([]string(nil), rest...)
		}
		if !c.Equals(want.nd.Cid()) {
			e.Failf("resolve-wrong", "a step of %q leads to %s, want %s", path, c, want.nd.Cid())
		}
		cur = want
		if len(names) == 0 || cur.kind != 'd' {
			break
		}
		var err error
		if nd, err = dag.Get(ctx, c); err != nil {
			excused("Get", err)
			return
		}
	}
	e.Logf("%s %q", op.K, path)
}

var treeShrink = map[string]int64{"loose": 0, "budget": 2, "names": 0, "nseed": 0, "cid": 0, "par": 1}

var _ = register(&harness.Prop{
	ID: "U14", Title: "Lookups find what is there, and say \"does not exist\" only when it does not",
	Rule: "Trees of basic and sharded directories (widths 8-256, also with needless and empty shards, colliding and awkward names) up to 3 levels deep; 1-12 path lookups through ResolveUnixfsOnce and Directory.Find by up to 4 concurrent clients " +
		"on the same root, with 0-4 faults among the fetches and contexts that end early; then all of them again undisturbed.",
	Gen: func(r *harness.Rand, thorough bool) *harness.Case {
		c := genTree(r, thorough)
		c.P["par"] = int64(r.In(1, 4))
		for n := r.In(1, 12); n > 0; n-- {
			op := harness.Op{K: r.PickS("find", "resolve"), A: int64(r.U() >> 40)}
			if r.P(12) {
				op.C = 1 + r.N64(int64(r.Pick(1, 1_000_000, 30_000_000)))
			}
			c.Ops = append(c.Ops, op)
		}
		return c
	},
	Exec: execResolve, Leak: true, Shrink: treeShrink, Real: realAll, Stub: stubAll,
	Place: func(r *harness.Rand, c *harness.Case, counts map[string]int) {
		if r.P(75) {
			place(r, c, counts, readFaults, 4)
		}
	},
})

// ---- U15: files.Node ----

type walker struct {
	e    *harness.Env
	dag  ipld.DAGService
	ctx  context.Context
	r    *harness.Rand
	ok   func() bool // errors are to be expected
	stop int         // entries after which to walk away, if > 0
	seen int
}

var errWalk = errors.New("walk failed")

func (w *walker) fail(what string, err error) error {
	if !w.ok() {
		w.e.Failf("file-error", "%s: unexpected error %v", what, err)
	}
	blame(w.e, what, err, w.ctx.Err() != nil)
	w.e.Probe("failed " + what)
	w.e.Logf("%s: %v", what, err)
	return errWalk
}

func (w *walker) walk(n files.Node, t *fsNode, path string) error {
	e := w.e
	e.Check()
	sz, err := n.Size()
	if err != nil {
		e.Failf("file-size", "Size of %q: %v", path, err)
	}
	switch t.kind {
	case 'l':
		l, ok := n.(*files.Symlink)
		if !ok {
			e.Failf("file-kind", "%q is a symlink but shows as %T", path, n)
		}
		if l.Target != string(t.data) {
			e.Failf("file-link", "%q points to %q, want %q", path, l.Target, t.data)
		}
	case 'f':
		f, ok := n.(files.File)
		if !ok {
			e.Failf("file-kind", "%q is a file but shows as %T", path, n)
		}
		if sz != int64(len(t.data)) {
			e.Failf("file-size", "%q: Size() = %d, want %d", path, sz, len(t.data))
		}
		off := int64(0)
		if w.r.P(40) {
			off = w.r.N64(int64(len(t.data)) + 1)
			if got, err := f.Seek(off, io.SeekStart); err != nil {
				return w.fail("Seek", err)
			} else if got != off {
				e.Failf("file-seek", "%q: Seek(%d) = %d", path, off, got)
			}
		}
		var got []byte
		if w.r.P(50) {
			s := &sink{limit: -1}
			_, err = io.Copy(s, f)
			got = s.got
		} else {
			got, err = io.ReadAll(f)
		}
		if int64(len(got)) > int64(len(t.data))-off || !eq(got, t.data[off:off+int64(len(got))]) {
			e.Failf("file-content", "%q from %d: %s", path, off, diff(got, t.data[off:]))
		}
		if err != nil {
			return w.fail("read", err)
		}
		if int64(len(got)) != int64(len(t.data))-off {
			e.Failf("file-content", "%q from %d: %s", path, off, diff(got, t.data[off:]))
		}
		f.Close()
	case 'd':
		d, ok := n.(files.Directory)
		if !ok {
			e.Failf("file-kind", "%q is a directory but shows as %T", path, n)
		}
		if want, _ := t.nd.Size(); uint64(sz) != want {
			e.Failf("file-size", "directory %q: Size() = %d, want the cumulative size %d", path, sz, want)
		}
		left := map[string]bool{}
		for k := range t.kids {
			left[k] = true
		}
		it := d.Entries()
		type sub struct {
			n files.Node
			t *fsNode
			p string
		}
		var subs []sub
		for it.Next() {
			k := it.Name()
			kt := t.kids[k]
			if kt == nil {
				e.Failf("file-phantom", "%q lists %q, which does not exist", path, k)
			}
			if !left[k] {
				e.Failf("file-twice", "%q lists %q twice", path, k)
			}
			delete(left, k)
			if it.Node() == nil {
				e.Failf("file-nil", "%q/%q has no node", path, k)
			}
			w.seen++
			if w.stop > 0 && w.seen >= w.stop {
				return errWalk
			}
			if w.r.P(50) {
				if err := w.walk(it.Node(), kt, path+"/"+k); err != nil {
					return err
				}
			} else {
				subs = append(subs, sub{it.Node(), kt, path + "/" + k})
			}
		}
		if err := it.Err(); err != nil {
			if it.Next() {
				e.Failf("file-next", "%q: Next after an error", path)
			}
			return w.fail("Entries", err)
		}
		if len(left) > 0 {
			var ks []string
			for k := range left {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			e.Failf("file-partial", "listing %q ended without an error before %q", path, ks)
		}
		if it.Next() {
			e.Failf("file-next", "%q: Next after the end", path)
		}
		for _, s := range subs {
			if err := w.walk(s.n, s.t, s.p); err != nil {
				return err
			}
		}
		d.Close()
	}
	return nil
}

func execFile(e *harness.Env) {
	t, dag := loadTree(e)
	puts := e.W.Ops["put"] + e.W.Ops["putmany"]
	e.W.Armed = true
	var fs []func()
	for i, op := range e.C.Ops {
		i, op := i, op
		fs = append(fs, func() {
			ctx, cancel := context.WithCancel(e.Ctx)
			defer cancel()
			if op.C == 1 {
				cancel()
			} else if op.C > 1 {
				e.W.S.After(op.C, cancel)
			} else if stalls(e) {
				e.W.S.After(1e15, cancel)
			}
			w := &walker{e: e, dag: dag, ctx: ctx, r: harness.NewRand(uint64(op.A + int64(i))), stop: int(op.B), ok: func() bool { return len(e.W.Fired) > 0 || ctx.Err() != nil }}
			f, err := unixfile.NewUnixfsFile(ctx, dag, t.nd)
			if err != nil {
				w.fail("NewUnixfsFile", err)
				return
			}
			if err := w.walk(f, t, ""); err == nil {
				e.Probe("complete walk")
			}
		})
	}
	e.Par(fs...)
	e.W.Armed = false
	w := &walker{e: e, dag: dag, ctx: e.Ctx, r: harness.NewRand(9), ok: func() bool { return false }}
	f, err := unixfile.NewUnixfsFile(e.Ctx, dag, t.nd)
	if err != nil {
		e.Failf("file-error", "NewUnixfsFile: %v", err)
	}
	if err := w.walk(f, t, ""); err != nil {
		e.Failf("file-error", "undisturbed walk: %v", err)
	}
	if n := e.W.Ops["put"] + e.W.Ops["putmany"] + e.W.Ops["delete"] - puts; n > 0 {
		e.Failf("file-writes", "walking wrote to the store %d times", n)
	}
	e.Logf("walked %d entries", w.seen)
}

var _ = register(&harness.Prop{
	ID: "U15", Title: "The files.Node view shows exactly the stored tree",
	Rule: "Trees of basic and sharded directories, files of all layouts and symlinks; 1-3 concurrent walks reading everything (with seeks and copies), some abandoned or cancelled, with 0-4 faults or stalls among " +
		"the fetches; then one undisturbed.",
	Gen: func(r *harness.Rand, thorough bool) *harness.Case {
		c := genTree(r, thorough)
		for n := int(r.Pick(1, 1, 1, 2, 3)); n > 0; n-- {
			op := harness.Op{K: "walk", A: int64(r.U() >> 40)}
			if r.P(25) {
				op.C = 1 + r.N64(int64(r.Pick(1, 1_000_000, 30_000_000, 500_000_000)))
			} else if r.P(15) {
				op.B = int64(r.In(1, 10))
			}
			c.Ops = append(c.Ops, op)
		}
		return c
	},
	Exec: execFile, Leak: true, Shrink: treeShrink, Real: realAll, Stub: stubAll,
	Place: func(r *harness.Rand, c *harness.Case, counts map[string]int) {
		if r.P(75) {
			place(r, c, counts, append([]fk{{"get", []string{"stall"}}, {"item", []string{"stall"}}}, readFaults...), 4)
		}
	},
})
