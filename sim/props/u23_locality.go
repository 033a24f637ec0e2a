package props

import (
	"context"
	"errors"
	"fmt"
	"io"
	"os"

	cid "github.com/ipfs/go-cid"
	chunker "github.com/ipfs/go-ipfs-chunker"
	files "github.com/ipfs/go-ipfs-files"
	ipld "github.com/ipfs/go-ipld-format"
	mdag "github.com/ipfs/go-merkledag"

	unixfile "github.com/ipfs/go-unixfs/file"
	"github.com/ipfs/go-unixfs/hamt"
	help "github.com/ipfs/go-unixfs/importer/helpers"
	"github.com/ipfs/go-unixfs/importer/trickle"
	uio "github.com/ipfs/go-unixfs/io"
	"github.com/ipfs/go-unixfs/mod"

	"verifsim/harness"
)

// cset is a set of blocks, by multihash.
type cset map[string]bool

func (s cset) add(c cid.Cid)      { s[string(c.Hash())] = true }
func (s cset) has(c cid.Cid) bool { return s[string(c.Hash())] }

// fnode is a node of a stored file.
type fnode struct {
	c    cid.Cid
	size uint64
	kids []*fnode
}

func fileTree(e *harness.Env, c cid.Cid) *fnode {
	nd, err := getNode(e.W, c)
	if err != nil {
		e.Failf("setup", "%v", err)
	}
	f := &fnode{c: c}
	if r, ok := nd.(*mdag.RawNode); ok {
		f.size = uint64(len(r.RawData()))
		return f
	}
	u, err := decodeUnixfs(nd.(*mdag.ProtoNode).Data())
	if err != nil {
		e.Failf("setup", "%v", err)
	}
	f.size = uint64(len(u.data))
	for _, l := range nd.Links() {
		k := fileTree(e, l.Cid)
		f.kids = append(f.kids, k)
		f.size += k.size
	}
	return f
}

func (f *fnode) all(in cset) {
	in.add(f.c)
	for _, k := range f.kids {
		k.all(in)
	}
}

// ahead is how many of a node's children may be fetched beyond the ones that
// are needed.
const ahead = 15

// around adds what reading [lo,hi) may fetch: the nodes that hold any of it,
// and a few of the siblings after these. It returns how many hold some.
func (f *fnode) around(in cset, lo, hi uint64, ahead int) int {
	in.add(f.c)
	n := 1
	var at uint64
	last := -1
	for i, k := range f.kids {
		end := at + k.size
		if at < hi && end > lo || k.size == 0 && at >= lo && at <= hi {
			n += k.around(in, lo-min(lo, at), hi-at, ahead)
			last = i
		}
		at = end
	}
	if last >= 0 {
		for i := last + 1; i <= last+ahead && i < len(f.kids); i++ {
			in.add(f.kids[i].c)
		}
	}
	return n
}

// upTo adds what cutting at n may fetch: the path to the cut, and the children
// before it of the nodes on that path.
func (f *fnode) upTo(in cset, n uint64) {
	in.add(f.c)
	for _, k := range f.kids {
		in.add(k.c)
		if n < k.size {
			k.upTo(in, n)
			return
		}
		n -= k.size
	}
}

// edge adds the right edge.
func (f *fnode) edge(in cset) int {
	in.add(f.c)
	if len(f.kids) == 0 {
		return 1
	}
	return 1 + f.kids[len(f.kids)-1].edge(in)
}

// watch collects what is asked for and what is written.
type watch struct {
	e    *harness.Env
	may  cset // may be asked for
	req  []cid.Cid
	puts []cid.Cid
	done int
	dag  ipld.DAGService // to be used
}

func newWatch(e *harness.Env) *watch {
	w := &watch{e: e, may: cset{}}
	e.W.OnReq = func(c cid.Cid) { w.req = append(w.req, c) }
	w.dag = spy{e.W.DAG(), func(n ipld.Node) {
		w.puts = append(w.puts, n.Cid())
		w.may.add(n.Cid()) // what one wrote one may read
	}}
	return w
}

// judge looks at everything asked for since the last time.
func (w *watch) judge(what string) {
	w.e.Check()
	for ; w.done < len(w.req); w.done++ {
		if c := w.req[w.done]; !w.may.has(c) {
			w.e.Failf("fetched-too-much", "%s asked for block %s, which it does not need", what, c)
		}
	}
}

func genLocal(r *harness.Rand, thorough bool) *harness.Case {
	c := &harness.Case{P: map[string]int64{}, World: r.World(), Sched: r.Sched()}
	if c.P["what"] = r.Pick(0, 0, 1, 1, 2, 2, 3); c.P["what"] <= 1 {
		n := shapeParams(r, c.P, thorough)
		if c.P["shape"] >= shUneven && r.P(70) {
			c.P["shape"] = int64(r.N(2))
		}
		if r.P(40) {
			c.P["mlinks"] = int64(r.In(20, 60)) // wider than what is fetched ahead
		}
		for k := r.In(1, 8); k > 0; k-- {
			op := harness.Op{A: r.N64(n + 2), B: int64(r.Small(3 * int(c.P["chunk"])))}
			if c.P["what"] == 0 {
				op.K = r.PickS("seek", "seek", "read", "read", "read", "size", "open", "copy")
			} else {
				op.K = r.PickS("write", "write", "write", "write", "truncate", "grow", "append", "node")
			}
			c.Ops = append(c.Ops, op)
		}
		return c
	}
	c.P["width"] = r.Pick(8, 8, 8, 16, 16, 32, 256, 1024)
	c.P["cid"] = r.Pick(0, 1)
	c.P["names"] = r.Pick(0, 0, 0, 1, 1, 4)
	c.P["nseed"] = int64(r.U() >> 50)
	c.P["thr"] = r.Pick(0, 0, 0, 1, 500, 3000)
	n := r.Small(120)
	if thorough {
		n = r.Small(400)
	}
	c.P["n"] = int64(n)
	for k := r.In(1, 10); k > 0; k-- {
		op := harness.Op{A: int64(r.N(n + 5)), B: int64(r.N(40))}
		if c.P["what"] == 2 {
			op.K = r.PickS("find", "find", "resolve", "add", "add", "rm", "rm", "node", "list", "open")
		} else {
			op.K = r.PickS("entries", "entries", "size", "open")
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func execLocal(e *harness.Env) {
	switch e.P("what") {
	case 0:
		localReader(e)
	case 1:
		localModifier(e)
	case 2:
		localDir(e)
	default:
		localWalk(e)
	}
	e.W.OnReq = nil
}

// excuse tells whether an error can be put down to the faults.
func excuse(e *harness.Env, what string, err error) {
	if len(e.W.Fired) == 0 {
		e.Failf("local-error", "%s: unexpected error %v", what, err)
	}
	e.Probe("failed operation")
	e.Logf("%s failed: %v", what, err)
}

func localReader(e *harness.Env) {
	data := content(e.P("cseed"), e.P("kind"), e.P("len"))
	nd, err := makeFile(e, e.W.Quiet(), data)
	if err != nil {
		e.Failf("setup", "%v", err)
	}
	t := fileTree(e, nd.Cid())
	e.W.Split()
	w := newWatch(e)
	dag := w.dag
	e.W.Armed = true
	var dr uio.DagReader
	open := func() {
		if dr, err = uio.NewDagReader(e.Ctx, nd, dag); err != nil {
			e.Failf("local-error", "NewDagReader: %v", err)
		}
		if len(w.req) > w.done {
			w.judge("opening a reader")
		}
	}
	open()
	var pos int64
	size := int64(len(data))
	for _, op := range e.C.Ops {
		switch op.K {
		case "open":
			open()
			pos = 0
		case "size":
			dr.Size()
		case "seek":
			n, err := dr.Seek(op.A, io.SeekStart)
			// whoever seeks is going to read there
			t.around(w.may, uint64(op.A), uint64(op.A)+1, ahead)
			if err != nil {
				excuse(e, "Seek", err)
				open()
				pos = 0
				break
			}
			pos = n
		case "read":
			b := make([]byte, op.B)
			t.around(w.may, uint64(pos), uint64(pos+max(1, op.B)), ahead)
			n, err := dr.Read(b)
			if err != nil && err != io.EOF {
				excuse(e, "Read", err)
				open()
				pos = 0
				break
			}
			if pos <= size && !eq(b[:n], data[pos:pos+int64(n)]) {
				e.Failf("local-content", "reading %d bytes at %d: %s", op.B, pos, diff(b[:n], data[pos:pos+int64(n)]))
			}
			pos += int64(n)
		case "copy":
			k := int64(op.B)
			t.around(w.may, uint64(pos), uint64(pos+k)+1, ahead)
			lw := &limitWriter{left: k}
			n, err := dr.WriteTo(lw)
			if err != nil && !errors.Is(err, errSink) {
				excuse(e, "WriteTo", err)
			}
			_ = n
			if err == nil {
				break
			}
			open()
			pos = 0
		}
		w.judge(op.K)
		e.Logf("%v: %d blocks asked for", op, len(w.req))
	}
	e.W.S.Sleep(1e10) // what goes on behind the scenes counts as well
	w.judge("reading ahead")
	e.W.Armed = false
}

// limitWriter takes some bytes and refuses more.
type limitWriter struct{ left int64 }

func (l *limitWriter) Write(p []byte) (int, error) {
	if int64(len(p)) > l.left {
		n := l.left
		l.left = 0
		return int(n), errSink
	}
	l.left -= int64(len(p))
	return len(p), nil
}

func localModifier(e *harness.Env) {
	help.DefaultLinksPerBlock = int(e.P("mlinks"))
	data := content(e.P("cseed"), e.P("kind"), e.P("len"))
	nd, err := makeFile(e, e.W.Quiet(), data)
	if err != nil {
		e.Failf("setup", "%v", err)
	}
	e.W.Split()
	w := newWatch(e)
	dag := w.dag
	e.W.Armed = true
	chunk := max(1, e.P("chunk"))
	var dm *mod.DagModifier
	open := func() {
		if dm, err = mod.NewDagModifier(e.Ctx, nd, dag, func(r io.Reader) chunker.Splitter { return chunker.NewSizeSplitter(r, chunk) }); err != nil {
			e.Failf("local-error", "NewDagModifier: %v", err)
		}
		if e.P("raw") == 1 {
			dm.RawLeaves = true
		}
	}
	open()
	w.judge("NewDagModifier")
	for i, op := range e.C.Ops {
		old := fileTree(e, nd.Cid())
		size := int64(old.size)
		w.may = cset{}
		nputs := len(w.puts)
		most := -1 // most blocks it may write
		var err error
		switch op.K {
		case "write": // within the file, or across its end
			off := op.A % (size + 1)
			b := content(int64(i)+7, 0, op.B)
			if len(b) == 0 {
				continue
			}
			touched := old.around(w.may, uint64(off), uint64(off+op.B), 0)
			if off+op.B > size {
				touched += old.edge(w.may)
				old.edge(w.may)
				most = touched + 3*int(off+op.B-size) + 8
			} else {
				most = touched
			}
			if _, err = dm.Seek(off, io.SeekStart); err == nil {
				if _, err = dm.Write(b); err == nil {
					err = dm.Sync()
				}
			}
			if err == nil {
				data = append(data[:off:off], append(b, data[min(size, off+op.B):]...)...)
			}
		case "truncate":
			to := op.A % (size + 1)
			old.upTo(w.may, uint64(to))
			most = len(w.may)
			if err = dm.Truncate(to); err == nil {
				data = data[:to]
			}
		case "grow":
			old.edge(w.may)
			if err = dm.Truncate(size + op.B); err == nil {
				data = append(data[:size:size], make([]byte, op.B)...)
			}
		case "append": // with the trickle package itself
			base, gerr := dm.GetNode()
			if gerr != nil {
				e.Failf("local-error", "GetNode: %v", gerr)
			}
			if _, ok := base.(*mdag.ProtoNode); !ok || len(base.Links()) == 0 {
				continue
			}
			more := content(int64(i)+3, 0, op.B)
			old.edge(w.may)
			db, berr := buildParams(e, dag).New(chunker.NewSizeSplitter(&stream{e: e, data: more}, chunk))
			if berr != nil {
				e.Failf("local-error", "%v", berr)
			}
			var out ipld.Node
			if out, err = trickle.Append(e.Ctx, base, db); err == nil {
				if err = dag.Add(e.Ctx, out); err == nil {
					nd = out
					data = append(data[:size:size], more...)
				}
			}
		case "node":
		}
		w.judge(op.K)
		if err != nil {
			excuse(e, op.K, err)
			open()
			continue
		}
		if op.K != "append" {
			n, err := dm.GetNode()
			if err != nil {
				e.Failf("local-error", "GetNode: %v", err)
			}
			nd = n
		}
		if k := len(w.puts) - nputs; most >= 0 && k > most+2 {
			e.Failf("wrote-too-much", "%s wrote %d blocks, %d of the file's nodes are affected", op, k, most)
		}
		got, err := fileBytes(e.W, nd.Cid())
		if err != nil {
			e.Failf("local-content", "after %v: %v", op, err)
		}
		if !eq(got, data) {
			e.Failf("local-content", "after %v: %s", op, diff(got, data))
		}
		open()
		e.Logf("%v: %d blocks asked for, %d written", op, len(w.req), len(w.puts))
	}
	e.W.Armed = false
}

// dirPaths knows the shards of a stored sharded directory.
type dirPaths struct {
	e     *harness.Env
	root  cid.Cid
	width int64
	lg    int
	pad   int
	every cset
}

func (p *dirPaths) walk(c cid.Cid) {
	p.every.add(c)
	nd, err := getNode(p.e.W, c)
	if err != nil {
		p.e.Failf("setup", "%v", err)
	}
	for _, l := range nd.Links() {
		if len(l.Name) == p.pad {
			p.walk(l.Cid)
		}
	}
}

func pathsOf(e *harness.Env, root cid.Cid, width int64) *dirPaths {
	p := &dirPaths{e: e, root: root, width: width, every: cset{}}
	for 1<<p.lg < width {
		p.lg++
	}
	p.pad = len(fmt.Sprintf("%X", width-1))
	p.walk(root)
	return p
}

// path adds the shards a lookup of name leads through.
func (p *dirPaths) path(in cset, name string) {
	c := p.root
	h := nameHash(name)
	for d := 0; ; d++ {
		in.add(c)
		nd, err := getNode(p.e.W, c)
		if err != nil {
			p.e.Failf("setup", "%v", err)
		}
		if (d+1)*p.lg > 64 {
			return
		}
		slot := fmt.Sprintf("%0*X", p.pad, h<<uint(d*p.lg)>>uint(64-p.lg))
		next := cid.Undef
		for _, l := range nd.Links() {
			if l.Name == slot {
				next = l.Cid
			}
		}
		if !next.Defined() {
			return
		}
		c = next
	}
}

func localDir(e *harness.Env) {
	uio.DefaultShardWidth = int(e.P("width"))
	uio.HAMTShardingSize = 0
	q := e.W.Quiet()
	m := dirModel{}
	sh, err := hamt.NewShard(q, int(e.P("width")))
	if err != nil {
		e.Failf("setup", "%v", err)
	}
	sh.SetCidBuilder(cidBuilder(e.P("cid")))
	for v := int64(0); v < 40; v++ {
		q.Add(e.Ctx, value(e, v))
	}
	for i := int64(0); i < e.P("n"); i++ {
		v := value(e, i%40)
		if err := sh.Set(e.Ctx, dirName(e, i), v); err != nil {
			e.Failf("setup", "%v", err)
		}
		m[dirName(e, i)] = entryOf(v)
	}
	nd, err := sh.Node()
	if err != nil {
		e.Failf("setup", "%v", err)
	}
	uio.HAMTShardingSize = int(e.P("thr"))
	e.W.Split()
	w := newWatch(e)
	dag := w.dag
	e.W.Armed = true
	paths := pathsOf(e, nd.Cid(), e.P("width"))
	var d uio.Directory
	late := false // an abandoned listing may still ask for shards for a while
	fresh := func() {
		w.may = cset{}
		if late {
			for k := range paths.every {
				w.may[k] = true
			}
		}
	}
	open := func() {
		fresh()
		if d, err = uio.NewDirectoryFromNode(dag, nd); err != nil {
			e.Failf("local-error", "NewDirectoryFromNode: %v", err)
		}
		w.judge("opening a directory")
	}
	open()
	start := m.clone()
	touched := []string{}
	shrunk := false
	for _, op := range e.C.Ops {
		name := dirName(e, op.A)
		old, had := m[name]
		fresh()
		nputs := len(w.puts)
		was := isHAMT(d)
		if was {
			paths.path(w.may, name)
		}
		switch op.K {
		case "find":
			if had {
				c, _ := cid.Cast([]byte(old.cid))
				w.may.add(c)
			}
			touched = append(touched, name)
			if _, err := d.Find(e.Ctx, name); err != nil && !errors.Is(err, os.ErrNotExist) {
				excuse(e, "Find", err)
			} else if (err == nil) != had {
				e.Failf("local-content", "Find(%q): %v", name, err)
			}
		case "resolve": // on the stored directory
			_, had = start[name]
			fresh()
			paths.path(w.may, name)
			if _, _, err := uio.ResolveUnixfsOnce(e.Ctx, dag, nd, []string{name}); err != nil && !notExist(err) {
				excuse(e, "ResolveUnixfsOnce", err)
			} else if (err == nil) != had {
				e.Failf("local-content", "ResolveUnixfsOnce(%q): %v", name, err)
			}
		case "add", "rm":
			touched = append(touched, name)
			v := value(e, op.B)
			if op.K == "add" {
				err = d.AddChild(e.Ctx, name, v)
			} else {
				err = d.RemoveChild(e.Ctx, name)
			}
			switch {
			case err == nil && op.K == "add":
				m[name] = entryOf(v)
			case err == nil:
				delete(m, name)
			case !had && errors.Is(err, os.ErrNotExist):
			default:
				excuse(e, op.K, err)
			}
			// whether it has become small is found out by looking at all
			// of it, but only where it may have
			shrunk = shrunk || op.K == "rm" || had
			if was && uio.HAMTShardingSize > 0 && shrunk {
				late = true
				for k := range paths.every {
					w.may[k] = true
				}
			}
			vc := v.Cid()
			for _, p := range w.puts[nputs:] {
				if !was && op.K == "add" {
					break // it may have become sharded
				}
				if op.K != "add" || !p.Equals(vc) {
					e.Failf("wrote-too-much", "%v wrote block %s", op, p)
				}
			}
		case "list":
			if was {
				fresh()
				for k := range paths.every {
					w.may[k] = true
				}
			}
			times := map[string]int{}
			from := len(w.req)
			fired := len(e.W.Fired)
			ls, err := d.Links(e.Ctx)
			if err != nil {
				excuse(e, "Links", err)
				late = true
			} else if len(ls) != len(m) {
				e.Failf("local-content", "%d of %d entries are listed", len(ls), len(m))
			}
			for _, c := range w.req[from:] {
				k := string(c.Hash())
				// (locally, and then from a peer)
				if times[k]++; times[k] > 1 && !e.W.Remote[k] && !late && fired == 0 && len(e.W.Fired) == 0 {
					e.Failf("fetched-twice", "one listing asked for shard %s %d times", c, times[k])
				}
			}
		case "node":
			fresh()
			n, err := d.GetNode()
			if err != nil {
				excuse(e, "GetNode", err)
				break
			}
			if !isHAMT(d) {
				break
			}
			np := pathsOf(e, n.Cid(), e.P("width"))
			in := cset{}
			in.add(n.Cid())
			for _, name := range touched {
				np.path(in, name)
			}
			if e.P("thr") == 0 {
				for _, p := range w.puts[nputs:] {
					if !in.has(p) {
						e.Failf("wrote-too-much", "GetNode wrote shard %s, which nothing has touched", p)
					}
				}
			}
		case "open":
			open()
			m = start.clone()
			touched = touched[:0]
			shrunk = false
		}
		w.judge(op.K)
		e.Logf("%v: %d blocks asked for, %d written", op, len(w.req), len(w.puts))
	}
	e.W.Armed = false
}

func localWalk(e *harness.Env) {
	uio.DefaultShardWidth = int(e.P("width"))
	uio.HAMTShardingSize = 0
	q := e.W.Quiet()
	// directories of files of many blocks and of further directories
	deep := func(i int64) ipld.Node {
		e2 := e.With(map[string]int64{"shape": i % 2, "mlinks": 3, "chunk": 4, "raw": i / 2 % 2, "cid": e.P("cid")})
		f, err := makeFile(e2, q, content(i, 0, 5+i*7%60))
		if err != nil {
			e.Failf("setup", "%v", err)
		}
		return f
	}
	var dirs []ipld.Node
	for k := int64(0); k < 2; k++ {
		sh, err := hamt.NewShard(q, int(e.P("width")))
		if err != nil {
			e.Failf("setup", "%v", err)
		}
		sh.SetCidBuilder(cidBuilder(e.P("cid")))
		for i := int64(0); i < min(e.P("n"), 40); i++ {
			var v ipld.Node = deep(i + 100*k)
			if len(dirs) > 0 && i%5 == 0 {
				v = dirs[0]
			}
			if err := sh.Set(e.Ctx, dirName(e, i), v); err != nil {
				e.Failf("setup", "%v", err)
			}
		}
		nd, err := sh.Node()
		if err != nil {
			e.Failf("setup", "%v", err)
		}
		dirs = append(dirs, nd)
	}
	nd := dirs[1]
	e.W.Split()
	w := newWatch(e)
	dag := w.dag
	e.W.Armed = true
	var d files.Directory
	cancel := func() {}
	open := func() {
		cancel() // the way to abandon iterators
		var ctx context.Context
		ctx, cancel = context.WithCancel(e.Ctx)
		f, err := unixfile.NewUnixfsFile(ctx, dag, nd)
		if err != nil {
			e.Failf("local-error", "NewUnixfsFile: %v", err)
		}
		d = f.(files.Directory)
	}
	open()
	w.judge("opening a directory")
	every := pathsOf(e, nd.Cid(), e.P("width")).every
	entries, _, err := storedDir(e.W, nd.Cid(), false)
	if err != nil {
		e.Failf("setup", "%v", err)
	}
	for _, op := range e.C.Ops {
		switch op.K {
		case "open":
			open()
		case "size":
			if _, err := d.Size(); err != nil {
				e.Failf("local-error", "Size: %v", err)
			}
		case "entries":
			for k := range every {
				w.may[k] = true
			}
			for _, v := range entries {
				c, _ := cid.Cast([]byte(v.cid))
				w.may.add(c)
			}
			it := d.Entries()
			n := 0
			for it.Next() {
				n++
				if n > int(op.A) {
					break
				}
				if f, ok := it.Node().(files.File); ok && op.B%2 == 0 {
					f.Size()
				}
			}
			if err := it.Err(); err != nil {
				excuse(e, "Entries", err)
				open()
				break
			} else if n <= int(op.A) && n != len(entries) {
				e.Failf("local-content", "%d of %d entries", n, len(entries))
			}
			for it.Next() { // an iterator is to be used up
			}
			if it.Err() != nil { // it was not, and may be at work still
				open()
			}
		}
		w.judge(op.K)
		e.Logf("%v: %d blocks asked for", op, len(w.req))
	}
	e.W.S.Sleep(1e10)
	cancel()
	w.judge("walking")
	if len(w.puts) > 0 {
		e.Failf("wrote-too-much", "walking wrote %d blocks", len(w.puts))
	}
	e.W.Armed = false
}

var _ = register(&harness.Prop{
	ID: "U23", Title: "Operations fetch and write only the blocks they need",
	Rule: "Files of all layouts (fanouts 2-60) read, sought, copied, overwritten, cut, grown and appended to; sharded directories looked up, changed, listed, stored and walked as files.Node; every block " +
		"asked for is compared with the nodes that hold what the operation is about (readers may fetch up to 15 siblings ahead), every block written with the nodes affected, with 0-2 faults.",
	Gen: genLocal, Exec: execLocal, Leak: true,
	Shrink: map[string]int64{"len": 0, "raw": 0, "cid": 0, "kind": 0, "chunk": 1, "names": 0, "nseed": 0, "n": 0, "thr": 0}, Real: realAll, Stub: stubAll,
	Place: func(r *harness.Rand, c *harness.Case, counts map[string]int) {
		if r.P(35) {
			place(r, c, counts, append(append([]fk{}, readFaults...), writeFaults[0]), 2)
		}
	},
})
