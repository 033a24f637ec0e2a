package props

import (
	"context"
	"fmt"
	"io"
	"slices"

	chunker "github.com/ipfs/go-ipfs-chunker"
	files "github.com/ipfs/go-ipfs-files"
	ipld "github.com/ipfs/go-ipld-format"
	mdag "github.com/ipfs/go-merkledag"

	ft "github.com/ipfs/go-unixfs"
	unixfile "github.com/ipfs/go-unixfs/file"
	"github.com/ipfs/go-unixfs/hamt"
	help "github.com/ipfs/go-unixfs/importer/helpers"
	"github.com/ipfs/go-unixfs/importer/trickle"
	uio "github.com/ipfs/go-unixfs/io"
	"github.com/ipfs/go-unixfs/mod"

	"verifsim/harness"
)

// grace is how long, in virtual time, an operation that only reads may take to
// notice that its context has ended.
const grace = int64(100e6)

// canceller runs one operation after the other, each with a context that ends
// at some point, over a store that at some point stops answering.
type canceller struct {
	e    *harness.Env
	ends *int64 // when the current operation's context ended
}

// with runs f and requires it to return once its context has ended. Should it
// not, the run ends in a deadlock, which is reported as such.
func (c *canceller) with(op harness.Op, reads bool, f func(ctx context.Context) error) {
	e := c.e
	ctx, cancel := context.WithCancel(e.Ctx)
	c.cancelAt(op, cancel, func() bool { return ctx.Err() != nil })
	what := fmt.Sprint(op)
	e.Logf("%s begins", what)
	err := f(ctx)
	c.judge(what, reads, ctx.Err() != nil, err)
	cancel()
}

func (c *canceller) cancelAt(op harness.Op, cancel func(), already func() bool) {
	ends := new(int64)
	*ends = -1
	c.ends = ends
	e := c.e
	if op.C == 0 {
		*ends = e.W.S.Now()
		cancel()
		return
	}
	e.W.S.After(op.C, func() {
		if !already() {
			*ends = e.W.S.Now()
		}
		cancel()
	})
}

func (c *canceller) judge(what string, reads, cancelled bool, err error) {
	e := c.e
	e.Check()
	now := e.W.S.Now()
	e.Logf("%s: %v, cancelled %v", what, err, cancelled)
	blame(e, what, err, cancelled)
	if !cancelled {
		e.Probe("finished first")
		if err != nil && len(e.W.Fired) == 0 {
			e.Failf("cancel-error", "%s: unexpected error %v", what, err)
		}
		return
	}
	if err != nil {
		e.Probe("cancelled")
	}
	// (with such a schedule, time only passes while everybody waits)
	if late := now - *c.ends; e.C.Sched.WorldProb == 0 && reads && *c.ends >= 0 && late > grace {
		e.Failf("cancel-late", "%s returned %d ms after its context had ended", what, late/1e6)
	}
}

func execCancel(e *harness.Env) {
	uio.DefaultShardWidth = int(e.P("width"))
	help.DefaultLinksPerBlock = int(e.P("mlinks"))
	q := e.W.Quiet()
	data := content(e.P("cseed"), e.P("kind"), e.P("len"))
	file, err := makeFile(e, q, data)
	if err != nil {
		e.Failf("setup", "%v", err)
	}
	md, err := ft.BytesForMetadata(&ft.Metadata{MimeType: "x", Size: uint64(len(data))})
	if err != nil {
		e.Failf("setup", "%v", err)
	}
	meta := mdag.NodeWithData(md)
	if err := meta.AddNodeLink("", file); err != nil {
		e.Failf("setup", "%v", err)
	}
	sh, err := hamt.NewShard(q, int(e.P("width")))
	if err != nil {
		e.Failf("setup", "%v", err)
	}
	for i := int64(0); i < e.P("pool"); i++ {
		v := value(e, i%40)
		if i%5 == 0 {
			v = file
		}
		q.Add(e.Ctx, v)
		if err := sh.Set(e.Ctx, dirName(e, i), v); err != nil {
			e.Failf("setup", "%v", err)
		}
	}
	dir, err := sh.Node()
	if err != nil {
		e.Failf("setup", "%v", err)
	}
	uio.HAMTShardingSize = int(e.P("thr"))
	e.W.Split()
	dag := e.W.DAG()
	e.W.Armed = true
	var fs []func()
	par := int(max(1, min(3, e.P("par"))))
	for i := 0; i < par; i++ {
		i := i
		fs = append(fs, func() {
			c := &canceller{e: e}
			for j, op := range e.C.Ops {
				if j%par == i {
					c.step(dag, op, file, meta, dir, data)
				}
			}
		})
	}
	e.Par(fs...)
	e.W.Armed = false
	e.Logf("end at %d", e.W.S.Now())
}

func (c *canceller) step(dag ipld.DAGService, op harness.Op, file, meta, dir ipld.Node, data []byte) {
	e := c.e
	r := harness.NewRand(uint64(op.B))
	size := int64(len(data))
	openDir := func() uio.Directory {
		d, err := uio.NewDirectoryFromNode(dag, dir)
		if err != nil {
			e.Failf("open", "NewDirectoryFromNode: %v", err)
		}
		return d
	}
	name := dirName(e, op.A%max(1, e.P("pool")+2))
	switch op.K {
	case "ctxread": // a read with a context of its own
		dr, err := uio.NewDagReader(e.Ctx, file, dag)
		if err != nil {
			e.Failf("open", "NewDagReader: %v", err)
		}
		if r.P(40) && size > 0 && len(e.W.Faults) == 0 {
			dr.Seek(r.N64(size), io.SeekStart)
		}
		for k := r.In(1, 3); k > 0; k-- {
			c.with(op, true, func(ctx context.Context) error {
				b := make([]byte, r.N64(size+1)+1)
				n, err := dr.CtxReadFull(ctx, b)
				if err == nil && n != len(b) {
					e.Failf("cancel-silent", "CtxReadFull returned %d of %d bytes and no error", n, len(b))
				}
				if err == io.EOF {
					err = nil
				}
				return err
			})
		}
		dr.Close()
	case "read", "close": // the reader's context ends, or it is closed by somebody else
		ctx, cancel := context.WithCancel(e.Ctx)
		dr, err := uio.NewDagReader(ctx, file, dag)
		if err != nil {
			e.Failf("open", "NewDagReader: %v", err)
		}
		stop := cancel
		if op.K == "close" {
			stop = func() { dr.Close() }
		}
		over := false
		c.cancelAt(op, func() { over = true; stop() }, func() bool { return over })
		for k := r.In(1, 4); k > 0; k-- {
			var err error
			what := ""
			switch r.N(3) {
			case 0:
				b := make([]byte, r.N64(size+1)+1)
				what = fmt.Sprintf("Read(%d)", len(b))
				_, err = dr.Read(b)
				if err == io.EOF {
					err = nil
				}
			case 1:
				o := r.N64(size + 1)
				what = fmt.Sprintf("Seek(%d)", o)
				_, err = dr.Seek(o, io.SeekStart)
			default:
				what = "WriteTo"
				_, err = dr.WriteTo(&sink{limit: -1})
			}
			c.judge(fmt.Sprintf("%v: %s", op, what), true, over, err)
			if err != nil {
				break
			}
		}
		cancel()
		dr.Close()
	case "meta":
		c.with(op, true, func(ctx context.Context) error {
			dr, err := uio.NewDagReader(ctx, meta, dag)
			if err == nil {
				dr.Close()
			}
			if _, raw := file.(*mdag.RawNode); raw && err == mdag.ErrNotProtobuf {
				return nil
			}
			return err
		})
	case "find":
		d := openDir()
		for k := r.In(1, 3); k > 0; k-- {
			c.with(op, true, func(ctx context.Context) error {
				_, err := d.Find(ctx, name)
				if notExist(err) {
					return nil
				}
				return err
			})
			name = dirName(e, int64(r.N(int(e.P("pool"))+2)))
		}
	case "resolve":
		c.with(op, true, func(ctx context.Context) error {
			_, _, err := uio.ResolveUnixfsOnce(ctx, dag, dir, []string{name})
			if notExist(err) {
				return nil
			}
			return err
		})
	case "list":
		d := openDir()
		c.with(op, true, func(ctx context.Context) error {
			switch r.N(3) {
			case 0:
				_, err := d.Links(ctx)
				return err
			case 1:
				return d.ForEachLink(ctx, func(*ipld.Link) error { return nil })
			}
			for l := range d.EnumLinksAsync(ctx) {
				if l.Err != nil {
					return l.Err
				}
			}
			return nil
		})
	case "add", "rm": // may have to look at the whole directory
		d := openDir()
		for k := r.In(1, 4); k > 0; k-- {
			c.with(op, false, func(ctx context.Context) error {
				if op.K == "add" {
					return d.AddChild(ctx, name, value(e, r.N64(40)))
				}
				err := d.RemoveChild(ctx, name)
				if notExist(err) {
					return nil
				}
				return err
			})
			name = dirName(e, int64(r.N(int(e.P("pool"))+2)))
		}
	case "mod":
		ctx, cancel := context.WithCancel(e.Ctx)
		dm, err := mod.NewDagModifier(ctx, file, dag, func(rd io.Reader) chunker.Splitter {
			return chunker.NewSizeSplitter(rd, max(1, e.P("chunk")))
		})
		if err != nil {
			e.Failf("open", "NewDagModifier: %v", err)
		}
		over := false
		c.cancelAt(op, func() { over = true; cancel() }, func() bool { return over })
		tmp := &harness.Case{P: e.C.P}
		genModOps(r, tmp, size, r.In(1, 6))
		for _, o := range tmp.Ops {
			var err error
			switch o.K {
			case "write":
				_, err = dm.Write(modOpData(o.B, o.A))
			case "writeat":
				_, err = dm.WriteAt(modOpData(o.C, o.B), o.A)
			case "read":
				_, err = dm.Read(make([]byte, o.A))
				if err == io.EOF {
					err = nil
				}
			case "seek":
				_, err = dm.Seek(o.A, int(o.B))
				if err == mod.ErrSeekFail {
					err = nil
				}
			case "trunc":
				err = dm.Truncate(o.A)
			case "sync":
				err = dm.Sync()
			case "node":
				_, err = dm.GetNode()
			}
			c.judge(fmt.Sprintf("%v: %v", op, o), false, over, err)
			if err != nil {
				break
			}
		}
		// a reader inside the modifier that takes a context of its own
		if !dm.HasChanges() && !over {
			if _, err := dm.Seek(0, io.SeekStart); err == nil && !over {
				if _, err := dm.Read(make([]byte, 1)); err == nil {
					c.with(op, true, func(ctx context.Context) error {
						_, err := dm.CtxReadFull(ctx, make([]byte, size+1))
						if err == io.EOF {
							err = nil
						}
						return err
					})
				}
			}
		}
		cancel()
	case "append":
		if e.P("shape") != shTrickle {
			return
		}
		c.with(op, false, func(ctx context.Context) error {
			base := file.Copy()
			db, err := buildParams(e, dag).New(chunker.NewSizeSplitter(&stream{e: e, data: content(op.B, 0, r.N64(40)), r: r}, max(1, e.P("chunk"))))
			if err != nil {
				return err
			}
			_, err = trickle.Append(ctx, base, db)
			return err
		})
	case "walk":
		c.with(op, true, func(ctx context.Context) error {
			f, err := unixfile.NewUnixfsFile(ctx, dag, dir)
			if err != nil {
				return err
			}
			it := f.(files.Directory).Entries()
			for it.Next() {
				if x, ok := it.Node().(files.File); ok && r.P(60) {
					if _, err := io.Copy(io.Discard, x); err != nil {
						return err
					}
				}
			}
			return it.Err()
		})
	case "shard":
		s, err := hamt.NewHamtFromDag(dag, dir)
		if err != nil {
			e.Failf("open", "NewHamtFromDag: %v", err)
		}
		for k := r.In(1, 4); k > 0; k-- {
			c.with(op, false, func(ctx context.Context) error {
				var err error
				switch r.N(6) {
				case 0:
					_, err = s.Find(ctx, name)
				case 1:
					err = s.Set(ctx, name, value(e, r.N64(40)))
				case 2:
					err = s.Remove(ctx, name)
				case 3:
					_, err = s.Take(ctx, name)
				case 4:
					_, err = s.EnumLinks(ctx)
				default:
					err = s.ForEachLink(ctx, func(*ipld.Link) error { return nil })
				}
				if notExist(err) {
					return nil
				}
				return err
			})
			name = dirName(e, int64(r.N(int(e.P("pool"))+2)))
		}
	}
}

var _ = register(&harness.Prop{
	ID: "U19", Title: "Whoever cancels gets control back, even from a store that never answers",
	Rule: "A file of any shape and a sharded directory, 1-8 operations (reads with their own or the reader's context, closing a reader in use, lookups, resolution, listings, changes that have to weigh the whole directory, " +
		"modifier operations, trickle appends, walks, the HAMT's own operations) by 1-3 clients, each with a context that ends before or during it, over a store whose fetches, and the writes of directory operations, stop being answered at some point (or are slow or fail). " +
		"An operation that does not return is a deadlock of the simulation; read-only ones must return within 100 ms of virtual time; nothing may be left running.",
	Gen: func(r *harness.Rand, thorough bool) *harness.Case {
		c := &harness.Case{P: map[string]int64{}, World: r.World(), Sched: r.Sched()}
		shapeParams(r, c.P, thorough)
		if r.P(60) {
			c.Sched.WorldProb = 0
		}
		c.P["width"] = r.Pick(8, 8, 16, 256, 1024)
		c.P["thr"] = r.Pick(0, 300, 900, 100000)
		c.P["names"] = r.Pick(0, 0, 1, 1, 1, 2, 2, 4)
		c.P["nseed"] = int64(r.U() >> 50)
		c.P["pool"] = int64(r.Small(60) + 1)
		c.P["par"] = r.Pick(1, 1, 2, 3)
		n := r.In(1, 8)
		if thorough {
			n = r.In(1, 16)
		}
		for i := 0; i < n; i++ {
			op := harness.Op{K: r.PickS("ctxread", "ctxread", "read", "close", "meta", "find", "resolve", "list", "add", "rm", "mod", "mod", "append", "walk", "shard"), A: int64(r.N(100)), B: int64(r.U() >> 44)}
			if r.P(92) {
				op.C = 1 + r.N64(int64(r.Pick(2, 100_000, 5_000_000, 50_000_000, 2_000_000_000)))
			}
			c.Ops = append(c.Ops, op)
		}
		return c
	},
	Exec: execCancel, Leak: true, Shrink: map[string]int64{"par": 1, "len": 0, "shape": 0, "raw": 0, "cid": 0, "kind": 0, "chunk": 1, "names": 0, "nseed": 0, "pool": 1},
	Real: realAll, Stub: stubAll,
	Place: func(r *harness.Rand, c *harness.Case, counts map[string]int) {
		st := []string{"stall", "stall", "stall", "slow", "err"}
		ks := []fk{{"get", st}, {"item", st}, {"net", st}, {"get", st}, {"item", st}, {"net", st}, {"getmany", []string{"err"}}}
		if puts := !slices.ContainsFunc(c.Ops, func(op harness.Op) bool { return op.K == "mod" || op.K == "append" }); puts && counts["put"] > 0 {
			// (what the builder stores is not bound to the context)
			ks = append(ks, fk{"put", st}, fk{"put", st})
		}
		place(r, c, counts, ks, 4)
		if r.P(60) { // from some point on nothing is answered any more
			for i := range c.Faults {
				if c.Faults[i].Do == "stall" {
					c.Faults[i].Len = 1 << 20
				}
			}
		}
	},
})
