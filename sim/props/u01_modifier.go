package props

import (
	"context"
	"fmt"
	"io"

	chunker "github.com/ipfs/go-ipfs-chunker"
	ipld "github.com/ipfs/go-ipld-format"

	help "github.com/ipfs/go-unixfs/importer/helpers"
	"github.com/ipfs/go-unixfs/mod"

	"verifsim/harness"
)

// modModel is what a DagModifier should be: a byte slice and a position.
type modModel struct {
	b   []byte
	pos int64
}

func (m *modModel) writeAt(off int64, p []byte) {
	if len(p) == 0 {
		return
	}
	m.grow(off + int64(len(p)))
	copy(m.b[off:], p)
}

func (m *modModel) grow(n int64) {
	if int64(len(m.b)) < n {
		m.b = append(m.b, make([]byte, n-int64(len(m.b)))...)
	}
}

func (m *modModel) resize(n int64) {
	if n <= int64(len(m.b)) {
		m.b = m.b[:n:n]
	} else {
		m.grow(n)
	}
}

// sane rejects operations only the minimiser makes.
func sane(op harness.Op) bool {
	switch op.K {
	case "write", "read":
		return op.A >= 0
	case "writeat":
		return op.B >= 0 && op.A >= 0
	case "trunc":
		return op.A >= 0
	}
	return true
}

func genModOps(r *harness.Rand, c *harness.Case, n int64, nops int) {
	size := n
	for i := 0; i < nops; i++ {
		op := harness.Op{}
		around := func() int64 { // a position that matters: inside, at the end, beyond
			switch r.N(8) {
			case 0:
				return 0
			case 1:
				return size
			case 2:
				return size + int64(r.N(20))
			case 3:
				return max(0, size-int64(r.N(4)))
			}
			return r.N64(size + 1)
		}
		switch k := r.N(100); {
		case k < 22:
			op = harness.Op{K: "write", A: int64(r.Small(40) + 1), B: int64(r.N(1000))}
		case k < 50:
			op = harness.Op{K: "writeat", A: around(), B: int64(r.Small(40) + 1), C: int64(r.N(1000))}
			size = max(size, op.A+op.B)
		case k < 62:
			op = harness.Op{K: "read", A: int64(r.Small(50) + 1)}
		case k < 76:
			w := int64(r.Pick(io.SeekStart, io.SeekStart, io.SeekCurrent, io.SeekEnd))
			o := around()
			if w == io.SeekEnd {
				o = r.N64(30) - 25
			} else if w == io.SeekCurrent {
				o = r.N64(30) - 12
			} else if r.P(5) {
				o = -1 - r.N64(5)
			}
			op = harness.Op{K: "seek", A: o, B: w}
		case k < 86:
			op = harness.Op{K: "trunc", A: around()}
			if r.P(20) {
				op.A = size + int64(r.N(60))
			}
			size = op.A
		case k < 92:
			op = harness.Op{K: "size"}
		case k < 94:
			op = harness.Op{K: "bad", A: r.N64(4)}
		case k < 97:
			op = harness.Op{K: "sync"}
		default:
			op = harness.Op{K: "node"}
		}
		// runs of adjacent writes, as a client streaming into a file makes them
		if op.K == "writeat" && len(c.Ops) > 0 && r.P(40) {
			for j := len(c.Ops) - 1; j >= 0; j-- {
				if q := c.Ops[j]; q.K == "writeat" {
					switch r.N(3) {
					case 0:
						op.A = q.A
					case 1:
						op.A = q.A + q.B
					case 2:
						op.A = q.A + r.N64(q.B+1)
					}
					break
				}
			}
			size = max(size, op.A+op.B)
		}
		if op.K == "write" && r.P(3) || op.K == "read" && r.P(3) {
			op.A = 0
		}
		if op.K == "writeat" && r.P(2) {
			op.B = 0
		}
		c.Ops = append(c.Ops, op)
	}
}

func genMod(r *harness.Rand, thorough bool) *harness.Case {
	c := &harness.Case{P: map[string]int64{}, World: r.World(), Sched: r.Sched()}
	n := shapeParams(r, c.P, thorough)
	c.P["links"] = r.Pick(2, 3, 4, 5, 8) // what appends use
	if r.P(60) {
		c.P["links"] = c.P["mlinks"]
	}
	c.P["wchunk"] = int64(r.In(1, 16))
	c.P["mraw"] = r.Pick(0, 0, 1, 2) // leave, force raw leaves, force protobuf leaves
	nops := r.In(1, 14)
	if thorough {
		nops = r.In(1, 30)
	}
	big := r.N(1000) == 0
	if big {
		n, nops = n%30, r.In(1, 7)
		c.P["len"] = n
	}
	genModOps(r, c, n, nops)
	if big {
		scaleUp(r, c)
	}
	return c
}

// scaleUp makes a case of the same pattern with sizes at which the modifier
// flushes its write buffer of its own accord.
func scaleUp(r *harness.Rand, c *harness.Case) {
	k := r.Pick(1<<16, 60_000, 75_001, 1<<17)
	for _, x := range []string{"len", "chunk", "wchunk"} {
		c.P[x] *= k
	}
	c.P["big"] = 1
	c.P["chunk"], c.P["wchunk"] = min(c.P["chunk"], 1<<19), min(c.P["wchunk"], 1<<19)
	for i := range c.Ops {
		op := &c.Ops[i]
		switch op.K {
		case "write":
			if r.P(60) {
				op.A += int64(r.In(1, 40))
			}
			op.A *= k
		case "writeat":
			if r.P(60) {
				op.B += int64(r.In(1, 40))
			}
			op.A, op.B = op.A*k, op.B*k
		case "read", "seek", "trunc":
			op.A *= k
		}
	}
	c.Sched.GapMean, c.Sched.WorldProb = 0, 0
}

// newModifier builds the starting file quietly and opens a modifier on it.
func newModifier(e *harness.Env, ctx context.Context) (ipld.DAGService, *mod.DagModifier, *modModel, ipld.Node) {
	help.DefaultLinksPerBlock = int(e.P("links"))
	data := content(e.P("cseed"), e.P("kind"), e.P("len"))
	root, err := makeFile(e, e.W.Quiet(), data)
	if err != nil {
		e.Failf("setup", "building the starting file: %v", err)
	}
	if got, err := fileBytes(e.W, root.Cid()); err != nil || !eq(got, data) {
		e.Failf("setup", "starting file is wrong: %v %s", err, diff(got, data))
	}
	e.W.Split()
	dag := e.W.DAG()
	dm, err := mod.NewDagModifier(ctx, root, dag, func(rd io.Reader) chunker.Splitter {
		return chunker.NewSizeSplitter(rd, max(1, e.P("wchunk")))
	})
	if err != nil {
		e.Failf("open", "NewDagModifier: %v", err)
	}
	switch e.P("mraw") {
	case 1:
		dm.RawLeaves = true
	case 2:
		dm.RawLeaves = false
	}
	return dag, dm, &modModel{b: append([]byte(nil), data...)}, root
}

func modOpData(seed, n int64) []byte { return content(seed+77, 0, n) }

// checkRead judges one read against the model and advances it.
func (m *modModel) checkRead(e *harness.Env, what string, buf []byte, n int, err error) {
	avail := int64(len(m.b)) - m.pos
	if avail < 0 {
		avail = 0
	}
	want := min(int64(len(buf)), avail)
	e.Check()
	if err != nil && err != io.EOF {
		e.Failf("read-error", "%s at %d of %d: unexpected error %v", what, m.pos, len(m.b), err)
	}
	if int64(n) != want {
		e.Failf("read-length", "%s of %d bytes at %d of %d returned %d bytes (%v), want %d", what, len(buf), m.pos, len(m.b), n, err, want)
	}
	if want > 0 && !eq(buf[:n], m.b[m.pos:m.pos+want]) {
		e.Failf("read-content", "%s at %d: %s", what, m.pos, diff(buf[:n], m.b[m.pos:m.pos+want]))
	}
	if n < len(buf) && err != io.EOF {
		e.Failf("read-eof", "%s returned %d of %d bytes at the end of the file with error %v, want EOF", what, n, len(buf), err)
	}
	m.pos += int64(n)
}

// checkNode: the node handed out reads back, from the disk image alone, as the model.
func (m *modModel) checkNode(e *harness.Env, nd ipld.Node) {
	e.Check()
	got, err := fileBytes(e.W, nd.Cid())
	if err != nil {
		e.Failf("node-unreadable", "the node returned by GetNode cannot be read back from the store: %v", err)
	}
	if !eq(got, m.b) {
		e.Failf("node-content", "the stored file differs from the bytes written: %s", diff(got, m.b))
	}
	if err := sizes(e.W, nd.Cid()); err != nil {
		e.Failf("node-sizes", "%v", err)
	}
}

func execMod(e *harness.Env) {
	_, dm, m, root := newModifier(e, e.Ctx)
	orig := append([]byte(nil), m.b...)
	e.W.Armed = true
	for i, op := range e.C.Ops {
		if !sane(op) {
			continue
		}
		e.Logf("op %d %v", i, op)
		switch op.K {
		case "write":
			if op.A == 0 && m.pos > int64(len(m.b)) {
				continue // extends the file, or not
			}
			b := modOpData(op.B, op.A)
			n, err := lend(e, b, dm.Write)
			if err != nil || int64(n) != op.A {
				e.Failf("write-error", "Write(%d) at %d of %d: %d, %v", op.A, m.pos, len(m.b), n, err)
			}
			m.writeAt(m.pos, b)
			m.pos += op.A
		case "bad":
			e.Check()
			var err error
			switch op.A {
			case 0:
				_, err = dm.WriteAt([]byte("x"), -1-op.B)
			case 1:
				_, err = dm.Seek(op.B, 3)
			case 2:
				_, err = dm.Seek(0, -1)
			default:
				err = dm.Truncate(-1 - op.B)
			}
			if err == nil {
				e.Failf("bad-argument", "%v succeeded", op)
			}
		case "writeat":
			if op.B == 0 && op.A > int64(len(m.b)) {
				continue // extends the file, or not
			}
			b := modOpData(op.C, op.B)
			n, err := lend(e, b, func(b []byte) (int, error) { return dm.WriteAt(b, op.A) })
			if err != nil || int64(n) != op.B {
				e.Failf("write-error", "WriteAt(%d, %d) of %d: %d, %v", op.B, op.A, len(m.b), n, err)
			}
			m.writeAt(op.A, b)
			m.pos = op.A + op.B
		case "read":
			b := make([]byte, op.A)
			var n int
			var err error
			if op.A%2 == 0 {
				n, err = dm.Read(b)
			} else {
				n, err = dm.CtxReadFull(e.Ctx, b)
			}
			m.checkRead(e, "Read", b, n, err)
		case "seek":
			var want int64
			switch op.B {
			case io.SeekStart:
				want = op.A
			case io.SeekCurrent:
				want = m.pos + op.A
			case io.SeekEnd:
				want = int64(len(m.b)) + op.A
			}
			got, err := dm.Seek(op.A, int(op.B))
			e.Check()
			if want < 0 {
				if err == nil {
					e.Failf("seek-negative", "Seek(%d, %d) to position %d succeeded", op.A, op.B, want)
				}
				break
			}
			if err != nil || got != want {
				e.Failf("seek", "Seek(%d, %d) at %d of %d: got %d, %v, want %d", op.A, op.B, m.pos, len(m.b), got, err, want)
			}
			m.pos = want
			m.grow(want)
		case "trunc":
			if err := dm.Truncate(op.A); err != nil {
				e.Failf("truncate-error", "Truncate(%d) of %d: %v", op.A, len(m.b), err)
			}
			m.resize(op.A)
		case "size":
			e.Check()
			got, err := dm.Size()
			if err != nil || got != int64(len(m.b)) {
				e.Failf("size", "Size() = %d, %v, want %d", got, err, len(m.b))
			}
		case "sync":
			if err := dm.Sync(); err != nil {
				e.Failf("sync-error", "Sync: %v", err)
			}
			if dm.HasChanges() {
				e.Failf("has-changes", "HasChanges after Sync")
			}
		case "node":
			nd, err := dm.GetNode()
			if err != nil {
				e.Failf("node-error", "GetNode: %v", err)
			}
			m.checkNode(e, nd)
		}
	}
	nd, err := dm.GetNode()
	if err != nil {
		e.Failf("node-error", "GetNode: %v", err)
	}
	m.checkNode(e, nd)
	// and through the modifier's own reader
	if _, err := dm.Seek(0, io.SeekStart); err != nil {
		e.Failf("seek", "Seek(0): %v", err)
	}
	m.pos = 0
	b := make([]byte, len(m.b)+3)
	n, err := dm.Read(b)
	m.checkRead(e, "final Read", b, n, err)
	if got, err := fileBytes(e.W, root.Cid()); err != nil || !eq(got, orig) {
		e.Failf("base-changed", "the file the modifier was opened on is no longer readable unchanged: %v %s", err, diff(got, orig))
	}
	e.Logf("end %s len %d", fmt.Sprint(nd.Cid()), len(m.b))
}

var _ = register(&harness.Prop{
	ID:    "U01",
	Title: "DagModifier behaves as a byte array with a position",
	Rule: "A starting file (balanced, trickle, single-node, raw or irregular tree; CID versions; fanouts 2-174; chunk 1-12; shared blocks) and 1-14 operations " +
		"(Write, WriteAt, Read, Seek, Truncate, Size, Sync, GetNode) with offsets concentrated at buffer, chunk and end-of-file boundaries, over a store with latency and remote blocks.",
	Gen: genMod, Exec: execMod, Leak: false,
	Shrink: map[string]int64{"len": 0, "shape": 0, "raw": 0, "cid": 0, "kind": 0, "mraw": 0, "wchunk": 1, "chunk": 1},
	Real:   realAll, Stub: stubAll,
})
