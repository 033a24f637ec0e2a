package props

import (
	"io"

	ipld "github.com/ipfs/go-ipld-format"

	"github.com/ipfs/go-unixfs/mod"

	"verifsim/harness"
)

// modSet is the set of states a modifier may be in once operations have
// failed: a failed operation took effect completely or not at all.
type modSet []*modModel

func (s modSet) clone() modSet {
	var o modSet
	for _, m := range s {
		o = append(o, &modModel{append([]byte(nil), m.b...), m.pos})
	}
	return o
}

func (s modSet) add(f func(m *modModel)) modSet {
	n := s.clone()
	for _, m := range n {
		f(m)
	}
	out := s
outer:
	for _, m := range n {
		for _, o := range out {
			if o.pos == m.pos && eq(o.b, m.b) {
				continue outer
			}
		}
		out = append(out, m)
	}
	return out
}

func (s modSet) each(f func(m *modModel)) modSet {
	for _, m := range s {
		f(m)
	}
	return s
}

func (s modSet) keep(e *harness.Env, class string, f func(m *modModel) bool, format string, a ...any) modSet {
	e.Check()
	var o modSet
	for _, m := range s {
		if f(m) {
			o = append(o, m)
		}
	}
	if len(o) == 0 {
		e.Failf(class, format, a...)
	}
	return o
}

// maxRetry bounds how many stale failures may surface once faults are over:
// each level of a path prefetches a bounded window of children.
const maxRetry = 200

type snap struct {
	nd   ipld.Node
	cid  string
	want []byte
}

// runModOps drives dm with operations any of which may fail.
func runModOps(e *harness.Env, dm *mod.DagModifier, st modSet, ops []harness.Op) (modSet, []snap) {
	var snaps []snap
	for i, op := range ops {
		if !sane(op) {
			continue
		}
		e.Logf("op %d %v", i, op)
		if e.W.Dead {
			break
		}
		puts, failed := e.W.PutErrs, false
		fail := func(what string, err error) {
			failed = true
			blame(e, what, err, false)
			e.Logf("%s failed: %v", what, err)
			e.Probe("failed " + what)
		}
		switch op.K {
		case "write":
			if op.A == 0 {
				continue
			}
			b := modOpData(op.B, op.A)
			n, err := lend(e, b, dm.Write)
			if n < 0 || n > len(b) || err == nil && n != len(b) {
				e.Failf("write-count", "Write(%d) returned %d, %v", len(b), n, err)
			}
			if err != nil {
				fail("Write", err)
			}
			st.each(func(m *modModel) { m.writeAt(m.pos, b[:n]); m.pos += int64(n) })
		case "writeat":
			if op.B == 0 {
				continue
			}
			b := modOpData(op.C, op.B)
			n, err := lend(e, b, func(b []byte) (int, error) { return dm.WriteAt(b, op.A) })
			if n < 0 || n > len(b) || err == nil && n != len(b) {
				e.Failf("write-count", "WriteAt(%d) returned %d, %v", len(b), n, err)
			}
			if err == nil {
				st.each(func(m *modModel) { m.writeAt(op.A, b); m.pos = op.A + op.B })
				break
			}
			fail("WriteAt", err)
			if n > 0 {
				st.each(func(m *modModel) { m.writeAt(op.A, b[:n]) })
			} else {
				st = st.add(func(m *modModel) { m.grow(op.A) })
			}
			st = st.add(func(m *modModel) { m.pos = op.A + int64(n) })
		case "read":
			b := make([]byte, op.A)
			var n int
			var err error
			if op.A%2 == 0 {
				n, err = dm.Read(b)
			} else {
				n, err = dm.CtxReadFull(e.Ctx, b)
			}
			if err == nil || err == io.EOF {
				st = st.keep(e, "read-content", func(m *modModel) bool {
					avail := max(0, int64(len(m.b))-m.pos)
					if int64(n) != min(avail, op.A) || err == nil && int64(n) != op.A {
						return false
					}
					return n == 0 || eq(b[:n], m.b[m.pos:m.pos+int64(n)])
				}, "Read(%d) returned %d bytes, %v, which no state consistent with the history explains (position %d of %d): %x", op.A, n, err, st[0].pos, len(st[0].b), b[:max(0, n)])
			} else {
				fail("Read", err)
				st = st.keep(e, "read-partial", func(m *modModel) bool {
					return n == 0 || m.pos+int64(n) <= int64(len(m.b)) && eq(b[:n], m.b[m.pos:m.pos+int64(n)])
				}, "Read(%d) failed (%v) after delivering %d bytes that are not the file's at %d of %d", op.A, err, n, st[0].pos, len(st[0].b))
			}
			st.each(func(m *modModel) { m.pos += int64(n) })
		case "seek":
			to := func(m *modModel) int64 {
				switch op.B {
				case io.SeekCurrent:
					return m.pos + op.A
				case io.SeekEnd:
					return int64(len(m.b)) + op.A
				}
				return op.A
			}
			got, err := dm.Seek(op.A, int(op.B))
			if err == nil {
				st = st.keep(e, "seek", func(m *modModel) bool { return to(m) == got }, "Seek(%d, %d) at %d of %d returned %d", op.A, op.B, st[0].pos, len(st[0].b), got)
				st.each(func(m *modModel) { m.pos = got; m.grow(got) })
				break
			}
			failed = true
			if to(st[0]) >= 0 {
				fail("Seek", err)
			}
			st = st.add(func(m *modModel) { m.grow(to(m)) })
			st = st.add(func(m *modModel) {
				if t := to(m); t >= 0 {
					m.pos = t
				}
			})
		case "trunc":
			err := dm.Truncate(op.A)
			if err == nil {
				st.each(func(m *modModel) { m.resize(op.A) })
				break
			}
			fail("Truncate", err)
			st = st.add(func(m *modModel) { m.resize(op.A) })
		case "size":
			got, err := dm.Size()
			if err != nil {
				fail("Size", err)
				break
			}
			st = st.keep(e, "size", func(m *modModel) bool { return int64(len(m.b)) == got }, "Size() = %d, want %d", got, len(st[0].b))
		case "sync":
			if err := dm.Sync(); err != nil {
				fail("Sync", err)
			} else if dm.HasChanges() {
				e.Failf("has-changes", "HasChanges after a successful Sync")
			}
		case "node":
			nd, err := dm.GetNode()
			if err != nil {
				fail("GetNode", err)
				break
			}
			st = keepNode(e, st, nd)
			snaps = append(snaps, snap{nd, string(nd.Cid().Hash()), append([]byte(nil), st[0].b...)})
		}
		if e.W.PutErrs > puts && !failed && !e.W.Dead && e.P("par") <= 1 { // (else it may have been another client's)
			e.Failf("mod-put-swallowed", "%v succeeded although the store refused a block", op)
		}
		if len(st) > 24 {
			break
		}
	}
	return st, snaps
}

func keepNode(e *harness.Env, st modSet, nd ipld.Node) modSet {
	got, err := fileBytes(e.W, nd.Cid())
	if err != nil {
		e.Failf("node-unreadable", "GetNode succeeded but its result cannot be read back from the store: %v", err)
	}
	st = st.keep(e, "node-content", func(m *modModel) bool { return eq(m.b, got) }, "the stored file is not the bytes written: %s", diff(got, st[0].b))
	if err := sizes(e.W, nd.Cid()); err != nil {
		e.Failf("node-sizes", "%v", err)
	}
	return st
}

func execModFaults(e *harness.Env) {
	_, dm, m, root := newModifier(e, e.Ctx)
	orig := append([]byte(nil), m.b...)
	e.W.Armed = true
	st, snaps := runModOps(e, dm, modSet{m}, e.C.Ops)
	// faults stop: everything accepted so far must now reach the store
	e.W.Armed = false
	nd, err := dm.GetNode()
	if err != nil {
		e.Failf("no-recovery", "GetNode still fails after the faults stopped: %v", err)
	}
	st = keepNode(e, st, nd)
	if _, err := dm.Seek(0, io.SeekStart); err != nil {
		e.Failf("no-recovery", "Seek(0) still fails after the faults stopped: %v", err)
	}
	// reads may still report failures of fetches made before the faults stopped,
	// but only a bounded number of them, and never wrong data
	want, m0 := st[0].b, st[0]
	m0.pos = 0
	for try := 0; ; try++ {
		b := make([]byte, len(want)+3-int(m0.pos))
		n, err := dm.Read(b)
		if err == nil || err == io.EOF {
			m0.checkRead(e, "Read after the faults stopped", b, n, err)
			break
		}
		if n > 0 && (m0.pos+int64(n) > int64(len(want)) || !eq(b[:n], want[m0.pos:m0.pos+int64(n)])) {
			e.Failf("read-partial", "Read failed (%v) after delivering %d bytes at %d that are not the file's", err, n, m0.pos)
		}
		m0.pos += int64(n)
		if try > maxRetry {
			e.Failf("no-recovery", "Read still fails after %d retries with all faults over: %v", try, err)
		}
	}
	for _, s := range append(snaps, snap{root, string(root.Cid().Hash()), orig}) {
		if string(s.nd.Cid().Hash()) != s.cid {
			e.Failf("node-mutated", "a node handed out earlier has changed its identity")
		}
		if got, err := fileBytes(e.W, s.nd.Cid()); err != nil || !eq(got, s.want) {
			e.Failf("base-changed", "a version of the file handed out earlier is no longer readable unchanged: %v %s", err, diff(got, s.want))
		}
	}
	e.Logf("end %s", nd.Cid())
}

var _ = register(&harness.Prop{
	ID:    "U02",
	Title: "DagModifier operations are all-or-nothing under storage faults",
	Rule: "The files and operations of U01; 1-4 faults (failed, slow, lost-acknowledgement puts; failed, missing, slow block fetches, single or in bursts or from then on) placed at random " +
		"storage operations counted in a fault-free dry run; operations continue after failures, then the faults stop.",
	Gen: genMod, Exec: execModFaults,
	Place: func(r *harness.Rand, c *harness.Case, counts map[string]int) {
		place(r, c, counts, append(append([]fk{}, readFaults...), writeFaults[0], writeFaults[0], writeFaults[1]), 4)
	},
	Shrink: map[string]int64{"len": 0, "shape": 0, "raw": 0, "cid": 0, "kind": 0, "mraw": 0, "wchunk": 1, "chunk": 1},
	Real:   realAll, Stub: stubAll,
})
