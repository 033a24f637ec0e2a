package props

import (
	"context"
	"errors"
	"io"

	cid "github.com/ipfs/go-cid"
	ipld "github.com/ipfs/go-ipld-format"
	mdag "github.com/ipfs/go-merkledag"

	ft "github.com/ipfs/go-unixfs"
	uio "github.com/ipfs/go-unixfs/io"

	"verifsim/harness"
)

// sink accepts bytes up to a limit and then misbehaves.
type sink struct {
	got   []byte
	limit int64 // <0: none
	short bool
}

func (s *sink) Write(p []byte) (int, error) {
	if s.limit >= 0 && int64(len(s.got)+len(p)) > s.limit {
		k := int(s.limit) - len(s.got)
		s.got = append(s.got, p[:k]...)
		if s.short {
			return k, nil
		}
		return k, errSink
	}
	s.got = append(s.got, p...)
	return len(p), nil
}

func genReaderOps(r *harness.Rand, size int64, nops int, faulty bool) []harness.Op {
	var ops []harness.Op
	for i := 0; i < nops; i++ {
		var op harness.Op
		switch k := r.N(100); {
		case k < 45:
			op = harness.Op{K: "read", A: int64(r.Small(int(max(4, min(size+5, 200)))) + 1), B: int64(r.N(2))}
			if r.P(5) {
				op.A = 0
			}
		case k < 80:
			w := r.Pick(0, 0, 0, 1, 2)
			o := r.N64(size + 1)
			switch w {
			case 0:
				if r.P(15) {
					o = size + int64(r.N(20))
				} else if r.P(10) {
					o = 0
				} else if r.P(5) {
					o = -1 - r.N64(4)
				}
			case 1:
				o = r.N64(60) - 30
			case 2:
				o = -r.N64(size + 4)
				if r.P(20) {
					o = r.N64(20)
				}
			}
			if r.P(1) {
				w = r.Pick(3, -1)
			}
			op = harness.Op{K: "seek", A: o, B: w}
		case k < 92:
			op = harness.Op{K: "writeto", A: -1, B: int64(r.N(2))}
			if faulty && r.P(70) {
				op.A = r.N64(size + 1)
			}
		default:
			op = harness.Op{K: "size"}
		}
		if faulty && r.P(15) {
			op = harness.Op{K: "cread", A: int64(r.Small(int(max(4, min(size+5, 300)))) + 1), B: r.N64(int64(r.Pick(1, 1000, 1000_000, 20_000_000, 400_000_000))), C: int64(r.N(3))}
		}
		if faulty && r.P(1) {
			op = harness.Op{K: "close"}
		}
		ops = append(ops, op)
	}
	return ops
}

func genReader(faulty bool) func(r *harness.Rand, thorough bool) *harness.Case {
	return func(r *harness.Rand, thorough bool) *harness.Case {
		c := &harness.Case{P: map[string]int64{}, World: r.World(), Sched: r.Sched()}
		n := shapeParams(r, c.P, thorough)
		c.P["meta"] = int64(b2i(r.P(6)))
		c.P["bad"] = 0
		c.P["again"] = int64(b2i(r.P(40)))
		if faulty && r.P(15) {
			c.P["bad"] = 1 + r.N64(60)
		}
		c.P["readers"] = int64(r.Pick(1, 1, 1, 2, 3))
		nops := r.In(1, 12)
		if thorough {
			nops = r.In(1, 24)
		}
		c.Ops = genReaderOps(r, n, nops, faulty)
		return c
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func openFile(e *harness.Env) (ipld.DAGService, ipld.Node, []byte) {
	data := content(e.P("cseed"), e.P("kind"), e.P("len"))
	q := e.W.Quiet()
	root, err := makeFile(e, q, data)
	if err != nil {
		e.Failf("setup", "building the file: %v", err)
	}
	if got, err := fileBytes(e.W, root.Cid()); err != nil || !eq(got, data) {
		e.Failf("setup", "file is wrong: %v %s", err, diff(got, data))
	}
	if _, ok := root.(*mdag.ProtoNode); ok && e.P("meta") == 1 {
		b, err := ft.BytesForMetadata(&ft.Metadata{MimeType: "x/y", Size: uint64(len(data))})
		if err != nil {
			e.Failf("setup", "metadata: %v", err)
		}
		m := mdag.NodeWithData(b)
		m.AddNodeLink("", root)
		q.Add(e.Ctx, m)
		root = m
	}
	e.W.Split()
	return e.W.DAG(), root, data
}

// spoil makes one leaf of the file undecodable, until heal is called.
func spoil(e *harness.Env, root ipld.Node) (heal func()) {
	var leaves []cid.Cid
	var rec func(nd ipld.Node)
	rec = func(nd ipld.Node) {
		for _, l := range nd.Links() {
			ch, err := getNode(e.W, l.Cid)
			if err != nil {
				e.Failf("setup", "%v", err)
			}
			if _, ok := ch.(*mdag.ProtoNode); ok && len(ch.Links()) == 0 {
				leaves = append(leaves, l.Cid)
			}
			rec(ch)
		}
	}
	rec(root)
	if len(leaves) == 0 || e.P("meta") == 1 && len(leaves) == 1 { // the latter is needed to open it
		return nil
	}
	k := leaves[int(e.P("bad"))%len(leaves)]
	old := e.W.Raw(k)
	e.W.Replace(k, encodePB(nil, []byte("\x08\x63junk")))
	e.Logf("spoiled %s", k)
	e.W.Fired["badleaf"]++
	return func() { e.W.Replace(k, old) }
}

// readerState follows one DagReader.
type readerState struct {
	e       *harness.Env
	dr      uio.DagReader
	data    []byte
	pos     int64
	lent    [][2][]byte // buffers given to earlier reads, and what was in them afterwards
	excused bool        // something was cancelled, so errors may surface
	closed  bool
}

func (s *readerState) mayFail() bool { return s.excused || s.closed || len(s.e.W.Fired) > 0 }

// delivered judges bytes that reached the caller.
func (s *readerState) delivered(what string, b []byte) {
	s.e.Check()
	if s.pos+int64(len(b)) > int64(len(s.data)) && len(b) > 0 || len(b) > 0 && !eq(b, s.data[s.pos:s.pos+int64(len(b))]) {
		if s.pos > int64(len(s.data)) {
			s.e.Failf("read-content", "%s at %d delivered %d bytes beyond the end of a file of %d", what, s.pos, len(b), len(s.data))
		}
		end := min(int64(len(s.data)), s.pos+int64(len(b)))
		s.e.Failf("read-content", "%s at %d of %d delivered wrong bytes: %s", what, s.pos, len(s.data), diff(b, s.data[s.pos:end]))
	}
	s.pos += int64(len(b))
}

func (s *readerState) read(what string, n int64, f func(b []byte) (int, error)) error {
	e := s.e
	b := make([]byte, n)
	got, err := f(b)
	if got < 0 || int64(got) > n {
		e.Failf("read-count", "%s of %d bytes returned %d", what, n, got)
	}
	p := s.pos
	s.delivered(what, b[:got])
	if len(s.lent) < 8 { // from here on it is the caller's again
		s.lent = append(s.lent, [2][]byte{b, append([]byte(nil), b...)})
	}
	switch {
	case err == nil:
		if int64(got) != n {
			e.Failf("read-short", "%s of %d bytes at %d of %d returned %d and no error", what, n, p, len(s.data), got)
		}
	case err == io.EOF:
		if s.pos < int64(len(s.data)) {
			e.Failf("read-early-eof", "%s of %d bytes at %d reports the end of the file at %d of %d", what, n, p, s.pos, len(s.data))
		}
	default:
		if !s.mayFail() {
			e.Failf("read-error", "%s at %d of %d: unexpected error %v", what, p, len(s.data), err)
		}
		blame(e, what, err, s.excused || s.closed)
		e.Probe("failed read")
	}
	e.Logf("%s(%d)@%d = %d, %v", what, n, p, got, err)
	return err
}

// step executes an operation. If it fails only because an earlier context of
// the same reader ended, or because of a fault that is over, repeating it must
// succeed.
func (s *readerState) step(op harness.Op) {
	for try := 0; ; try++ {
		err := s.once(op)
		if err == nil || op.K == "cread" || s.closed || s.e.P("bad") > 0 || len(s.e.W.Fired) > 0 && s.e.P("again") == 0 || op.K == "writeto" && op.A >= 0 {
			return
		}
		if try > maxRetry {
			s.e.Failf("no-recovery", "%v still fails after %d retries although nothing is wrong any more: %v", op, try, err)
		}
		if try > 8 { // some faults last
			s.e.W.Armed = false
		}
	}
}

func (s *readerState) once(op harness.Op) (failure error) {
	e, dr := s.e, s.dr
	switch op.K {
	case "read":
		if op.B == 0 {
			failure = s.read("Read", op.A, dr.Read)
		} else {
			failure = s.read("CtxReadFull", op.A, func(b []byte) (int, error) { return dr.CtxReadFull(e.Ctx, b) })
		}
		if failure == io.EOF {
			failure = nil
		}
	case "cread":
		ctx, cancel := context.WithCancel(e.Ctx)
		switch op.C {
		case 0:
			cancel()
		case 1:
			e.W.S.After(op.B, cancel)
		default:
			ctx, cancel = e.W.WithDeadline(e.Ctx, op.B)
		}
		s.excused = true
		s.read("CtxReadFull(cancelled)", op.A, func(b []byte) (int, error) { return dr.CtxReadFull(ctx, b) })
		cancel()
	case "seek":
		var want int64
		switch op.B {
		case io.SeekCurrent:
			want = s.pos + op.A
		case io.SeekEnd:
			want = int64(len(s.data)) + op.A
		case io.SeekStart:
			want = op.A
		default:
			want = -1 // no such whence
		}
		old := s.pos
		got, err := dr.Seek(op.A, int(op.B))
		e.Check()
		e.Logf("Seek(%d,%d)@%d = %d, %v", op.A, op.B, old, got, err)
		switch {
		case want < 0:
			if err == nil {
				e.Failf("seek-negative", "Seek(%d, %d) at %d succeeded", op.A, op.B, old)
			}
		case err == nil:
			if got != want {
				e.Failf("seek", "Seek(%d, %d) at %d of %d returned %d, want %d", op.A, op.B, old, len(s.data), got, want)
			}
			s.pos = want
		default:
			if !s.mayFail() {
				e.Failf("seek-error", "Seek(%d, %d) at %d of %d: unexpected error %v", op.A, op.B, old, len(s.data), err)
			}
			blame(e, "Seek", err, s.excused || s.closed)
			e.Probe("failed seek")
			// the position is the old one, the new one or the start; the
			// reader says which, and reads must agree with what it says
			now, err := dr.Seek(0, io.SeekCurrent)
			if err != nil || now != old && now != want && now != 0 {
				e.Failf("seek-position", "after a failed Seek from %d to %d the position is %d, %v", old, want, now, err)
			}
			s.pos = now
			failure = err
		}
	case "writeto":
		w := &sink{limit: op.A, short: op.B == 1 && op.A >= 0}
		p := s.pos
		var n int64
		var err error
		if op.B == 1 {
			n, err = dr.WriteTo(w)
		} else {
			n, err = io.Copy(w, dr)
		}
		e.Logf("WriteTo(limit %d)@%d = %d, %v", op.A, p, n, err)
		failure = err
		if n != int64(len(w.got)) {
			e.Failf("writeto-count", "WriteTo returned %d but the writer took %d bytes (%v)", n, len(w.got), err)
		}
		s.delivered("WriteTo", w.got)
		if err == nil && s.pos < int64(len(s.data)) {
			e.Failf("writeto-short", "WriteTo from %d stopped at %d of %d without an error", p, s.pos, len(s.data))
		}
		if err != nil {
			if errors.Is(err, errSink) || err == io.ErrShortWrite {
				e.Probe("writer failed")
			} else if !s.mayFail() {
				e.Failf("writeto-error", "WriteTo at %d of %d: unexpected error %v", p, len(s.data), err)
			} else {
				blame(e, "WriteTo", err, s.excused || s.closed)
				e.Probe("failed WriteTo")
			}
		}
	case "size":
		e.Check()
		if got := dr.Size(); got != uint64(len(s.data)) {
			e.Failf("size", "Size() = %d, want %d", got, len(s.data))
		}
	case "close":
		if err := dr.Close(); err != nil {
			e.Failf("close", "Close: %v", err)
		}
		s.closed = true
	}
	now, err := dr.Seek(0, io.SeekCurrent)
	if err != nil || now != s.pos {
		e.Failf("position", "after %v the reader says it is at %d (%v), but it is at %d", op, now, err, s.pos)
	}
	return failure
}

// returned looks at the buffers that were the reader's only while it read.
func (s *readerState) returned() {
	for _, l := range s.lent {
		if !eq(l[0], l[1]) {
			s.e.Failf("read-later", "the buffer given to an earlier read has been written to since: %s", diff(l[0], l[1]))
		}
	}
}

// drain reads the rest, tolerating a bounded number of stale failures.
func (s *readerState) drain(what string) {
	if s.e.C.Seed%2 == 1 {
		what = "WriteTo (" + what + ")"
		for try := 0; s.pos < int64(len(s.data)); try++ {
			if try > maxRetry {
				s.e.Failf("no-recovery", "%s still fails after %d retries with all faults over", what, try)
			}
			s.step(harness.Op{K: "writeto", A: -1, B: 1})
		}
	}
	for try := 0; ; try++ {
		n := max(0, int64(len(s.data))-s.pos) + 3
		err := s.read(what, n, s.dr.Read)
		if err == io.EOF {
			return
		}
		if try > maxRetry {
			s.e.Failf("no-recovery", "Read still fails after %d retries with all faults over: %v", try, err)
		}
	}
}

func execReader(faulty bool) func(e *harness.Env) {
	return func(e *harness.Env) {
		dag, root, data := openFile(e)
		var heal func()
		if e.P("bad") > 0 {
			heal = spoil(e, root)
		}
		e.W.Armed = true
		n := int(max(1, e.P("readers")))
		rs := make([]*readerState, n)
		var fs []func()
		for i := 0; i < n; i++ {
			i := i
			fs = append(fs, func() {
				s := &readerState{e: e, data: data}
				for try := 0; s.dr == nil; try++ {
					dr, err := uio.NewDagReader(e.Ctx, root, dag)
					if err != nil && (!s.mayFail() || try > maxRetry) {
						e.Failf("open", "NewDagReader: %v", err)
					}
					if err == nil {
						s.dr = dr
					}
					if try > 3 {
						e.W.Armed = false
					}
				}
				rs[i] = s
				for j := range e.C.Ops {
					s.step(e.C.Ops[(j+i*3)%len(e.C.Ops)])
				}
			})
		}
		e.Par(fs...)
		e.W.Armed = false
		if heal != nil {
			heal()
		}
		for _, s := range rs {
			s := s
			if s.closed {
				s.read("Read after Close", 10, s.dr.Read)
				continue
			}
			if heal == nil { // else it may have seen the bad leaf
				s.drain("final Read")
			} else if s.read("final Read", int64(len(data))+3, s.dr.Read); s.pos == int64(len(data)) {
				e.Probe("spoiled leaf not in the way")
			}
			for try := 0; ; try++ {
				_, err := s.dr.Seek(0, io.SeekStart)
				if err == nil {
					break
				}
				if !s.mayFail() || try > maxRetry {
					e.Failf("no-recovery", "Seek(0): %v", err)
				}
			}
			s.pos = 0
			s.drain("Read from the start")
			s.returned()
			s.dr.Close()
		}
	}
}

var _ = register(&harness.Prop{
	ID:    "U06",
	Title: "DagReader is an exact view of the file: reads, seeks and copies",
	Rule: "A file of any layout (balanced, trickle, single, raw, irregular, behind a metadata node) and 1-12 operations (Read, CtxReadFull, Seek from start/current/end, WriteTo, io.Copy, Size) by 1-3 " +
		"concurrent readers of the same file, with blocks delivered by a store and peers with latency, in any order.",
	Gen: genReader(false), Exec: execReader(false), Leak: true,
	Shrink: map[string]int64{"len": 0, "shape": 0, "raw": 0, "cid": 0, "kind": 0, "chunk": 1, "meta": 0, "readers": 1, "bad": 0},
	Real:   realAll, Stub: stubAll,
})

var _ = register(&harness.Prop{
	ID:    "U07",
	Title: "DagReader stays correct under fetch faults, cancellation and failing writers",
	Rule: "The files of U06; operations also with cancelled contexts and expiring deadlines, writers that fail or write short, Close; 0-4 faults among block fetches; operations are " +
		"retried after failures; at the end the faults stop and everything must be readable after a bounded number of retries.",
	Gen: genReader(true), Exec: execReader(true), Leak: true,
	Place: func(r *harness.Rand, c *harness.Case, counts map[string]int) {
		if r.P(85) {
			place(r, c, counts, readFaults, 4)
		}
	},
	Shrink: map[string]int64{"len": 0, "shape": 0, "raw": 0, "cid": 0, "kind": 0, "chunk": 1, "meta": 0, "readers": 1, "bad": 0, "again": 0},
	Real:   realAll, Stub: stubAll,
})
