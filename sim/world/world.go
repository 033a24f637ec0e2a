// Package world is the simulated outside of go-unixfs: a block store that
// survives crashes, peers that serve blocks over a network, latency, and
// injected faults. Everything in it is driven by simrt's virtual time.
package world

import (
	"context"
	"errors"
	"fmt"
	"sort"

	blocks "github.com/ipfs/go-block-format"
	bserv "github.com/ipfs/go-blockservice"
	cid "github.com/ipfs/go-cid"
	blockstore "github.com/ipfs/go-ipfs-blockstore"
	exchange "github.com/ipfs/go-ipfs-exchange-interface"
	ipld "github.com/ipfs/go-ipld-format"
	legacy "github.com/ipfs/go-ipld-legacy"
	mdag "github.com/ipfs/go-merkledag"

	"verifsim/simrt"
)

// ErrInjected is the error every injected storage or stream error wraps.
var ErrInjected = errors.New("injected fault")

// Fault is one planned fault: at the N-th (from 0) armed operation of kind On,
// do Do. Len consecutive operations are affected (0 means 1).
type Fault struct {
	On  string `json:"on"`
	N   int    `json:"n"`
	Len int    `json:"len,omitempty"`
	Do  string `json:"do"`
	Arg int64  `json:"arg,omitempty"`
}

// Cfg describes a world.
type Cfg struct {
	Mode   int    `json:"mode"`   // 0 real merkledag+blockservice over simulated store and peers; 1 bare DAGService; 2 bare NodeGetter semantics with short GetMany
	Lat    int    `json:"lat"`    // 0 none, 1 yield, 2 uniform, 3 heavy tail, 4 always FixedLat, 5 up to minutes
	Remote int    `json:"remote"` // percent of blocks only found at peers when Split is called
	LatKey uint64 `json:"latkey"`
}

// World is one simulated environment.
type World struct {
	S      *simrt.Sim
	Cfg    Cfg
	Blocks map[string]blocks.Block // by multihash: what the disk holds
	Remote map[string]bool         // held by peers only

	Armed  bool
	Faults []Fault
	counts map[string]int
	Fired  map[string]int // fault kinds that actually fired
	Ops    map[string]int // operations by kind, armed or not

	Cancel  func()               // cancels the current operation's context
	OnPut   func(b blocks.Block) // observer, after the block is durable
	OnReq   func(c cid.Cid)      // observer, whenever a block is asked for
	OnCrash func()               // called at a crash point
	Dead    bool                 // the machine is down: nothing reaches the disk any more
	Gen     int                  // incarnation of the process; services of earlier ones are dead

	PutErrs int // how often a put reported an error

	late   map[string]chan struct{}
	Served map[string]int // how often each block was handed out
	h      uint64
	lost   []*blocks.Block
}

// New makes a world.
func New(s *simrt.Sim, cfg Cfg, faults []Fault) *World {
	return &World{S: s, Cfg: cfg, Blocks: map[string]blocks.Block{}, Remote: map[string]bool{}, Faults: faults,
		counts: map[string]int{}, Fired: map[string]int{}, Ops: map[string]int{}, Served: map[string]int{}}
}

func key(c cid.Cid) string { return string(c.Hash()) }

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

func hstr(s string) uint64 {
	h := uint64(0xcbf29ce484222325)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 0x100000001b3
	}
	return h
}

// delay lets virtual time pass for one operation; it depends only on the
// operation's own identity, so that removing other operations leaves it alone.
func (w *World) delay(ctx context.Context, kind, k string) {
	if c := w.late[k]; c != nil && kind != "put" && kind != "putmany" {
		select {
		case <-c:
		case <-ctx.Done():
		}
		return
	}
	if w.Cfg.Lat == 0 {
		return
	}
	w.h++
	r := mix(w.Cfg.LatKey ^ hstr(kind) ^ hstr(k)*31 ^ uint64(w.Served[k])<<40)
	var d int64
	switch w.Cfg.Lat {
	case 1:
		simrt.Yield()
		return
	case 2:
		d = int64(r % 10_000_000)
	case LatFixed:
		d = FixedLat
	case LatSlow:
		d = int64(r % 1_000_000)
		switch r >> 60 {
		case 0:
			d *= 1_000_000
		case 1, 2, 3:
			d *= 100_000
		}
	default:
		d = int64(r % 1_000_000)
		switch r >> 60 {
		case 0:
			d *= 1000
		case 1, 2:
			d *= 50
		case 3, 4, 5:
			return // cache hit: no wait at all
		}
	}
	w.wait(ctx, d)
}

// Every fetch takes FixedLat in a world of latency LatFixed; some take minutes
// in one of LatSlow.
const (
	LatFixed = 4
	LatSlow  = 5
	FixedLat = 1_000_000
)

// Hold makes a peer's block late: no request for it is answered before the
// returned function is called.
func (w *World) Hold(c cid.Cid) (arrive func()) {
	if w.late == nil {
		w.late = map[string]chan struct{}{}
	}
	k, ch := key(c), make(chan struct{})
	w.late[k] = ch
	w.Remote[k] = true
	return func() {
		delete(w.late, k)
		close(ch)
	}
}

func (w *World) wait(ctx context.Context, d int64) {
	c := make(chan struct{})
	w.S.After(d, func() { close(c) })
	select {
	case <-c:
	case <-ctx.Done():
	}
}

// hit returns the fault planned for this operation, if any.
func (w *World) hit(kind string) *Fault {
	w.Ops[kind]++
	if !w.Armed {
		return nil
	}
	n := w.counts[kind]
	w.counts[kind]++
	for i := range w.Faults {
		f := &w.Faults[i]
		l := f.Len
		if l == 0 {
			l = 1
		}
		if f.On == kind && n >= f.N && n < f.N+l {
			w.Fired[kind+":"+f.Do]++
			return f
		}
	}
	return nil
}

// Hit is hit for streams the harness provides itself.
func (w *World) Hit(kind string) *Fault { return w.hit(kind) }

// ArmedCounts is how many operations of each kind happened while armed.
func (w *World) ArmedCounts() map[string]int { return w.counts }

func (w *World) store(b blocks.Block) {
	k := key(b.Cid())
	if _, ok := w.Blocks[k]; !ok {
		w.Blocks[k] = b
	}
	delete(w.Remote, k)
	if w.OnPut != nil {
		w.OnPut(b)
	}
}

// Without makes the store forget c until it is put again, or the returned
// function is called.
func (w *World) Without(c cid.Cid) (restore func()) {
	k := key(c)
	b, ok := w.Blocks[k]
	r := w.Remote[k]
	delete(w.Blocks, k)
	return func() {
		if _, now := w.Blocks[k]; ok && !now {
			w.Blocks[k] = b
			if r {
				w.Remote[k] = true
			}
		}
	}
}

// Has reports whether the disk or a peer has c.
func (w *World) Has(c cid.Cid) bool {
	_, ok := w.Blocks[key(c)]
	return ok
}

// Raw returns a stored block's bytes.
func (w *World) Raw(c cid.Cid) []byte {
	if b, ok := w.Blocks[key(c)]; ok {
		return b.RawData()
	}
	return nil
}

// Drop removes a block everywhere (lost data).
func (w *World) Drop(c cid.Cid) { delete(w.Blocks, key(c)) }

// Replace overwrites the stored bytes for c (corruption, hostile data).
func (w *World) Replace(c cid.Cid, data []byte) {
	// no spare capacity: a decoder must not see what lies behind the data
	b, err := blocks.NewBlockWithCid(append(make([]byte, 0, len(data)), data...), c)
	if err != nil {
		panic(err)
	}
	w.Blocks[key(c)] = b
}

// Keys lists stored blocks in a fixed order.
func (w *World) Keys() []string {
	ks := make([]string, 0, len(w.Blocks))
	for k := range w.Blocks {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// Split moves a share of the blocks to remote peers, so that reading them
// goes through the exchange.
func (w *World) Split() {
	if w.Cfg.Remote == 0 {
		return
	}
	for _, k := range w.Keys() {
		if int(mix(w.Cfg.LatKey^hstr(k))%100) < w.Cfg.Remote {
			w.Remote[k] = true
		}
	}
}

func (w *World) apply(ctx context.Context, f *Fault, kind string) (err error, done bool) {
	switch f.Do {
	case "err":
		return fmt.Errorf("%s: %w", kind, ErrInjected), true
	case "notfound":
		return blockstore.ErrNotFound, true
	case "slow":
		w.wait(ctx, 20_000_000_000)
	case "stall":
		<-ctx.Done()
		return ctx.Err(), true
	case "cancel":
		if w.Cancel != nil {
			w.Cancel()
		}
	case "cancelerr":
		if w.Cancel != nil {
			w.Cancel()
		}
		return context.Canceled, true
	case "ctxerr":
		// a timeout or cancellation of the store's own, not of the caller's
		if f.Arg%2 == 0 {
			return context.Canceled, true
		}
		return context.DeadlineExceeded, true
	case "crash":
		w.crash()
		return errDead, true
	}
	return nil, false
}

// ---- simulated block store (the disk) ----

type disk struct {
	w   *World
	gen int
}

// down: this service belongs to a process that has been killed.
func (w *World) down(gen int) bool { return w.Dead || gen != w.Gen }

// Restart brings the machine up again after a crash: a new process, with
// nothing but the disk.
func (w *World) Restart() { w.Dead = false; w.Gen++ }

var _ blockstore.Blockstore = disk{}

func (d disk) DeleteBlock(ctx context.Context, c cid.Cid) error {
	d.w.Ops["delete"]++
	delete(d.w.Blocks, key(c))
	return nil
}
func (d disk) Has(ctx context.Context, c cid.Cid) (bool, error) {
	k := key(c)
	_, ok := d.w.Blocks[k]
	return ok && !d.w.Remote[k], nil
}
func (d disk) GetSize(ctx context.Context, c cid.Cid) (int, error) {
	b, err := d.Get(ctx, c)
	if err != nil {
		return 0, err
	}
	return len(b.RawData()), nil
}
func (d disk) AllKeysChan(ctx context.Context) (<-chan cid.Cid, error) {
	return nil, errors.New("not supported")
}
func (d disk) HashOnRead(bool) {}

func (d disk) Get(ctx context.Context, c cid.Cid) (blocks.Block, error) {
	w := d.w
	k := key(c)
	if w.down(d.gen) {
		return nil, errDead
	}
	w.req(c)
	if w.Remote[k] {
		return nil, blockstore.ErrNotFound
	}
	f := w.hit("get")
	w.delay(ctx, "get", k)
	if w.down(d.gen) {
		return nil, errDead
	}
	if f != nil {
		if err, done := w.apply(ctx, f, "get"); done {
			return nil, err
		}
	}
	b, ok := w.Blocks[k]
	if !ok {
		return nil, blockstore.ErrNotFound
	}
	w.Served[k]++
	return blocks.NewBlockWithCid(b.RawData(), c)
}

func (d disk) Put(ctx context.Context, b blocks.Block) error {
	return d.w.put(ctx, b, d.gen)
}

func (w *World) req(c cid.Cid) {
	if w.OnReq != nil {
		w.OnReq(c)
	}
}

func (w *World) crash() {
	w.Dead = true
	if w.OnCrash != nil {
		w.OnCrash()
	}
}

var errDead = fmt.Errorf("machine is down: %w", ErrInjected)

func (w *World) put(ctx context.Context, b blocks.Block, gen int) (err error) {
	defer func() {
		if err != nil {
			w.PutErrs++
		}
	}()
	w.delay(ctx, "put", key(b.Cid()))
	if w.down(gen) {
		return errDead
	}
	f := w.hit("put")
	if f != nil {
		switch f.Do {
		case "lostack": // written, but the caller is told it failed
			w.store(copyBlock(b))
			return fmt.Errorf("put: %w", ErrInjected)
		case "crashafter":
			w.store(copyBlock(b))
			w.crash()
			return errDead
		}
		if err, done := w.apply(ctx, f, "put"); done {
			return err
		}
	}
	if f == nil && ctx.Err() != nil && w.Cfg.LatKey&1 == 1 {
		return ctx.Err()
	}
	w.store(copyBlock(b))
	return nil
}

func copyBlock(b blocks.Block) blocks.Block {
	raw := append([]byte(nil), b.RawData()...)
	nb, err := blocks.NewBlockWithCid(raw, b.Cid())
	if err != nil {
		panic(err)
	}
	return nb
}

func (d disk) PutMany(ctx context.Context, bs []blocks.Block) error {
	return d.w.putMany(ctx, bs, d.gen)
}

func (w *World) putMany(ctx context.Context, bs []blocks.Block, gen int) (err error) {
	defer func() {
		if err != nil {
			w.PutErrs++
		}
	}()
	k := ""
	if len(bs) > 0 {
		k = key(bs[0].Cid())
	}
	w.delay(ctx, "putmany", k)
	if w.down(gen) {
		return errDead
	}
	f := w.hit("putmany")
	if f != nil {
		switch f.Do {
		case "torn": // a prefix reaches the disk
			n := 0
			if len(bs) > 0 {
				n = int(uint64(f.Arg) % uint64(len(bs)+1))
			}
			for _, b := range bs[:n] {
				w.store(copyBlock(b))
			}
			return fmt.Errorf("putmany: %w", ErrInjected)
		case "lostack":
			for _, b := range bs {
				w.store(copyBlock(b))
			}
			return fmt.Errorf("putmany: %w", ErrInjected)
		case "crashafter":
			for _, b := range bs {
				w.store(copyBlock(b))
			}
			w.crash()
			return errDead
		case "crashtorn":
			n := int(uint64(f.Arg) % uint64(len(bs)+1))
			for _, b := range bs[:n] {
				w.store(copyBlock(b))
			}
			w.crash()
			return errDead
		}
		if err, done := w.apply(ctx, f, "putmany"); done {
			return err
		}
	}
	for _, b := range bs {
		w.store(copyBlock(b))
	}
	return nil
}

// ---- simulated peers (the network) ----

type peers struct {
	w   *World
	gen int
}

var _ exchange.Interface = peers{}

func (p peers) HasBlock(context.Context, blocks.Block) error { return nil }
func (p peers) IsOnline() bool                               { return true }
func (p peers) Close() error                                 { return nil }

func (p peers) GetBlock(ctx context.Context, c cid.Cid) (blocks.Block, error) {
	w := p.w
	k := key(c)
	if w.down(p.gen) {
		return nil, errDead
	}
	w.req(c)
	f := w.hit("net")
	w.delay(ctx, "net", k)
	if w.down(p.gen) {
		return nil, errDead
	}
	if f != nil {
		if err, done := w.apply(ctx, f, "net"); done {
			return nil, err
		}
	}
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	b, ok := w.Blocks[k]
	if !ok {
		return nil, blockstore.ErrNotFound
	}
	w.Served[k]++
	return blocks.NewBlockWithCid(b.RawData(), c)
}

// GetBlocks answers each wanted block independently, in whatever order the
// simulated network delivers them. A block that cannot be had is simply not
// sent, and the channel closes once all answers are in or ctx is done.
func (p peers) GetBlocks(ctx context.Context, ks []cid.Cid) (<-chan blocks.Block, error) {
	w := p.w
	if w.down(p.gen) {
		return nil, errDead
	}
	if f := w.hit("netmany"); f != nil {
		if err, done := w.apply(ctx, f, "netmany"); done {
			return nil, err
		}
	}
	out := make(chan blocks.Block)
	left := len(ks)
	if left == 0 {
		close(out)
		return out, nil
	}
	done := make(chan struct{})
	for _, c := range ks {
		c := c
		go func() {
			defer func() {
				left--
				if left == 0 {
					close(done)
				}
			}()
			b, err := p.GetBlock(ctx, c)
			if err != nil {
				return
			}
			select {
			case out <- b:
			case <-ctx.Done():
			}
		}()
	}
	go func() {
		<-done
		close(out)
	}()
	return out, nil
}

// ---- DAG service ----

// DAG returns the DAG service the code under test uses.
func (w *World) DAG() ipld.DAGService {
	if w.Cfg.Mode == 0 {
		return mdag.NewDAGService(bserv.New(disk{w, w.Gen}, peers{w, w.Gen}))
	}
	return &bare{w, w.Gen}
}

// Quiet returns a DAG service over the same disk, without faults or latency.
func (w *World) Quiet() ipld.DAGService {
	return &bare{&World{S: w.S, Blocks: w.Blocks, Remote: map[string]bool{},
		counts: map[string]int{}, Fired: map[string]int{}, Ops: map[string]int{}, Served: map[string]int{}, Cfg: Cfg{Mode: 1}}, 0}
}

// bare implements the DAGService contract directly: GetMany may deliver in any
// order, may fail per node, and (mode 2) may end early without an error.
type bare struct {
	w   *World
	gen int
}

func (b *bare) get(ctx context.Context, c cid.Cid, kind string) (ipld.Node, error) {
	w := b.w
	k := key(c)
	if w.down(b.gen) {
		return nil, errDead
	}
	w.req(c)
	f := w.hit(kind)
	w.delay(ctx, kind, k)
	if w.down(b.gen) {
		return nil, errDead
	}
	if f != nil {
		if err, done := w.apply(ctx, f, kind); done {
			if err == blockstore.ErrNotFound {
				err = ipld.ErrNotFound
			}
			return nil, err
		}
	}
	if w.Cfg.Lat != 0 && ctx.Err() != nil {
		return nil, ctx.Err()
	}
	blk, ok := w.Blocks[k]
	if !ok {
		return nil, ipld.ErrNotFound
	}
	w.Served[k]++
	nb, err := blocks.NewBlockWithCid(blk.RawData(), c)
	if err != nil {
		return nil, err
	}
	return legacy.DecodeNode(ctx, nb)
}

func (b *bare) Get(ctx context.Context, c cid.Cid) (ipld.Node, error) { return b.get(ctx, c, "get") }

func (b *bare) GetMany(ctx context.Context, cs []cid.Cid) <-chan *ipld.NodeOption {
	w := b.w
	seen := map[string]bool{}
	var ks []cid.Cid
	for _, c := range cs {
		if s := c.KeyString(); !seen[s] {
			seen[s] = true
			ks = append(ks, c)
		}
	}
	out := make(chan *ipld.NodeOption, len(ks)+1)
	short := -1
	if f := w.hit("getmany"); f != nil {
		if f.Do == "short" {
			short = 0
			if len(ks) > 0 {
				short = int(uint64(f.Arg) % uint64(len(ks)))
			}
		} else if err, done := w.apply(ctx, f, "getmany"); done {
			out <- &ipld.NodeOption{Err: err}
			close(out)
			return out
		}
	}
	left := len(ks)
	if left == 0 {
		close(out)
		return out
	}
	sent := 0
	closed := false
	for _, c := range ks {
		c := c
		go func() {
			nd, err := b.get(ctx, c, "item")
			if !closed {
				if short >= 0 && sent >= short {
					closed = true
					close(out)
				} else {
					sent++
					if err != nil {
						out <- &ipld.NodeOption{Err: err}
					} else {
						out <- &ipld.NodeOption{Node: nd}
					}
				}
			}
			left--
			if left == 0 && !closed {
				closed = true
				close(out)
			}
		}()
	}
	return out
}

func (b *bare) Add(ctx context.Context, n ipld.Node) error { return b.w.put(ctx, n, b.gen) }
func (b *bare) AddMany(ctx context.Context, ns []ipld.Node) error {
	bs := make([]blocks.Block, len(ns))
	for i, n := range ns {
		bs[i] = n
	}
	return b.w.putMany(ctx, bs, b.gen)
}
func (b *bare) Remove(ctx context.Context, c cid.Cid) error {
	b.w.Ops["delete"]++
	delete(b.w.Blocks, key(c))
	return nil
}
func (b *bare) RemoveMany(ctx context.Context, cs []cid.Cid) error {
	for _, c := range cs {
		b.Remove(ctx, c)
	}
	return nil
}

// ---- virtual deadlines ----

type deadlineCtx struct {
	context.Context
	err *error
}

func (d deadlineCtx) Err() error {
	if *d.err != nil && d.Context.Err() != nil {
		return *d.err
	}
	return d.Context.Err()
}

// WithDeadline is context.WithTimeout on virtual time.
func (w *World) WithDeadline(ctx context.Context, d int64) (context.Context, context.CancelFunc) {
	c, cancel := context.WithCancel(ctx)
	var e error
	w.S.After(d, func() {
		if c.Err() == nil {
			e = context.DeadlineExceeded
			cancel()
		}
	})
	return deadlineCtx{c, &e}, cancel
}
