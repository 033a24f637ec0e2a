package props

import (
	"context"
	"errors"
	"fmt"
	"os"
	"sort"
	"strings"

	cid "github.com/ipfs/go-cid"
	ipld "github.com/ipfs/go-ipld-format"
	mdag "github.com/ipfs/go-merkledag"
	"github.com/spaolacci/murmur3"

	ft "github.com/ipfs/go-unixfs"
	"github.com/ipfs/go-unixfs/hamt"
	uio "github.com/ipfs/go-unixfs/io"

	"verifsim/harness"
	"verifsim/world"
)

// ---- names ----

func nameHash(s string) uint64 { return murmur3.Sum64([]byte(s)) }

// collide holds groups of names whose hashes share their first 16 bits or more.
var collide [][]string

func init() {
	g := map[uint64][]string{}
	for i := 0; i < 1<<16; i++ {
		n := fmt.Sprintf("c%d", i)
		k := nameHash(n) >> 48
		g[k] = append(g[k], n)
	}
	var ks []uint64
	for k, v := range g {
		if len(v) >= 5 {
			ks = append(ks, k)
		}
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	for _, k := range ks {
		collide = append(collide, g[k])
	}
}

// deep names have hashes that agree with the first one's up to some late bit,
// or altogether (found by inverting the hash function). Those of the first
// group can be told apart at every shard width.
var deep = []string{
	"d6woiorranb46srt]jA<]|r(mWWdzGYO", // 0123446789abcdef
	"2qc3r5ltg5q8t954{jl6I25A=VK$XL4C", // 0123456789abcdef
	"ybmvo6dfvsl0u619B?QB'^Q3&Q(ql;I+", // 0123456789abcdff
	"1imvb3q81q6vyl3p<^ezX5z59.OR:#4K", // 0123456789abccef
	"wdu8vfi26m1vent7KaJ4o8x4mZuJ,ZS}", // 0123456789abddef
	"rdr35m9lhu2r0vaw[sO8_4WpW;KEseEv", // 0123456789aacdef
	"y6kne7r59hm2baz6Pf3_ItV$zo#Tjr7@", // 0123456788abcdef
	"n64kemc4gkim0ydw0{7f^?Jf(H.8[%1V", // 1123456789abcdef
	// from here on, some cannot
	"8tu9avy7jq7dz01db_M8lV^TRDc#Ev.V", // 0123456789abcdef
	"vrufhg8jk247027cxN}Gub+uhSD:~oVR", // 0123456789abcdeb
	"ybk1w6ac08477zxi$(l(QuG^>CU6m.x;", // 0123456789abcded
	"eksu3md1reex36b3HAZALbt4qhNRk+E<", // 0123456789abcdef
	"btagmzz2i5jvzi7jdNwB]LrTZLX;%:qh", // 0123456789abcdee
	"lrhhsyw7o232elvg(H0wCMg$,:@+iZ[X", // 0123456789abcdee
	"1pg08sopr5hkpq5c6?5XWQ6uOV1.(ADU", // 0123456789abccef
}

const nApart = 8

// tooDeep: no sharded directory of that width can hold all the names, as their
// hashes do not tell them apart.
func tooDeep(m dirModel, name string, width int64) bool {
	lg := 0
	for 1<<lg < width {
		lg++
	}
	drop := uint(64 % lg)
	seen := map[uint64]string{nameHash(name) >> drop: name}
	for k := range m {
		h := nameHash(k) >> drop
		if o, ok := seen[h]; ok && o != k {
			return true
		}
		seen[h] = k
	}
	return false
}

// dirName is the i-th name of the case's pool.
func dirName(e *harness.Env, i int64) string {
	switch e.P("names") {
	case 3, 4:
		n := int64(len(deep))
		if e.P("names") == 4 {
			n = nApart
		}
		if i < n {
			return deep[(i+e.P("nseed"))%n]
		}
	case 1: // many share long hash prefixes
		g := collide[(int(e.P("nseed"))+int(i)/4)%len(collide)]
		return g[int(i)%len(g)]
	case 2: // awkward
		switch i % 6 {
		case 0:
			return fmt.Sprintf("0%X", i%16)
		case 1:
			return fmt.Sprintf("%02X%d", i, i)
		case 2:
			return strings.Repeat("x", int(i%40)+1)
		case 3:
			return fmt.Sprintf("é/%d\x00ü", i)
		case 4:
			return fmt.Sprintf("F%d", i)
		}
		return fmt.Sprintf(" %d", i)
	}
	return fmt.Sprintf("n%d-%d", e.P("nseed")%100, i)
}

// ---- the model ----

// has reports whether a node is there under some name.
func (m dirModel) has(nd ipld.Node) bool {
	for _, x := range m {
		if x.cid == string(nd.Cid().Bytes()) {
			return true
		}
	}
	return false
}

type entry struct {
	cid  string
	size uint64
}

type dirModel map[string]entry

func (m dirModel) clone() dirModel {
	o := dirModel{}
	for k, v := range m {
		o[k] = v
	}
	return o
}

func (m dirModel) bytes() int {
	n := 0
	for k, v := range m {
		c, _ := cid.Cast([]byte(v.cid))
		n += len(k) + c.ByteLen()
	}
	return n
}

func (m dirModel) String() string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return fmt.Sprintf("%q", ks)
}

// value is the v-th node used as a directory entry.
func value(e *harness.Env, v int64) ipld.Node {
	b := []byte(fmt.Sprintf("value %d", v))
	switch v % 4 {
	case 0:
		return mdag.NewRawNode(b)
	case 1:
		nd := mdag.NodeWithData(ft.FilePBData(b, uint64(len(b))))
		return nd
	case 2:
		nd := mdag.NodeWithData(ft.FilePBData(b, uint64(len(b))))
		nd.SetCidBuilder(cidBuilder(e.P("cid")))
		return nd
	}
	nd := ft.EmptyDirNode()
	nd.SetCidBuilder(cidBuilder(e.P("cid")))
	return nd
}

func entryOf(nd ipld.Node) entry {
	s, err := nd.Size()
	if err != nil {
		panic(err)
	}
	return entry{string(nd.Cid().Bytes()), s}
}

// ---- independent reading of stored directories ----

// storedDir lists a stored directory, checking on the way that a sharded one
// is in canonical form: it depends on nothing but the entries.
func storedDir(w *world.World, c cid.Cid, canonical bool) (m dirModel, sharded bool, err error) {
	nd, err := getNode(w, c)
	if err != nil {
		return nil, false, err
	}
	p, ok := nd.(*mdag.ProtoNode)
	if !ok {
		return nil, false, errors.New("a directory node that is not protobuf")
	}
	u, err := decodeUnixfs(p.Data())
	if err != nil {
		return nil, false, err
	}
	m = dirModel{}
	switch u.typ {
	case tDirectory:
		for _, l := range p.Links() {
			if _, dup := m[l.Name]; dup {
				return nil, false, fmt.Errorf("entry %q is stored twice", l.Name)
			}
			m[l.Name] = entry{string(l.Cid.Bytes()), l.Size}
		}
		return m, false, nil
	case tHAMT:
	default:
		return nil, false, fmt.Errorf("node of type %d as a directory", u.typ)
	}
	width := u.fanout
	lg := 0
	for 1<<lg < width {
		lg++
	}
	pad := len(fmt.Sprintf("%X", width-1))
	if width < 8 || width&(width-1) != 0 {
		return nil, false, fmt.Errorf("shard of width %d", width)
	}
	var rec func(c cid.Cid, depth int, prefix uint64) (int, error)
	rec = func(c cid.Cid, depth int, prefix uint64) (int, error) {
		nd, err := getNode(w, c)
		if err != nil {
			return 0, err
		}
		p, ok := nd.(*mdag.ProtoNode)
		if !ok {
			return 0, errors.New("a shard that is not protobuf")
		}
		u, err := decodeUnixfs(p.Data())
		if err != nil {
			return 0, err
		}
		if u.typ != tHAMT || u.fanout != width || u.hashType != 0x22 {
			return 0, fmt.Errorf("shard %s at depth %d: type %d, fanout %d, hash %#x", c, depth, u.typ, u.fanout, u.hashType)
		}
		var set []int
		for i := 0; i < len(u.data)*8; i++ {
			if u.data[len(u.data)-1-i/8]>>(i%8)&1 == 1 {
				set = append(set, i)
			}
		}
		if len(set) != len(p.Links()) {
			return 0, fmt.Errorf("shard %s at depth %d has %d bits set for %d links", c, depth, len(set), len(p.Links()))
		}
		if canonical && len(u.data) > 0 && u.data[0] == 0 {
			return 0, fmt.Errorf("shard %s: bitfield with leading zeros", c)
		}
		total := 0
		byIdx := map[int]*ipld.Link{}
		for _, l := range p.Links() {
			if len(l.Name) < pad {
				return 0, fmt.Errorf("shard %s: link name %q", c, l.Name)
			}
			var i int
			if _, err := fmt.Sscanf(l.Name[:pad], "%X", &i); err != nil || fmt.Sprintf("%0*X", pad, i) != l.Name[:pad] {
				return 0, fmt.Errorf("shard %s: link name %q", c, l.Name)
			}
			if byIdx[i] != nil {
				return 0, fmt.Errorf("shard %s: slot %d is used twice", c, i)
			}
			byIdx[i] = l
		}
		for _, i := range set {
			l := byIdx[i]
			if l == nil {
				return 0, fmt.Errorf("shard %s at depth %d: no link for slot %d", c, depth, i)
			}
			pre := prefix<<uint(lg) | uint64(i)
			if len(l.Name) == pad {
				if (depth+2)*lg > 64 {
					return 0, fmt.Errorf("shard %s is too deep", c)
				}
				n, err := rec(l.Cid, depth+1, pre)
				if err != nil {
					return 0, err
				}
				if canonical && n < 2 {
					return 0, fmt.Errorf("the shard below slot %d at depth %d holds %d entries: it should have been folded into its parent", i, depth, n)
				}
				total += n
				continue
			}
			name := l.Name[pad:]
			if got := nameHash(name) >> uint(64-(depth+1)*lg); got != pre {
				return 0, fmt.Errorf("entry %q sits at hash path %#x of depth %d, its hash begins with %#x", name, pre, depth, got)
			}
			if _, dup := m[name]; dup {
				return 0, fmt.Errorf("entry %q is stored twice", name)
			}
			m[name] = entry{string(l.Cid.Bytes()), l.Size}
			total++
		}
		return total, nil
	}
	_, err = rec(c, 0, 0)
	return m, true, err
}

func sameDir(got, want dirModel) string {
	for k, w := range want {
		g, ok := got[k]
		if !ok {
			return fmt.Sprintf("entry %q is missing (%d entries, want %d)", k, len(got), len(want))
		}
		if g != w {
			return fmt.Sprintf("entry %q is %x/%d, want %x/%d", k, g.cid, g.size, w.cid, w.size)
		}
	}
	for k := range got {
		if _, ok := want[k]; !ok {
			return fmt.Sprintf("unexpected entry %q (%d entries, want %d)", k, len(got), len(want))
		}
	}
	return ""
}

// ---- workload ----

type dirRun struct {
	e       *harness.Env
	dag     ipld.DAGService
	d       uio.Directory
	m       dirModel
	sharded bool // what it should be now, where that is determined
	base    int  // size when the directory became or was loaded as sharded
	faulty  bool
	canon   bool
	thresh  bool
	width   int64 // of a sharded directory
	thr     int   // the threshold now
	exact   bool  // errors are never excused
	cidb    int64 // the CID format asked for now
}

func genDir(r *harness.Rand, thorough bool) *harness.Case {
	c := &harness.Case{P: map[string]int64{}, World: r.World(), Sched: r.Sched()}
	c.P["start"] = int64(r.Pick(0, 0, 1, 1, 2, 2, 2)) // new; loaded basic; loaded sharded
	c.P["thr"] = r.Pick(0, 1, 120, 200, 300, 500, 900, 2000)
	c.P["width"] = r.Pick(8, 8, 16, 16, 32, 64, 256, 512, 1024)
	c.P["defw"] = c.P["width"]
	if r.P(40) {
		c.P["defw"] = r.Pick(8, 16, 32, 256, 1024)
	}
	c.P["cid"] = r.Pick(0, 0, 1, 1, 2, 3)
	c.P["names"] = r.Pick(0, 0, 0, 1, 1, 1, 2, 2, 3, 4)
	c.P["nseed"] = int64(r.U() >> 50)
	pool := int(r.Pick(3, 6, 12, 24, 48))
	nops := r.In(2, 30)
	if thorough {
		pool = int(r.Pick(3, 6, 12, 24, 48, 120))
		nops = r.In(2, 60)
	}
	c.P["pool"] = int64(pool)
	c.P["pre"] = int64(r.Small(pool + 1)) // entries it starts with
	c.P["api"] = int64(b2i(r.P(15)))
	genDirOps(r, c, nops)
	if r.P(12) {
		c.P["loose"] = 1 + r.N64(1000)
	}
	return c
}

func genDirOps(r *harness.Rand, c *harness.Case, nops int) {
	pool := int(c.P["pool"])
	addBias := int(r.Pick(20, 40, 55))
	for i := 0; i < nops; i++ {
		if r.P(3) {
			addBias = int(r.Pick(10, 35, 60))
		}
		n := int64(r.N(pool))
		var op harness.Op
		switch k := r.N(100); {
		case k < addBias:
			op = harness.Op{K: "add", A: n, B: int64(r.N(40))}
		case k < 70:
			op = harness.Op{K: "rm", A: n}
		case k < 80:
			op = harness.Op{K: "find", A: n}
		case k < 88:
			op = harness.Op{K: "list", A: int64(r.N(3))}
		case k < 95:
			op = harness.Op{K: "node"}
		default:
			op = harness.Op{K: "reload"}
		}
		c.Ops = append(c.Ops, op)
	}
}

// cancelSome turns some operations into ones whose context ends early.
func cancelSome(r *harness.Rand, c *harness.Case, pct int) {
	for i := range c.Ops {
		if r.P(pct) {
			c.Ops[i].C = 1 + int64(r.N(2)) + r.N64(int64(r.Pick(2, 1000, 1_000_000, 30_000_000)))
		}
	}
}

// thrSome changes the threshold now and then.
func thrSome(r *harness.Rand, c *harness.Case) {
	if !r.P(25) {
		return
	}
	for n := r.In(1, 4); n > 0; n-- {
		i := r.N(len(c.Ops) + 1)
		op := harness.Op{K: "thr", A: r.Pick(0, 1, 120, 200, 300, 500, 900, c.P["thr"])}
		c.Ops = append(c.Ops[:i:i], append([]harness.Op{op}, c.Ops[i:]...)...)
	}
}

// cidSome changes the CID format asked for now and then.
func cidSome(r *harness.Rand, c *harness.Case) {
	if !r.P(15) {
		return
	}
	for n := r.In(1, 3); n > 0; n-- {
		i := r.N(len(c.Ops) + 1)
		op := harness.Op{K: "cid", A: r.Pick(0, 1, 2, 3)}
		c.Ops = append(c.Ops[:i:i], append([]harness.Op{op}, c.Ops[i:]...)...)
	}
}

func isHAMT(d uio.Directory) bool {
	if dd, ok := d.(*uio.DynamicDirectory); ok {
		d = dd.Directory
	}
	switch d.(type) {
	case *uio.HAMTDirectory, shardDir:
		return true
	}
	return false
}

// shardDir is a hamt.Shard used directly, through all of its methods.
type shardDir struct {
	*hamt.Shard
	s *dirRun
	n *int
}

func (d shardDir) next(n int) int { *d.n++; return *d.n % n }

// prev judges the link a change says it replaced or removed.
func (d shardDir) prev(what, name string, l *ipld.Link) {
	old, had := d.s.m[name]
	switch {
	case l == nil && had:
		d.s.e.Failf("shard-previous", "%s(%q) says nothing was there before", what, name)
	case l != nil && !had:
		d.s.e.Failf("shard-previous", "%s(%q) says %s was there before", what, name, l.Cid)
	case l != nil && (string(l.Cid.Bytes()) != old.cid || l.Size != old.size):
		d.s.e.Failf("shard-previous", "%s(%q) says %s/%d was there before, it was %x/%d", what, name, l.Cid, l.Size, old.cid, old.size)
	}
}

func (d shardDir) AddChild(ctx context.Context, name string, nd ipld.Node) error {
	switch d.next(3) {
	case 0:
		return d.Set(ctx, name, nd)
	case 1:
		l, err := d.Swap(ctx, name, nd)
		if err == nil {
			d.prev("Swap", name, l)
		}
		return err
	}
	l, err := ipld.MakeLink(nd)
	if err != nil {
		return err
	}
	l.Name = "some other name"
	return d.SetLink(ctx, name, l)
}

func (d shardDir) RemoveChild(ctx context.Context, name string) error {
	if d.next(2) == 0 {
		return d.Remove(ctx, name)
	}
	l, err := d.Take(ctx, name)
	if err == nil {
		d.prev("Take", name, l)
	}
	return err
}

func (d shardDir) Find(ctx context.Context, name string) (ipld.Node, error) {
	l, err := d.Shard.Find(ctx, name)
	if err != nil {
		return nil, err
	}
	return l.GetNode(ctx, d.s.dag)
}

func (d shardDir) Links(ctx context.Context) ([]*ipld.Link, error) { return d.EnumLinks(ctx) }
func (d shardDir) GetCidBuilder() cid.Builder                      { return d.CidBuilder() }

func (d shardDir) GetNode() (ipld.Node, error) {
	if d.next(2) == 0 {
		return d.Node()
	}
	l, err := d.Link()
	if err != nil {
		return nil, err
	}
	nd, err := d.Node()
	if err == nil {
		if n, err := nd.Size(); err != nil || l.Size != n || !l.Cid.Equals(nd.Cid()) {
			d.s.e.Failf("shard-link", "Link gives %s/%d, the node is %s/%d", l.Cid, l.Size, nd.Cid(), n)
		}
	}
	return nd, err
}

// open opens a stored directory, in the way the case calls for.
func (s *dirRun) open(nd ipld.Node) (uio.Directory, error) {
	if s.e.P("api") == 0 {
		return uio.NewDirectoryFromNode(s.dag, nd)
	}
	sh, err := hamt.NewHamtFromDag(s.dag, nd)
	return shardDir{sh, s, new(int)}, err
}

func (s *dirRun) mayFail() bool { return s.faulty }

// loosen rewrites a stored sharded directory into one that another writer may
// have made: with entries further down than need be, and with empty shards.
func loosen(e *harness.Env, q ipld.DAGService, nd ipld.Node, r *harness.Rand) ipld.Node {
	fsn, err := ft.FSNodeFromBytes(nd.(*mdag.ProtoNode).Data())
	if err != nil {
		e.Failf("setup", "%v", err)
	}
	width := int(fsn.Fanout())
	lg, pad := 0, len(fmt.Sprintf("%X", width-1))
	for 1<<lg < width {
		lg++
	}
	b := nd.(*mdag.ProtoNode).CidBuilder()
	shard := func(links map[int]*ipld.Link) *ipld.Link {
		bits := make([]byte, width/8)
		var l []*ipld.Link
		for i := 0; i < width; i++ {
			if links[i] != nil {
				bits[len(bits)-1-i/8] |= 1 << (i % 8)
				l = append(l, links[i])
			}
		}
		for len(bits) > 0 && bits[0] == 0 {
			bits = bits[1:]
		}
		d, err := ft.HAMTShardData(bits, uint64(width), hamt.HashMurmur3)
		if err != nil {
			e.Failf("setup", "%v", err)
		}
		p := mdag.NodeWithData(d)
		p.SetCidBuilder(b)
		p.SetLinks(l)
		nd = p
		if err := q.Add(e.Ctx, p); err != nil {
			e.Failf("setup", "%v", err)
		}
		out, err := ipld.MakeLink(p)
		if err != nil {
			e.Failf("setup", "%v", err)
		}
		return out
	}
	var push func(l *ipld.Link, depth int) *ipld.Link // an entry below a slot at depth
	push = func(l *ipld.Link, depth int) *ipld.Link {
		i := int(nameHash(l.Name) << uint((depth+1)*lg) >> uint(64-lg))
		k := &ipld.Link{Name: fmt.Sprintf("%0*X", pad, i) + l.Name, Size: l.Size, Cid: l.Cid}
		if (depth+3)*lg <= 64 && r.P(30) {
			k = push(l, depth+1)
			k.Name = fmt.Sprintf("%0*X", pad, i)
		}
		return shard(map[int]*ipld.Link{i: k})
	}
	var rec func(c cid.Cid, depth int) *ipld.Link
	rec = func(c cid.Cid, depth int) *ipld.Link {
		n, err := q.Get(e.Ctx, c)
		if err != nil {
			e.Failf("setup", "%v", err)
		}
		links := map[int]*ipld.Link{}
		for _, l := range n.Links() {
			var i int
			fmt.Sscanf(l.Name[:pad], "%X", &i)
			k := &ipld.Link{Name: l.Name, Size: l.Size, Cid: l.Cid}
			switch {
			case len(l.Name) == pad:
				k = rec(l.Cid, depth+1)
				k.Name = l.Name
			case (depth+2)*lg <= 64 && r.P(20):
				k = push(&ipld.Link{Name: l.Name[pad:], Size: l.Size, Cid: l.Cid}, depth)
				k.Name = l.Name[:pad]
			}
			links[i] = k
		}
		if i := r.N(width); links[i] == nil && (depth+2)*lg <= 64 && r.P(30) {
			k := shard(nil)
			k.Name = fmt.Sprintf("%0*X", pad, i)
			links[i] = k
		}
		return shard(links)
	}
	rec(nd.Cid(), 0)
	e.Probe("a sharded directory in another form")
	return nd
}

// open makes the directory the case starts with.
func openDir(e *harness.Env) *dirRun {
	uio.DefaultShardWidth = int(e.P("defw"))
	s := &dirRun{e: e, m: dirModel{}, width: e.P("width"), thr: int(e.P("thr")), cidb: e.P("cid")}
	q := e.W.Quiet()
	for v := int64(0); v < max(40, e.P("pool")); v++ {
		q.Add(e.Ctx, value(e, v))
	}
	if e.P("start") == 0 && e.P("api") == 1 {
		s.dag = e.W.DAG()
		sh, err := hamt.NewShard(s.dag, int(e.P("width")))
		if err != nil {
			e.Failf("setup", "%v", err)
		}
		sh.SetCidBuilder(cidBuilder(e.P("cid")))
		s.d = shardDir{sh, s, new(int)}
		return s
	}
	if e.P("start") == 0 {
		uio.HAMTShardingSize = int(e.P("thr"))
		s.dag = e.W.DAG()
		s.d = uio.NewDirectory(s.dag)
		s.d.SetCidBuilder(cidBuilder(e.P("cid")))
		return s
	}
	var pre []int64
	for i := int64(0); i < e.P("pre"); i++ {
		pre = append(pre, i)
	}
	var nd ipld.Node
	if e.P("start") == 1 && e.P("api") == 0 {
		p := ft.EmptyDirNode()
		p.SetCidBuilder(cidBuilder(e.P("cid")))
		for _, i := range pre {
			name := dirName(e, i)
			if _, dup := s.m[name]; dup {
				continue
			}
			v := value(e, i)
			s.m[name] = entryOf(v)
			if err := p.AddNodeLink(name, v); err != nil {
				e.Failf("setup", "%v", err)
			}
		}
		nd = p
		q.Add(e.Ctx, p)
	} else {
		sh, err := hamt.NewShard(q, int(e.P("width")))
		if err != nil {
			e.Failf("setup", "%v", err)
		}
		sh.SetCidBuilder(cidBuilder(e.P("cid")))
		for _, i := range pre {
			v := value(e, i)
			if tooDeep(s.m, dirName(e, i), e.P("width")) {
				continue
			}
			s.m[dirName(e, i)] = entryOf(v)
			if err := sh.Set(e.Ctx, dirName(e, i), v); err != nil {
				e.Failf("setup", "%v", err)
			}
		}
		if nd, err = sh.Node(); err != nil {
			e.Failf("setup", "%v", err)
		}
		if l := e.P("loose"); l != 0 {
			nd = loosen(e, q, nd, harness.NewRand(uint64(l)))
		}
	}
	uio.HAMTShardingSize = int(e.P("thr"))
	e.W.Split()
	s.dag = e.W.DAG()
	d, err := s.open(nd)
	if err != nil {
		e.Failf("open", "NewDirectoryFromNode: %v", err)
	}
	s.d, s.base = d, s.m.bytes()
	s.sharded = isHAMT(d)
	return s
}

func (s *dirRun) ctx(op harness.Op) (context.Context, func()) {
	if op.C == 0 {
		return s.e.Ctx, func() {}
	}
	ctx, cancel := context.WithCancel(s.e.Ctx)
	if op.C == 1 {
		cancel()
	} else {
		s.e.W.S.After(op.C-2, cancel)
	}
	return ctx, cancel
}

func (s *dirRun) listing(how int64, ctx context.Context) (dirModel, error) {
	e := s.e
	m := dirModel{}
	put := func(l *ipld.Link) error {
		if _, dup := m[l.Name]; dup {
			e.Failf("list-twice", "entry %q is listed twice", l.Name)
		}
		m[l.Name] = entry{string(l.Cid.Bytes()), l.Size}
		return nil
	}
	switch how {
	case 0:
		ls, err := s.d.Links(ctx)
		if err != nil {
			return nil, err
		}
		for _, l := range ls {
			put(l)
		}
	case 1:
		if err := s.d.ForEachLink(ctx, put); err != nil {
			return nil, err
		}
	default:
		var err error
		for r := range s.d.EnumLinksAsync(ctx) {
			if r.Err != nil {
				err = r.Err
			} else if err == nil {
				put(r.Link)
			}
		}
		if err != nil {
			return nil, err
		}
		if err := ctx.Err(); err != nil {
			return nil, err // the consumer knows that it stopped listening
		}
	}
	return m, nil
}

var listName = []string{"Links", "ForEachLink", "EnumLinksAsync"}

func (s *dirRun) err(op harness.Op, what string, err error) {
	if op.C == 0 && !s.mayFail() {
		s.e.Failf("dir-error", "%s: unexpected error %v", what, err)
	}
	blame(s.e, what, err, op.C != 0)
	s.e.Probe("failed " + op.K)
	s.e.Logf("%s failed: %v", what, err)
}

func (s *dirRun) step(op harness.Op) {
	e := s.e
	name := dirName(e, op.A)
	old, had := s.m[name]
	was := isHAMT(s.d)
	ctx, cancel := s.ctx(op)
	defer cancel()
	switch op.K {
	case "add":
		v := value(e, op.B)
		restore := func() {}
		sd, direct := s.d.(shardDir)
		puts := e.W.PutErrs
		if fresh := was && op.B%4 != 3 && !s.m.has(v) && (!direct || *sd.n%3 != 1); fresh {
			// a sharded directory stores the nodes it is given
			restore = e.W.Without(v.Cid())
		}
		err := s.d.AddChild(ctx, name, v)
		if err == nil && isHAMT(s.d) && !e.W.Has(v.Cid()) {
			e.Failf("dir-add-lost", "AddChild(%q) succeeded, but the node is not in the store", name)
		}
		restore()
		if err == nil && e.W.PutErrs > puts {
			e.Failf("dir-put-swallowed", "AddChild(%q) succeeded although the store refused a block", name)
		}
		if err != nil {
			w := s.width
			if !was {
				w = e.P("defw")
			}
			if tooDeep(s.m, name, w) {
				e.Probe("names that cannot be told apart")
			} else {
				s.err(op, "AddChild", err)
			}
			if isHAMT(s.d) != was {
				e.Failf("dir-kind", "a failed AddChild changed the kind of the directory")
			}
			break
		}
		s.m[name] = entryOf(v)
		s.kind("AddChild", was, true)
	case "rm":
		puts := e.W.PutErrs
		err := s.d.RemoveChild(ctx, name)
		switch {
		case err == nil && e.W.PutErrs > puts:
			e.Failf("dir-put-swallowed", "RemoveChild(%q) succeeded although the store refused a block", name)
		case err == nil && !had:
			e.Failf("dir-remove", "RemoveChild(%q) of an absent entry succeeded", name)
		case err == nil:
			delete(s.m, name)
			s.kind("RemoveChild", was, false)
		case errors.Is(err, os.ErrNotExist):
			if had {
				e.Failf("dir-remove", "RemoveChild(%q) says the entry does not exist: %v", name, err)
			}
		default:
			s.err(op, "RemoveChild", err)
		}
		if err != nil && isHAMT(s.d) != was {
			e.Failf("dir-kind", "a failed RemoveChild changed the kind of the directory")
		}
	case "find":
		nd, err := s.d.Find(ctx, name)
		switch {
		case err == nil && !had:
			e.Failf("dir-find", "Find(%q) found an entry that is not there", name)
		case err == nil:
			if got := string(nd.Cid().Bytes()); got != old.cid {
				e.Failf("dir-find", "Find(%q) returned %x, want %x", name, got, old.cid)
			}
		case errors.Is(err, os.ErrNotExist):
			if had {
				e.Failf("dir-find", "Find(%q) says the entry does not exist: %v", name, err)
			}
		default:
			s.err(op, "Find", err)
		}
	case "list":
		got, err := s.listing(op.A%3, ctx)
		if err != nil {
			s.err(op, listName[op.A%3], err)
			break
		}
		if d := sameDir(got, s.m); d != "" {
			e.Failf("dir-list", "%s: %s", listName[op.A%3], d)
		}
	case "thr":
		s.thr = int(op.A)
		uio.HAMTShardingSize = s.thr
	case "cid":
		s.cidb = op.A
		if b := cidBuilder(s.cidb); b != nil {
			s.d.SetCidBuilder(b)
		} else { // not nil: then merkledag's node goes on giving the CID it has cached
			s.d.SetCidBuilder(mdag.V0CidPrefix())
		}
	case "node", "reload":
		puts := e.W.PutErrs
		nd, err := s.d.GetNode()
		if err == nil && e.W.PutErrs > puts {
			e.Failf("dir-put-swallowed", "GetNode succeeded although the store refused a block")
		}
		if err != nil {
			s.err(harness.Op{K: op.K}, "GetNode", err)
			break
		}
		if op.K == "node" {
			if isHAMT(s.d) {
				s.stored(nd)
			}
			break
		}
		if !isHAMT(s.d) { // the caller stores a basic directory
			if err := s.dag.Add(e.Ctx, nd); err != nil {
				s.err(harness.Op{K: op.K}, "Add", err)
				break
			}
		}
		s.stored(nd)
		nd, err = s.dag.Get(ctx, nd.Cid())
		if err != nil {
			s.err(op, "Get", err)
			break
		}
		d, err := s.open(nd)
		if err != nil {
			e.Failf("dir-reload", "NewDirectoryFromNode on a stored directory: %v", err)
		}
		if isHAMT(d) != was {
			e.Failf("dir-reload", "the directory changed its kind by being reloaded")
		}
		s.d, s.base = d, s.m.bytes()
	}
	e.Check()
	e.Logf("%v -> %d entries, sharded %v", op, len(s.m), isHAMT(s.d))
}

// kind checks the choice of representation after a successful change.
func (s *dirRun) kind(what string, was, add bool) {
	now, t, size := isHAMT(s.d), s.thr, s.m.bytes()
	if !was && now {
		s.base = size
		s.width = s.e.P("defw")
	}
	if !s.thresh {
		return
	}
	e := s.e
	switch {
	case t == 0:
		if was != now {
			e.Failf("dir-switch", "%s switched the representation although sharding by size is off", what)
		}
	case !was && add:
		if now != (size >= t) {
			e.Failf("dir-switch", "after %s of %d bytes with a threshold of %d, sharded is %v", what, size, t, now)
		}
	case !was:
		if now {
			e.Failf("dir-switch", "%s made a basic directory sharded", what)
		}
	case !now:
		e.Probe("switched to basic")
		if size >= t {
			e.Failf("dir-switch", "%s made a directory of %d bytes basic, the threshold is %d", what, size, t)
		}
	default:
		if size < t && size < s.base {
			e.Failf("dir-switch", "%s left a directory of %d bytes (it was %d) sharded, the threshold is %d", what, size, s.base, t)
		}
	}
	if !was && now {
		e.Probe("switched to sharded")
	}
}

// stored: what is on disk is the model.
func (s *dirRun) stored(nd ipld.Node) {
	e := s.e
	e.Check()
	got, sharded, err := storedDir(e.W, nd.Cid(), s.canon)
	if err != nil {
		class := "dir-stored"
		if got != nil && s.canon {
			class = "dir-canonical"
		}
		e.Failf(class, "the stored directory: %v", err)
	}
	if d := sameDir(got, s.m); d != "" {
		e.Failf("dir-stored", "the stored directory: %s", d)
	}
	if sharded != isHAMT(s.d) {
		e.Failf("dir-stored", "stored as sharded=%v", sharded)
	}
	b := cidBuilder(s.cidb)
	want := cid.Prefix{Version: 0, Codec: cid.DagProtobuf, MhType: 0x12, MhLength: 32}
	if b != nil {
		c, err := b.Sum([]byte("x"))
		if err != nil {
			e.Failf("setup", "%v", err)
		}
		want = c.Prefix()
	}
	if gb := s.d.GetCidBuilder(); gb != nil {
		c, err := gb.Sum([]byte("x"))
		if err != nil {
			e.Failf("setup", "%v", err)
		}
		if got := c.Prefix(); got != want {
			e.Failf("dir-cid", "the directory's CID builder makes %v, configured was %v", got, want)
		}
	} else if b != nil {
		e.Failf("dir-cid", "the directory has no CID builder, configured was %v", want)
	}
	if got := nd.Cid().Prefix(); got != want {
		e.Failf("dir-cid", "the directory's CID has the form %v, configured was %v", got, want)
	}
	if s.canon && sharded {
		// the same entries put into a new directory in another order
		ref, err := hamt.NewShard(e.W.Quiet(), int(s.width))
		if err != nil {
			e.Failf("setup", "%v", err)
		}
		ref.SetCidBuilder(b)
		for _, k := range harness.SortedKeys(s.m) {
			c, _ := cid.Cast([]byte(s.m[k].cid))
			if err := ref.SetLink(e.Ctx, k, &ipld.Link{Cid: c, Size: s.m[k].size}); err != nil {
				e.Failf("setup", "SetLink: %v", err)
			}
		}
		rn, err := ref.Node()
		if err != nil {
			e.Failf("setup", "Node: %v", err)
		}
		if !rn.Cid().Equals(nd.Cid()) {
			e.Failf("dir-canonical", "the same %d entries give %s here and %s when put into a new directory", len(s.m), nd.Cid(), rn.Cid())
		}
		e.Probe("compared sharded roots")
	}
}

func (s *dirRun) finish() {
	e := s.e
	e.W.Armed = false
	s.faulty = false
	for how := int64(0); how < 3; how++ {
		s.step(harness.Op{K: "list", A: how})
	}
	for _, k := range harness.SortedKeys(s.m) {
		nd, err := s.d.Find(e.Ctx, k)
		if err != nil {
			e.Failf("dir-find", "Find(%q): %v", k, err)
		}
		if string(nd.Cid().Bytes()) != s.m[k].cid {
			e.Failf("dir-find", "Find(%q) returned another node", k)
		}
	}
	for i := int64(0); i < e.P("pool"); i++ {
		if n := dirName(e, i); s.m[n].cid == "" {
			if _, err := s.d.Find(e.Ctx, n); !errors.Is(err, os.ErrNotExist) {
				e.Failf("dir-find", "Find(%q) of an absent entry: %v", n, err)
			}
		}
	}
	s.step(harness.Op{K: "reload"})
	s.step(harness.Op{K: "list", A: 0})
	nd, _ := s.d.GetNode()
	e.Logf("end %s", nd.Cid())
}

func execDir(mode string) func(e *harness.Env) {
	return func(e *harness.Env) {
		if mode == "thresh" && (defShard != 256<<10 || defWidth != 256) {
			e.Failf("defaults", "by default directories are sharded from %d bytes on, shards %d wide", defShard, defWidth)
		}
		s := openDir(e)
		s.canon, s.thresh, s.faulty = mode == "canon", mode == "thresh", mode == "faults" || len(e.C.Faults) > 0
		e.W.Armed = true
		for _, op := range e.C.Ops {
			s.step(op)
		}
		s.finish()
	}
}

var dirShrink = map[string]int64{"loose": 0, "api": 0, "start": 0, "names": 0, "nseed": 0, "cid": 0, "pre": 0, "pool": 1}

const dirRule = "A directory (new, loaded basic, loaded sharded, also with entries below needless shards and empty shards; shard widths 8-1024, the default width another one; thresholds off, 1 to 2000 bytes, changed on the way; four CID formats, another one asked for on the way; plain, colliding and awkward names; or a hamt.Shard used directly) and 2-30 operations " +
	"(AddChild, RemoveChild, Find, three listings, GetNode, store-and-reload) over a store with latency and remote blocks"

var _ = register(&harness.Prop{
	ID: "U08", Title: "A directory is a map from names to nodes, however it is represented",
	Rule: dirRule + ".",
	Gen: func(r *harness.Rand, thorough bool) *harness.Case {
		c := genDir(r, thorough)
		cidSome(r, c)
		thrSome(r, c)
		return c
	},
	Exec: execDir("map"), Leak: true, Shrink: dirShrink, Real: realAll, Stub: stubAll,
})

var _ = register(&harness.Prop{
	ID: "U09", Title: "Directory operations are all-or-nothing under faults, and listings are never silently partial",
	Rule: dirRule + ", some with contexts that end early, and 1-4 faults among the store's operations; then the faults stop.",
	Gen: func(r *harness.Rand, thorough bool) *harness.Case {
		c := genDir(r, thorough)
		if r.P(50) {
			cancelSome(r, c, 25)
		}
		cidSome(r, c)
		thrSome(r, c)
		return c
	},
	Exec: execDir("faults"), Leak: true, Shrink: dirShrink, Real: realAll, Stub: stubAll,
	Place: func(r *harness.Rand, c *harness.Case, counts map[string]int) {
		place(r, c, counts, append(append([]fk{}, readFaults...), writeFaults...), 4)
	},
})

var _ = register(&harness.Prop{
	ID: "U10", Title: "A sharded directory's root depends only on its entries",
	Rule: dirRule + "; at every GetNode the stored tree is checked against the canonical form, independently decoded, and against a directory freshly built from the same entries.",
	Gen: func(r *harness.Rand, thorough bool) *harness.Case {
		c := genDir(r, thorough)
		delete(c.P, "loose")
		if c.P["start"] == 1 && r.P(70) {
			c.P["start"] = 2
		}
		if r.P(50) {
			c.P["thr"] = 1
		}
		for i := range c.Ops {
			if c.Ops[i].K == "list" || c.Ops[i].K == "find" {
				c.Ops[i].K = "node"
			}
		}
		thrSome(r, c)
		return c
	},
	Exec: execDir("canon"), Leak: true, Shrink: dirShrink, Real: realAll, Stub: stubAll,
})

var _ = register(&harness.Prop{
	ID: "U11", Title: "The representation switches at the size threshold, and only there",
	Rule: dirRule + ", some with contexts that end early or 1-3 faults among the store's operations; the choice is checked after every change against the exact size.",
	Gen: func(r *harness.Rand, thorough bool) *harness.Case {
		c := genDir(r, thorough)
		c.P["api"] = 0
		if c.P["thr"] < 120 && r.P(90) {
			c.P["thr"] = r.Pick(80, 120, 200, 300, 500, 900)
		}
		for i := range c.Ops {
			if k := c.Ops[i].K; k == "find" || k == "list" || k == "node" {
				c.Ops[i].K = r.PickS("add", "rm", "rm")
				c.Ops[i].A = r.N64(c.P["pool"])
			}
		}
		if r.P(50) {
			cancelSome(r, c, 20)
		}
		cidSome(r, c)
		thrSome(r, c)
		return c
	},
	Exec: execDir("thresh"), Leak: true, Shrink: dirShrink, Real: realAll, Stub: stubAll,
	Place: func(r *harness.Rand, c *harness.Case, counts map[string]int) {
		if r.P(35) {
			place(r, c, counts, append(append([]fk{}, readFaults...), writeFaults...), 3)
		}
	},
})
