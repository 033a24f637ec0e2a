package props

import (
	"context"
	"errors"
	"strings"

	blockstore "github.com/ipfs/go-ipfs-blockstore"
	ipld "github.com/ipfs/go-ipld-format"

	"verifsim/harness"
	"verifsim/world"
)

// blame judges the error of an operation that failed: it must be, or wrap, the
// error of something that went wrong. ended: a context the operation depends
// on has, or may have, ended.
func blame(e *harness.Env, what string, err error, ended bool, more ...error) {
	if e.P("blame") == 0 || err == nil {
		return
	}
	e.Check()
	fired := map[string]bool{}
	for k, n := range e.W.Fired {
		if i := strings.IndexByte(k, ':'); i >= 0 && n > 0 {
			fired[k[i+1:]] = true
		} else {
			return // a damaged block: any error describes it
		}
	}
	for _, m := range more {
		if m != nil && errors.Is(err, m) {
			return
		}
	}
	ended = ended || fired["ctxerr"] || fired["cancel"] || fired["cancelerr"] || fired["stall"]
	switch {
	case errors.Is(err, world.ErrInjected):
		e.Probe("blames the store")
	case ended && (errors.Is(err, context.Canceled) || errors.Is(err, context.DeadlineExceeded)):
		e.Probe("blames a context")
	case fired["notfound"] && (errors.Is(err, blockstore.ErrNotFound) || errors.Is(err, ipld.ErrNotFound)):
		e.Probe("blames a missing block")
	default:
		e.Failf("nameless-failure", "%s fails with %q (%T), but what went wrong is %s, context ended: %v", what, err, err, harness.JSON(e.W.Fired), ended)
	}
}

var blamed = []string{"U02", "U05", "U07", "U09", "U12", "U14", "U15", "U19", "U20", "U27"}

var _ = register(&harness.Prop{
	ID: "U26", Title: "A failed operation says what went wrong",
	Rule: "The workloads of U02, U05, U07, U09, U12, U14, U15, U19, U20 and U27 with their faults; here only the errors are judged: each must be, or wrap, the error the store, the input, the writer or the context gave.",
	Gen: func(r *harness.Rand, thorough bool) *harness.Case {
		k := r.N(len(blamed))
		c := Get(blamed[k]).Gen(r, thorough)
		c.P["which"], c.P["blame"] = int64(k), 1
		c.World.Mode = 1 // merkledag would put errors of its own in their place
		return c
	},
	Exec:   func(e *harness.Env) { Get(blamed[e.P("which")]).Exec(e) },
	Leak:   true,
	Shrink: map[string]int64{"len": 0, "n": 0, "names": 0, "nseed": 0, "cid": 0, "kind": 0, "raw": 0, "pre": 0, "extra": 0, "touch": 0},
	Real:   realAll, Stub: stubAll,
	Place: func(r *harness.Rand, c *harness.Case, counts map[string]int) {
		Get(blamed[c.P["which"]]).Place(r, c, counts)
	},
})
