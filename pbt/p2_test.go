package pbt

import (
	"testing"

	"github.com/substrait-io/substrait-go/v8/plan"
	"pgregory.net/rapid"
)

func TestP02(t *testing.T) {
	p := start(t, "P02", "relation trees of every supported kind to depth 3 with mappings, read from messages or built; every relation of the tree is compared with the schema of the "+
		"reference model; non-trivial = at least 2 relations")
	defer p.finish()

	p.sub("schemas", 5000, func(c *C) {
		w := genWorld(c.T)
		r := genRM(c.T, RCtx{msg: true, edepth: 1, write: true}, rapid.IntRange(0, 3).Draw(c.T, "depth"))
		c.Case(r.size() > 1, "%s", r)
		r.label(c)
		got, err := plan.RelFromProto(wire(r.proto(w, false)), w.decReg(c))
		c.Check(err == nil, "refused:"+r.top(), "a well-formed relation is refused: %v", err)
		r.checkSchemas(c, got, "")
	})

	p.sub("built_schemas", 4000, func(c *C) {
		r := genRM(c.T, RCtx{edepth: 1, write: true}, rapid.IntRange(0, 3).Draw(c.T, "depth"))
		c.Case(r.size() > 1, "%s", r)
		r.label(c)
		rel, err := newRB(c).build(r)
		c.Check(err == nil, "build:"+r.top(), "a well-formed relation is refused: %v", err)
		r.checkSchemas(c, rel, ":built")
	})
}
