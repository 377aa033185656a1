package pbt

import (
	"fmt"
	"slices"
	"sort"
	"testing"

	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/plan"
	"github.com/substrait-io/substrait-go/v8/types"
	"pgregory.net/rapid"
)

// p6b is an aggregate builder and what it was told.
type p6b struct {
	ab *plan.AggregateRelBuilder
	m  *RM // exprs in the order of their numbers
}

func (r *RM) copyAgg() *RM {
	o := *r
	o.In = slices.Clone(r.In)
	o.Exprs = slices.Clone(r.Exprs)
	o.Measures = slices.Clone(r.Measures)
	o.Groups = nil
	for _, g := range r.Groups {
		o.Groups = append(o.Groups, slices.Clone(g))
	}
	return &o
}

// setKey is a grouping set regardless of the order within.
func setKey(g []uint32) string {
	g = slices.Clone(g)
	slices.Sort(g)
	return fmt.Sprint(g)
}

func setKeys(gs [][]uint32) (out []string) {
	for _, g := range gs {
		out = append(out, setKey(g))
	}
	sort.Strings(out)
	return out
}

func TestP06(t *testing.T) {
	p := start(t, "P06", "histories of up to 14 operations on aggregate builders (adding keys, sets, rollups and cubes, replacing and clearing parts, building, going back from relations to builders, "+
		"changing the slices passed in) with several builders and relations alive at once, compared with a model of grouping sets; AggregateColumns and AggregateExprs; parsed aggregations; "+
		"non-trivial = more than one grouping set, or a relation made from another")
	defer p.finish()

	type built struct {
		rel *plan.AggregateRel
		m   *RM
		msg string
	}

	p.sub("large_cube", 1, func(c *C) {
		c.Case(true, "a cube of 20 keys")
		b := plan.NewBuilderDefault()
		in := b.NamedScan([]string{"t"}, types.NamedStruct{Names: []string{"a"}, Struct: types.StructType{Nullability: types.NullabilityRequired, Types: []types.Type{&types.Int32Type{Nullability: types.NullabilityRequired}}}})
		ab := b.GetRelBuilder().AggregateRel(in, nil)
		var keys []uint32
		for i := range 20 {
			keys = append(keys, ab.AddExpression(expr.NewPrimitiveLiteral(int32(i), false)))
		}
		c.Check(ab.AddCube(keys) == nil, "cube_refused", "a cube of %d keys is refused", len(keys))
		rel, err := ab.Build()
		c.Check(err == nil, "build", "%v", err)
		c.Check(len(rel.GroupingReferences()) == 1<<20-1, "large_cube", "%d sets", len(rel.GroupingReferences()))
		seen := make([]bool, 1<<20)
		for _, g := range rel.GroupingReferences() {
			m := 0
			for _, k := range g {
				m |= 1 << k
			}
			c.Check(!seen[m] && m != 0, "large_cube", "set %v is empty or there twice", g)
			seen[m] = true
		}
	})

	p.sub("histories", 5000, func(c *C) {
		t := c.T
		rb := newRB(c)
		w := rb.W
		x := RCtx{edepth: 1, noSub: true}
		in := genRM(t, RCtx{edepth: 1}, rapid.IntRange(0, 1).Draw(t, "depth"))
		cols := in.cols()
		inRel, err := rb.build(in)
		c.Check(err == nil, "input", "%v", err)
		var bs []*p6b
		var rels []*built
		sets, again := 0, 0
		var log []string
		note := func(f string, a ...any) { log = append(log, fmt.Sprintf(f, a...)) }

		newBuilder := func() {
			m := &RM{K: "agg", In: []*RM{in}}
			var ms []plan.AggRelMeasure
			for i := rapid.IntRange(0, 3).Draw(t, "nmeasures"); i > 0; i-- {
				k := RMeas{Agg: x.agg(t, cols)}
				f, err := rb.eb(cols).agg(k.Agg)
				c.Check(err == nil, "measure", "%v", err)
				var filter expr.Expression
				if pct(t, 35) {
					k.Filter = x.cond(t, cols)
					filter, err = rb.expr(cols, k.Filter)
					c.Check(err == nil, "filter", "%v", err)
				}
				m.Measures = append(m.Measures, k)
				ms = append(ms, rb.B.Measure(f, filter))
			}
			bs = append(bs, &p6b{rb.B.GetRelBuilder().AggregateRel(inRel, ms), m})
			note("new builder with %d measures", len(ms))
		}
		build := func(b *p6b) {
			var rel *plan.AggregateRel
			var err error
			c.NoPanic("build_panic", func() { rel, err = b.ab.Build() })
			ok := len(b.m.Measures) > 0 || len(b.m.Groups) > 0 && len(b.m.Exprs) > 0
			for _, g := range b.m.Groups {
				for _, i := range g {
					ok = ok && int(i) < len(b.m.Exprs)
				}
			}
			if ok {
				b.m.Direct = b.m.direct()
				for _, i := range b.m.Map {
					ok = ok && int(i) < len(b.m.Direct)
				}
			}
			note("build %v", ok)
			if !ok {
				c.Check(err != nil, "built_invalid", "an aggregation of %s is built", b.m)
				return
			}
			c.Check(err == nil, "refused", "%s is refused: %v", b.m, err)
			m := b.m.copyAgg()
			m.Direct = m.direct()
			rels = append(rels, &built{rel, m, msgKey(m.proto(w, true))})
		}
		refs := func(m *RM) (out []uint32, fits bool) {
			n := uint32(len(m.Exprs))
			if n == 0 || pct(t, 3) {
				return []uint32{n}, false
			}
			perm := make([]uint32, n)
			for i := range perm {
				perm[i] = uint32(i)
			}
			perm = rapid.Permutation(perm).Draw(t, "refs")
			return perm[:rapid.IntRange(0, len(perm)).Draw(t, "nrefs")], true
		}

		newBuilder()
		for n := rapid.IntRange(1, 14).Draw(t, "nops"); n > 0; n-- {
			b := bs[pick(t, len(bs))]
			switch op := pick(t, 100); {
			case op < 30: // a key
				e := x.ex(t, cols, ECtx{cols: frozen(cols)}.etd(t))
				if len(b.m.Exprs) > 0 && pct(t, 40) {
					e = b.m.Exprs[pick(t, len(b.m.Exprs))]
				}
				g, err := rb.expr(cols, e)
				c.Check(err == nil, "key", "%v", err)
				at := b.ab.AddExpression(g)
				want := -1
				for i, k := range b.m.Exprs {
					if k.key(w) == e.key(w) {
						want = i
						break
					}
				}
				if want < 0 {
					want = len(b.m.Exprs)
					b.m.Exprs = append(b.m.Exprs, e)
				} else {
					c.Label("shared key")
				}
				note("key %s: %d", e, want)
				c.Check(int(at) == want, "key_number", "key %s is number %d of %v, want %d", e, at, b.m.Exprs, want)
			case op < 42: // a set
				g, _ := refs(b.m)
				b.m.Groups = append(b.m.Groups, slices.Clone(g))
				note("set %v", g)
				b.ab.AddGroupingSet(g)
				clobber(t, g)
			case op < 54:
				g, _ := refs(b.m)
				if len(g) > 0 && pct(t, 15) { // a key that is named twice
					g = slices.Insert(slices.Clone(g), pick(t, len(g)+1), g[pick(t, len(g))])
				}
				note("rollup %v", g)
				for i := len(g); i > 0; i-- {
					b.m.Groups = append(b.m.Groups, slices.Clone(g[:i]))
				}
				b.ab.AddRollup(g)
				clobber(t, g)
			case op < 64:
				g, _ := refs(b.m)
				note("cube %v", g)
				for i := 1; i < 1<<len(g); i++ {
					var s []uint32
					for j := range g {
						if i>>j&1 == 1 {
							s = append(s, g[j])
						}
					}
					b.m.Groups = append(b.m.Groups, s)
				}
				c.Check(b.ab.AddCube(g) == nil, "cube_refused", "a cube of %d keys is refused", len(g))
				clobber(t, g)
			case op < 68:
				note("clear grouping")
				b.ab.ClearGrouping()
				b.m.Exprs, b.m.Groups = nil, nil
			case op < 71:
				note("clear measures")
				b.ab.ClearMeasures()
				b.m.Measures = nil
			case op < 75:
				k := genSameLeaf(t, RCtx{edepth: 1}, cols)
				rel, err := rb.build(k)
				c.Check(err == nil, "input", "%v", err)
				note("input %s", k)
				b.ab.ReplaceInput(&rel)
				b.m.In = []*RM{k}
			case op < 78:
				newBuilder()
			case op < 90 || len(rels) == 0:
				build(b)
			default:
				r := rels[pick(t, len(rels))]
				m, rel := r.m.copyAgg(), r.rel
				if len(m.Direct) > 0 && pct(t, 30) {
					mp := genMapping(t, len(m.cols()))
					if !identity(mp, len(m.cols())) {
						mapped, err := rel.Remap(slices.Clone(mp)...)
						c.Check(err == nil, "remap", "%v", err)
						rel = mapped.(*plan.AggregateRel)
						k := m.remapped(mp)
						k.In, k.Exprs, k.Groups, k.Measures = m.In, m.Exprs, m.Groups, m.Measures
						m = k
					}
				}
				bs = append(bs, &p6b{rel.ToBuilder(), m})
				again++
				note("builder of a relation")
				if pct(t, 60) {
					build(bs[len(bs)-1])
				}
			}
		}
		for _, b := range bs {
			build(b)
			sets = max(sets, len(b.m.Groups))
		}
		c.Case(sets > 1 || again > 0, "%v of %s", log, in)
		c.Label(fmt.Sprintf("builders:%d", len(bs)))
		for _, r := range rels {
			got := r.rel.GroupingReferences()
			same := len(got) == len(r.m.Groups)
			c.Check(same && sameStrings(setKeys(got), setKeys(r.m.Groups)), "sets", "grouping sets %v, want %v after %v", got, r.m.Groups, log)
			// the order of a cube's sets, and of the keys within them, is the builder's own choice
			if !sameRefs(got, r.m.Groups) {
				r.m.Groups = got
				r.m.Direct = r.m.direct()
				r.msg = msgKey(r.m.proto(w, true))
			}
			r.m.checkParts(c, r.rel, w, ":agg")
			c.Check(msgKey(r.rel.ToProto()) == r.msg, "message", "written / wanted differ at %s", msgDiff(r.rel.ToProto().ProtoReflect(), r.m.proto(w, true).ProtoReflect(), ""))
			dup := false
			for _, g := range got {
				k := slices.Clone(g)
				slices.Sort(k)
				dup = dup || len(slices.Compact(k)) < len(g)
			}
			if !dup {
				e := schemaErr(r.rel.RecordType(), r.m.cols())
				c.Check(e == "", "schema", "%s", e)
			}
			b := r.rel.ToBuilder()
			back, err := b.Build()
			c.Check(err == nil, "rebuild", "a relation turned into a builder is refused: %v", err)
			c.Check(msgKey(back.ToProto()) == r.msg, "rebuilt", "written / wanted differ at %s", msgDiff(back.ToProto().ProtoReflect(), r.m.proto(w, true).ProtoReflect(), ""))
			e := schemaErr(back.RecordType(), r.m.cols())
			c.Check(dup || e == "", "rebuilt_schema", "%s", e)
		}
	})

	p.sub("short_ways", 2500, func(c *C) {
		t := c.T
		rb := newRB(c)
		x := RCtx{edepth: 1, noSub: true}
		in := genRM(t, RCtx{edepth: 1}, rapid.IntRange(0, 1).Draw(t, "depth"))
		cols := in.cols()
		inRel, err := rb.build(in)
		c.Check(err == nil, "input", "%v", err)
		m := &RM{K: "agg", In: []*RM{in}}
		var ms []plan.AggRelMeasure
		for i := rapid.IntRange(0, 3).Draw(t, "nmeasures"); i > 0; i-- {
			k := RMeas{Agg: x.agg(t, cols)}
			f, err := rb.eb(cols).agg(k.Agg)
			c.Check(err == nil, "measure", "%v", err)
			var filter expr.Expression
			if pct(t, 35) {
				k.Filter = x.cond(t, cols)
				filter, _ = rb.expr(cols, k.Filter)
			}
			m.Measures = append(m.Measures, k)
			ms = append(ms, rb.B.Measure(f, filter))
		}
		key := func(e *EX) uint32 {
			for i, k := range m.Exprs {
				if k.key(rb.W) == e.key(rb.W) {
					c.Label("shared key")
					return uint32(i)
				}
			}
			m.Exprs = append(m.Exprs, e)
			return uint32(len(m.Exprs) - 1)
		}
		var rel *plan.AggregateRel
		if byCols := rapid.Bool().Draw(t, "columns") && len(cols) > 0; byCols {
			var at []int32
			var g []uint32
			for i := rapid.IntRange(0, 4).Draw(t, "nkeys"); i > 0; i-- {
				j := pick(t, len(cols))
				at = append(at, int32(j))
				g = append(g, key(&EX{K: "ref", Root: "root", T: cols[j].clone(), Path: []ESeg{{K: "field", I: int32(j)}}}))
			}
			if len(g) > 0 {
				m.Groups = [][]uint32{g}
			}
			c.Case(len(g) > 0, "columns %v, %d measures", at, len(ms))
			if len(g) == 0 && len(ms) == 0 {
				return
			}
			rel, err = rb.B.AggregateColumns(inRel, ms, at...)
		} else {
			var sets [][]expr.Expression
			for i := rapid.IntRange(0, 3).Draw(t, "nsets"); i > 0; i-- {
				var set []expr.Expression
				g := []uint32{}
				for j := rapid.IntRange(0, 3).Draw(t, "nkeys"); j > 0; j-- {
					e := x.ex(t, cols, ECtx{cols: frozen(cols)}.etd(t))
					if len(m.Exprs) > 0 && pct(t, 50) {
						e = m.Exprs[pick(t, len(m.Exprs))]
					}
					k, err := rb.expr(cols, e)
					c.Check(err == nil, "key", "%v", err)
					set = append(set, k)
					g = append(g, key(e))
				}
				sets = append(sets, set)
				m.Groups = append(m.Groups, g)
			}
			c.Case(len(sets) > 1, "sets %v, %d measures", m.Groups, len(ms))
			if len(m.Exprs) == 0 && len(ms) == 0 {
				return
			}
			rel, err = rb.B.AggregateExprs(inRel, ms, sets...)
		}
		c.Check(err == nil, "short_refused", "a valid aggregation is refused: %v", err)
		c.Check(sameRefs(rel.GroupingReferences(), m.Groups), "short_sets", "grouping sets %v, want %v", rel.GroupingReferences(), m.Groups)
		m.Direct = m.direct()
		m.checkParts(c, rel, rb.W, ":short")
		c.Check(protoEq(rel.ToProto(), m.proto(rb.W, true)), "short_message", "written / wanted differ at %s", msgDiff(rel.ToProto().ProtoReflect(), m.proto(rb.W, true).ProtoReflect(), ""))
	})

	p.sub("parsed", 2000, func(c *C) {
		t := c.T
		w := genWorld(t)
		r := genKind(t, RCtx{msg: true, edepth: 1}, "agg", 2)
		c.Case(len(r.Groups) > 1 || len(r.Measures) > 1, "%s", r)
		reg := w.decReg(c)
		rel, err := plan.RelFromProto(r.proto(w, false), reg)
		c.Check(err == nil, "parse", "%v", err)
		want := r.proto(w, true)
		b := rel.(*plan.AggregateRel).ToBuilder()
		got, err := b.Build()
		c.Check(err == nil, "parsed_refused", "a relation turned into a builder is refused: %v", err)
		c.Check(protoEq(got.ToProto(), want), "parsed_rebuilt", "written / wanted differ at %s", msgDiff(got.ToProto().ProtoReflect(), want.ProtoReflect(), ""))
		// more on the builder does not reach the relations
		switch rapid.IntRange(0, 3).Draw(t, "then") {
		case 0:
			b.ClearGrouping()
			b.AddExpression(expr.NewPrimitiveLiteral(true, false))
		case 1:
			b.AddGroupingSet([]uint32{0})
		case 2:
			b.AddRollup([]uint32{0})
			b.ClearMeasures()
		case 3:
			_ = b.AddCube([]uint32{0})
			b.AddExpression(expr.NewPrimitiveLiteral(int32(77), false))
		}
		_, _ = b.Build()
		c.Check(protoEq(got.ToProto(), want), "reached_built", "the built relation changed: %s", msgDiff(got.ToProto().ProtoReflect(), want.ProtoReflect(), ""))
		c.Check(protoEq(rel.ToProto(), want), "reached_parsed", "the parsed relation changed: %s", msgDiff(rel.ToProto().ProtoReflect(), want.ProtoReflect(), ""))
	})
}

// clobber changes a slice after it was passed on.
func clobber(t *rapid.T, g []uint32) {
	if pct(t, 40) {
		for i := range g {
			g[i] = 77
		}
	}
}
