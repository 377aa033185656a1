package pbt

import (
	"fmt"
	"math"
	"testing"

	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/plan"
	"github.com/substrait-io/substrait-go/v8/types"
	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	"pgregory.net/rapid"
)

// walk is the reference model: the type found by following the path, or why there is none.
func (d *TD) walk(path []ESeg) (*TD, string) {
	cur := d
	for _, s := range path {
		switch s.K {
		case "field":
			if cur.Kind != "struct" {
				return nil, "field of " + cur.Kind
			}
			if s.I < 0 || int(s.I) >= len(cur.Kids) {
				return nil, "no such field"
			}
			cur = cur.Kids[s.I]
		case "elem":
			if cur.Kind != "list" {
				return nil, "element of " + cur.Kind
			}
			cur = cur.Kids[0]
		case "key":
			if cur.Kind != "map" {
				return nil, "key of " + cur.Kind
			}
			if !cur.Kids[0].equal(s.Key.T) {
				return nil, "key of another type"
			}
			cur = cur.Kids[1]
		}
	}
	return cur, ""
}

// genPath descends at random, then maybe bends one step; nullOnly tells that a bend changed no more
// than the nullability of a key (not judged).
func genPath(t *rapid.T, d *TD, bend bool) (path []ESeg) {
	cur := d
	for i := 0; ; i++ {
		if i > 0 && pct(t, 35) {
			break
		}
		var s ESeg
		switch cur.Kind {
		case "struct":
			if len(cur.Kids) == 0 {
				return path
			}
			s = ESeg{K: "field", I: int32(rapid.IntRange(0, len(cur.Kids)-1).Draw(t, "f"))}
			cur = cur.Kids[s.I]
		case "list":
			s = ESeg{K: "elem", I: rapid.SampledFrom([]int32{0, 1, 7, math.MaxInt32}).Draw(t, "off")}
			cur = cur.Kids[0]
		case "map":
			if !cur.Kids[0].litable() {
				goto done
			}
			s = ESeg{K: "key", Key: genLV(t, cur.Kids[0].clone())}
			cur = cur.Kids[1]
		default:
			goto done
		}
		path = append(path, s)
	}
done:
	if !bend || len(path) == 0 {
		return path
	}
	i := rapid.IntRange(0, len(path)-1).Draw(t, "bend")
	s := &path[i]
	switch rapid.IntRange(0, 3).Draw(t, "how") {
	case 0: // another index
		s.I = rapid.SampledFrom([]int32{-1, 0, 1, 2, 3, 4, 5, 100, math.MaxInt32, math.MinInt32}).Draw(t, "idx")
	case 1: // another kind of step
		s.K = rapid.SampledFrom([]string{"field", "elem", "key"}).Draw(t, "kind")
		if s.K == "key" && s.Key == nil {
			s.Key = genLV(t, genLitTD(t, typeGenOpts{depth: 1, noFunc: true, noUnspec: true, decimalOK: true, noEmpty: true}))
		}
		if s.I < 0 {
			s.I = 0
		}
	case 2: // one step more
		n := ESeg{K: rapid.SampledFrom([]string{"field", "elem"}).Draw(t, "more"), I: 0}
		path = append(path[:i+1:i+1], append([]ESeg{n}, path[i+1:]...)...)
	case 3: // one step less
		if len(path) > 1 {
			path = append(path[:i:i], path[i+1:]...)
		} else {
			s.I++
		}
	}
	return path
}

func pathString(path []ESeg) string {
	s := ""
	for _, g := range path {
		if g.K == "key" {
			s += fmt.Sprintf("[%s]", g.Key)
		} else {
			s += fmt.Sprintf(".%s(%d)", g.K, g.I)
		}
	}
	return s
}

// judged says whether the outcome of following the path is stated by the property.
func judgedPath(d *TD, path []ESeg) bool {
	for i, s := range path {
		if s.K == "elem" && s.I < 0 {
			return false
		}
		if s.K == "key" {
			at, why := d.walk(path[:i])
			if why == "" && at.Kind == "map" && !at.Kids[0].equal(s.Key.T) && at.Kids[0].withNull(1).equal(s.Key.T.withNull(1)) {
				return false
			}
		}
	}
	return true
}

func genCols(t *rapid.T, min, max int) *ECols {
	x := &ECols{}
	for n := rapid.IntRange(min, max).Draw(t, "ncols"); len(x.T) < n; {
		x.T = append(x.T, genLitTD(t, typeGenOpts{depth: 3, noUnspec: true, decimalOK: true, noEmpty: true}))
	}
	return x
}

func genMask(t *rapid.T, d *TD, bend bool) *EMask {
	m := &EMask{}
	kid := func(k *TD) *EMask {
		if !k.isNested() || k.Kind == "func" || pct(t, 40) {
			if bend && pct(t, 15) { // select in something that has nothing to select
				return genMask(t, &TD{Kind: "struct", Null: 2, Kids: []*TD{boolTD(1)}}, false)
			}
			return nil
		}
		return genMask(t, k, bend)
	}
	switch d.Kind {
	case "list":
		m.K = "list"
		for n := rapid.IntRange(1, 3).Draw(t, "n"); len(m.List) < n; {
			m.List = append(m.List, [2]int32{rapid.Int32Range(0, 5).Draw(t, "s"), rapid.Int32Range(0, 9).Draw(t, "e")})
			if pct(t, 20) { // an empty slice
				m.List[len(m.List)-1][1] = m.List[len(m.List)-1][0]
			}
			m.IsSlice = append(m.IsSlice, rapid.Bool().Draw(t, "slice"))
		}
		m.Kid = kid(d.Kids[0])
	case "map":
		m.K, m.Key, m.KeyKind = "map", rapid.SampledFrom([]string{"a", "", "k.*"}).Draw(t, "key"), rapid.SampledFrom([]string{"key", "expr"}).Draw(t, "kk")
		m.Kid = kid(d.Kids[1])
	default:
		m.K = "struct"
		for n := rapid.IntRange(1, 3).Draw(t, "n"); len(m.Items) < n; {
			f := int32(rapid.IntRange(0, len(d.Kids)-1).Draw(t, "f"))
			k := d.Kids[f]
			if bend && pct(t, 15) {
				f = rapid.SampledFrom([]int32{-1, int32(len(d.Kids)), math.MaxInt32}).Draw(t, "badf")
			}
			m.Items = append(m.Items, EMaskItem{F: f, Kid: kid(k)})
		}
	}
	return m
}

// masked is the reference model of the type a mask leaves.
func (m *EMask) masked(d *TD, maintain bool) (*TD, string) {
	if m == nil {
		return d, ""
	}
	o := d.clone()
	if m.K != d.Kind {
		return nil, "select of a " + m.K + " in " + d.Kind
	}
	switch m.K {
	case "struct":
		o.Kids = nil
		for _, it := range m.Items {
			if it.F < 0 || int(it.F) >= len(d.Kids) {
				return nil, "no such field"
			}
			k, why := it.Kid.masked(d.Kids[it.F], maintain)
			if why != "" {
				return nil, why
			}
			o.Kids = append(o.Kids, k)
		}
		if len(o.Kids) == 1 && !maintain {
			return o.Kids[0], ""
		}
	case "list":
		k, why := m.Kid.masked(d.Kids[0], maintain)
		if why != "" {
			return nil, why
		}
		if len(m.List) == 1 && !m.IsSlice[0] && !maintain {
			return k, ""
		}
		o.Kids[0] = k
	case "map":
		k, why := m.Kid.masked(d.Kids[1], maintain)
		if why != "" {
			return nil, why
		}
		o.Kids[1] = k
	}
	return o, ""
}

func TestE04(t *testing.T) {
	p := start(t, "E04", "schemas of nested columns and paths of fields, list offsets and map keys through them, half of the paths bent (another index, kind of step or "+
		"key, a step more or less), rooted in the schema, an expression, an outer query's schema or lambda parameters, read as a message and built by every route; masks; "+
		"references over a join's columns; non-trivial = a path of at least 2 steps or a bent one")
	defer p.finish()

	// check compares the outcome of one route with the model's.
	check := func(c *C, route string, got *expr.FieldReference, err error, want *TD, why string, path []ESeg) {
		if want == nil {
			c.Check(err != nil, "accepted:"+route, "%s: a path that leaves the schema (%s) gives %v", route, why, got)
			return
		}
		c.Check(err == nil, "refused:"+route, "%s: a path to %s is refused: %v", route, want, err)
		c.Check(got != nil && got.GetType() != nil && tdOf(got.GetType()).equal(want), "type:"+route, "%s: type %v, want %s", route, got.GetType(), want)
		c.Check(protoEq(got.ToProtoFieldRef().GetDirectReference(), segProto(path)), "path:"+route, "%s: path %v", route, got)
	}

	p.sub("root", 5000, func(c *C) {
		cols := genCols(c.T, 1, 4)
		bend := rapid.Bool().Draw(c.T, "bent")
		path := genPath(c.T, cols.td(), bend)
		want, why := cols.td().walk(path)
		c.Case(len(path) > 1 || why != "", "%s in %v", pathString(path), cols.T)
		c.Label(why)
		if !judgedPath(cols.td(), path) || len(path) == 0 {
			c.Label("not judged")
			return
		}
		e := &EX{K: "ref", Root: "root", Path: path}
		rec := cols.record()
		got, err := expr.NewRootFieldRef(segRef(path), rec)
		check(c, "NewRootFieldRef", got, err, want, why, path)
		first := got
		got, err = expr.NewFieldRef(expr.RootReference, segRef(path), rec)
		check(c, "NewFieldRef", got, err, want, why, path)
		eb := &expr.ExprBuilder{Reg: expr.NewEmptyExtensionRegistry(eCol()), BaseSchema: rec}
		got, err = eb.RootRef(segRef(path)).Build()
		check(c, "builder.RootRef", got, err, want, why, path)
		got, err = eb.Ref(expr.RootReference, segRef(path)).Build()
		check(c, "builder.Ref", got, err, want, why, path)
		m := e.refProto(nil)
		got, err = expr.FieldReferenceFromProto(wire(m), rec, eb.Reg)
		check(c, "parse", got, err, want, why, path)
		ex, err := expr.ExprFromProto(wire(&pb.Expression{RexType: &pb.Expression_Selection{Selection: m}}), rec, eb.Reg)
		ref, _ := ex.(*expr.FieldReference)
		check(c, "parse expression", ref, err, want, why, path)
		seg, err := segRef(path).GetType(cols.td().build())
		c.Check((err == nil) == (want != nil) && (want == nil || tdOf(seg).equal(want)), "GetType", "segment type %v %v, want %v", seg, err, want)
		if rs := expr.RefSegmentFromProto(wire(segProto(path))); want != nil {
			c.Check(rs != nil && rs.Equals(segRef(path)) && protoEq(rs.ToProto(), segProto(path)), "segment_trip", "%v", rs)
			given, err := expr.NewRootFieldRefFromType(segRef(path), want.build())
			check(c, "FromType", given, err, want, why, path)
			c.Check(given.Equals(first) && first.Equals(got), "equal_routes", "%v %v %v are not equal", given, first, got)
			n := 0
			for s := segRef(path); s != nil; s = s.GetChild() {
				n++
			}
			c.Check(n == len(path), "steps", "%d steps of %d", n, len(path))
		}
		// a change of the schema afterwards doesn't reach the reference
		if want != nil {
			s := first.String()
			_ = rec.String()
			c.Check(first.String() == s, "string_stable", "%s", s)
		}
	})

	p.sub("expression", 2500, func(c *C) {
		d := genLitTD(c.T, typeGenOpts{depth: 3, noUnspec: true, decimalOK: true, noEmpty: true})
		d, _ = wrapPath(c.T, d, 2)
		path := genPath(c.T, d, rapid.Bool().Draw(c.T, "bent"))
		if len(path) == 0 || !judgedPath(d, path) {
			return
		}
		want, why := d.walk(path)
		cols := &ECols{T: []*TD{boolTD(1), d}}
		c.Case(len(path) > 1 || why != "", "%s of %s", pathString(path), d)
		c.Label(why)
		w := genWorld(c.T)
		reg, rec := w.reg(c), cols.record()
		root := &EX{K: "ref", Root: "root", T: d, Path: []ESeg{{K: "field", I: 1}}}
		if d.litable() && pct(c.T, 40) {
			root = &EX{K: "lit", T: d, LV: genLV(c.T, d.clone())}
		} else if pct(c.T, 30) {
			root = &EX{K: "param", T: d}
		}
		re, err := newEB(c, w, reg, cols, false).build(root)
		c.Check(err == nil, "root", "%v", err)
		re0 := re.ToProto()
		rt := re.(expr.RootRefType)
		got, err := expr.NewFieldRef(rt, segRef(path), rec)
		check(c, "NewFieldRef", got, err, want, why, path)
		got, err = expr.NewFieldRef(rt, segRef(path), nil)
		check(c, "NewFieldRef without schema", got, err, want, why, path)
		got, err = (&expr.ExprBuilder{Reg: reg, BaseSchema: rec}).Ref(rt, segRef(path)).Build()
		check(c, "builder.Ref", got, err, want, why, path)
		e := &EX{K: "ref", Root: "expr", RootEx: root, Path: path}
		back, err := expr.FieldReferenceFromProto(wire(e.refProto(w)), rec, reg)
		check(c, "parse", back, err, want, why, path)
		if want != nil {
			c.Check(back.Equals(got) && protoEq(back.ToProtoFieldRef(), e.refProto(w)), "same", "%v and %v", back, got)
		}
		c.Check(protoEq(re.ToProto(), re0), "root_changed", "%v", re)
	})

	p.sub("lambda", 2500, func(c *C) {
		nest := rapid.IntRange(1, 5).Draw(c.T, "nest")
		var ps []*ECols
		for i := 0; i < nest; i++ {
			ps = append(ps, genCols(c.T, 1, 3))
		}
		steps := rapid.IntRange(0, nest-1).Draw(c.T, "steps")
		target := ps[nest-1-steps].td()
		path := genPath(c.T, target, rapid.Bool().Draw(c.T, "bent"))
		if len(path) == 0 || path[0].K != "field" || !judgedPath(target, path) {
			return
		}
		want, why := target.walk(path)
		if pct(c.T, 10) {
			steps = rapid.SampledFrom([]int{nest, nest + 1, math.MaxInt32, math.MaxUint32}).Draw(c.T, "far")
			want, why = nil, "no such lambda"
		}
		c.Case(len(path) > 1 || why != "", "%s of lambda parameters %d out in %d", pathString(path), steps, nest)
		c.Label(why)
		rec := (&ECols{T: []*TD{boolTD(1)}}).record()
		eb := &expr.ExprBuilder{Reg: expr.NewEmptyExtensionRegistry(eCol()), BaseSchema: rec}
		seg := segRef(path).(*expr.StructFieldRef)
		build := func() (expr.Expression, error) {
			var b expr.Builder = eb.LambdaParamRef(*seg, uint32(steps))
			for i := nest - 1; i >= 0; i-- {
				st := ps[i].td().build().(*types.StructType)
				b = eb.Lambda(st, b)
			}
			return b.BuildExpr()
		}
		inner := func(ex expr.Expression) *expr.FieldReference {
			for {
				l, ok := ex.(*expr.Lambda)
				if !ok || l == nil {
					r, _ := ex.(*expr.FieldReference)
					return r
				}
				ex = l.Body
			}
		}
		got, err := build()
		check(c, "builder", inner(got), err, want, why, path)
		_, err = eb.LambdaParamRef(*seg, 0).BuildExpr()
		c.Check(err != nil, "outside", "a lambda parameter outside any lambda is accepted")
		m := &pb.Expression{RexType: &pb.Expression_Selection{Selection: (&EX{Root: "lambda", Steps: uint32(steps), Path: path}).refProto(nil)}}
		for i := nest - 1; i >= 0; i-- {
			m = &pb.Expression{RexType: &pb.Expression_Lambda_{Lambda: &pb.Expression_Lambda{Parameters: ps[i].td().proto().GetStruct(), Body: m}}}
		}
		back, err := expr.ExprFromProto(wire(m), rec, eb.Reg)
		check(c, "parse", inner(back), err, want, why, path)
		if want != nil {
			c.Check(back.Equals(got) && got.Equals(back) && protoEq(got.ToProto(), m) && protoEq(back.ToProto(), m), "same", "%v and %v", back, got)
			again, err := build()
			c.Check(err == nil && again.Equals(got), "again", "building again gives %v %v", again, err)
		}
	})

	p.sub("outer", 2000, func(c *C) {
		w := genWorld(c.T)
		nest := rapid.IntRange(1, 4).Draw(c.T, "nest")
		levels := []*ECols{}
		for i := 0; i <= nest; i++ {
			levels = append(levels, genCols(c.T, 1, 3))
		}
		steps := rapid.IntRange(1, nest).Draw(c.T, "steps")
		target := levels[nest-steps].td()
		path := genPath(c.T, target, rapid.Bool().Draw(c.T, "bent"))
		if len(path) == 0 || !judgedPath(target, path) {
			return
		}
		want, why := target.walk(path)
		if pct(c.T, 10) {
			steps = nest + 1 + rapid.IntRange(0, 3).Draw(c.T, "far")
			want, why = nil, "no such query"
		}
		c.Case(len(path) > 1 || why != "", "%s of the schema %d out in %d", pathString(path), steps, nest)
		c.Label(why)
		e := &EX{K: "ref", Root: "outer", Steps: uint32(steps), Path: path, T: boolTD(2)}
		for i := nest; i >= 1; i-- {
			f := &EX{K: "scalar", Fn: "same", T: boolTD(1), Kids: []*EX{e, e}, Args: []EArg{{What: "v", Kid: 0}, {What: "v", Kid: 1}}}
			e = &EX{K: "set", T: boolTD(2), Op: 1, Rel: &ERelM{Names: []string{"t"}, Cols: levels[i], Filter: f}}
		}
		got, err := expr.ExprFromProto(wire(e.proto(w)), levels[0].record(), w.reg(c))
		var ref *expr.FieldReference
		if err == nil {
			ex := got
			for i := 0; i < nest; i++ {
				q, ok := ex.(*plan.SetPredicateSubquery)
				c.Check(ok, "subquery", "%T", ex)
				fr, ok := q.Tuples.(*plan.FilterRel)
				c.Check(ok, "filter", "%T", q.Tuples)
				ex = fr.Condition().(*expr.ScalarFunction).Arg(0).(expr.Expression)
			}
			ref = ex.(*expr.FieldReference)
		}
		check(c, "parse", ref, err, want, why, path)
	})

	p.sub("masks", 2500, func(c *C) {
		cols := genCols(c.T, 1, 4)
		m := genMask(c.T, cols.td(), rapid.Bool().Draw(c.T, "bent"))
		m.Maintain = rapid.Bool().Draw(c.T, "maintain")
		want, why := m.masked(cols.td(), m.Maintain)
		c.Case(len(m.Items) > 1 || why != "", "%v over %v", m, cols.T)
		c.Label(why)
		e := &EX{K: "ref", Root: "root", Mask: m}
		reg := expr.NewEmptyExtensionRegistry(eCol())
		msg := e.refProto(nil)
		got, err := expr.FieldReferenceFromProto(wire(msg), cols.record(), reg)
		if want == nil {
			c.Check(err != nil, "accepted", "a mask that leaves the schema (%s) gives %v", why, got)
		} else {
			c.Check(err == nil, "refused", "%v", err)
			c.Check(tdOf(got.GetType()).equal(want), "type", "type %v, want %s", got.GetType(), want)
			c.Check(protoEq(got.ToProtoFieldRef(), msg), "message", "writes %v, want %v", got.ToProtoFieldRef(), msg)
			other, err := expr.FieldReferenceFromProto(wire(msg), cols.record(), reg)
			c.Check(err == nil && other.Equals(got) && got.Equals(other), "equal", "%v", other)
			c.NoPanic("String", func() { _ = got.String() })
		}
		free, err := expr.FieldReferenceFromProto(wire(msg), nil, reg)
		c.Check(err == nil && protoEq(free.ToProtoFieldRef(), msg), "without_schema", "%v %v", free, err)
	})

	p.sub("columns", 2500, func(c *C) {
		l, r := genCols(c.T, 0, 3), genCols(c.T, 0, 3)
		i := int32(rapid.IntRange(-2, 8).Draw(c.T, "i"))
		if pct(c.T, 5) {
			i = rapid.SampledFrom([]int32{math.MaxInt32, math.MinInt32}).Draw(c.T, "big")
		}
		c.Case(true, "column %d of %v and %v", i, l.T, r.T)
		b := plan.NewBuilder(eCol())
		lr, rr := b.NamedScan([]string{"l"}, l.named()), b.NamedScan([]string{"r"}, r.named())
		lt := lr.RecordType()
		before := lt.String()
		both := &ECols{T: append(append([]*TD{}, l.T...), r.T...)}
		path := []ESeg{{K: "field", I: i}}
		want, why := both.td().walk(path)
		got, err := b.JoinedRecordFieldRef(lr, rr, i)
		check(c, "JoinedRecordFieldRef", got, err, want, why, path)
		want, why = l.td().walk(path)
		got, err = b.RootFieldRef(lr, i)
		check(c, "RootFieldRef", got, err, want, why, path)
		sf, err := b.SortFields(lr, i)
		if want == nil {
			c.Check(err != nil, "sort_accepted", "SortFields %d is accepted", i)
		} else {
			c.Check(err == nil && len(sf) == 1, "sort_refused", "%v", err)
			check(c, "SortFields", sf[0].Expr.(*expr.FieldReference), nil, want, why, path)
			c.Check(sf[0].Kind == types.SortAscNullsLast, "sort_kind", "%v", sf[0].Kind)
		}
		lt = lr.RecordType()
		c.Check(lt.String() == before, "schema_changed", "%s", before)
	})
}
