package pbt

import (
	"fmt"
	"slices"
	"sort"
	"testing"

	"github.com/substrait-io/substrait-go/v8/expr"
	ext "github.com/substrait-io/substrait-go/v8/extensions"
	"github.com/substrait-io/substrait-go/v8/plan"
	"github.com/substrait-io/substrait-go/v8/types"
	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	pbext "github.com/substrait-io/substrait-protobuf/go/substraitpb/extensions"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/wrapperspb"
	"pgregory.net/rapid"
)

// genWantTD draws the type of a whole expression, mostly one that many kinds of expression have.
func genWantTD(t *rapid.T) *TD {
	if pct(t, 55) {
		return &TD{Kind: rapid.SampledFrom([]string{"boolean", "boolean", "boolean", "i32", "i64", "string"}).Draw(t, "wkind"), Null: 1 + rapid.IntRange(0, 1).Draw(t, "null")}
	}
	d := genETD(t)
	if pct(t, 20) {
		// often a function that can return a part of its parameter
		from, _ := wrapPath(t, d, 2)
		d = &TD{Kind: "func", Null: 2, Kids: []*TD{from, d}}
		if pct(t, 40) {
			d = &TD{Kind: "func", Null: 2, Kids: []*TD{genETD(t), d}}
		}
	}
	return d
}

func (e *EX) label(c *C) {
	e.each(func(k *EX) {
		if k.K == "ref" {
			c.Label("ref:" + k.Root)
		} else {
			c.Label(k.K)
		}
	})
}

func eqBoth(c *C, a, b expr.Expression, sig string) {
	c.Check(a.Equals(b), "equal:"+sig, "not equal:\n%s\n%s", a, b)
	c.Check(b.Equals(a), "equal_sym:"+sig, "not equal (swapped):\n%s\n%s", a, b)
}

func (e *EX) checkType(c *C, got expr.Expression, sig string) {
	ty := got.GetType()
	c.Check(ty != nil, "no_type:"+sig, "no type for %s", got)
	c.Check(tdOf(ty).equal(e.T), "type:"+sig, "type %v, want %s", ty, e.T)
	c.Check(ty.Equals(e.T.build()), "type_equals:"+sig, "type %v, want %s", ty, e.T)
}

func declMap(urns []*pbext.SimpleExtensionURN, decls []*pbext.SimpleExtensionDeclaration) string {
	byURN := map[uint32]string{}
	for _, u := range urns {
		byURN[u.ExtensionUrnAnchor] = u.Urn
	}
	var out []string
	for _, d := range decls {
		f := d.GetExtensionFunction()
		out = append(out, fmt.Sprintf("%d=%s %s", f.GetFunctionAnchor(), byURN[f.GetExtensionUrnReference()], f.GetName()))
	}
	sort.Strings(out)
	return fmt.Sprint(out)
}

func TestE01(t *testing.T) {
	p := start(t, "E01", "expressions of every kind nested to depth 3 or 4, well typed against a schema made for them, with functions of a loaded file and "+
		"unknown ones under sparse anchors, options, sorts, bounds, phases, lambdas, outer references and subqueries; as messages (through the wire form), and as built by "+
		"constructors or fluent builder; and extended expressions of them; non-trivial = at least 3 expressions in the tree")
	defer p.finish()
	nontrivial := func(e *EX) bool { return e.size() >= 3 }

	p.sub("from_message", 6000, func(c *C) {
		w := genWorld(c.T)
		x := ECtx{cols: &ECols{}, msg: true}
		e := genEX(c.T, x, genWantTD(c.T), rapid.IntRange(1, 4).Draw(c.T, "depth"))
		c.Case(nontrivial(e), "%s over %v", e, x.cols.T)
		e.label(c)
		k := e.K
		want := e.proto(w)
		m := wire(want)
		reg, schema := w.reg(c), x.cols.record()
		got, err := expr.ExprFromProto(m, schema, reg)
		c.Check(err == nil, "refused:"+k, "a well-formed expression is refused: %v", err)
		c.Check(protoEq(m, want), "message_changed:"+k, "parsing changed the message")
		e.checkType(c, got, k)
		again := got.ToProto()
		c.Check(protoEq(again, want), "reserialise:"+k, "writes\n%v\nwant\n%v", again, want)
		c.Check(protoEq(got.ToProtoFuncArg().GetValue(), want), "reserialise_arg:"+k, "writes %v", got.ToProtoFuncArg())
		got2, err := expr.ExprFromProto(wire(again), schema, reg)
		c.Check(err == nil, "refused_again:"+k, "its own message is refused: %v", err)
		e.checkType(c, got2, "again:"+k)
		if !e.hasSub() {
			eqBoth(c, got, got2, k)
		}
		c.Check(protoEq(got2.ToProto(), want), "reserialise_again:"+k, "writes\n%v\nwant\n%v", got2.ToProto(), want)
		c.NoPanic("String", func() { _ = got.String(); got.IsScalar() })
		c.NoPanic("parts", func() { readParts(c, reg, got) })
	})

	p.sub("from_build", 6000, func(c *C) {
		w := genWorld(c.T)
		x := ECtx{cols: &ECols{}}
		e := genEX(c.T, x, genWantTD(c.T), rapid.IntRange(1, 4).Draw(c.T, "depth"))
		fluent := rapid.Bool().Draw(c.T, "fluent")
		c.Case(nontrivial(e), "%s over %v fluent %v", e, x.cols.T, fluent)
		e.label(c)
		k := e.K
		reg := w.reg(c)
		b := newEB(c, w, reg, x.cols, fluent)
		got, err := b.build(e)
		c.Check(err == nil, "build:"+k, "a well-typed expression is refused: %v", err)
		e.checkType(c, got, k)
		want := e.proto(w)
		m := got.ToProto()
		c.Check(protoEq(m, want), "serialise:"+k, "writes\n%v\nwant\n%v", m, want)
		c.Check(protoEq(got.ToProtoFuncArg().GetValue(), want), "serialise_arg:"+k, "writes %v", got.ToProtoFuncArg())
		back, err := expr.ExprFromProto(wire(m), x.cols.record(), reg)
		c.Check(err == nil, "refused:"+k, "its own message is refused: %v", err)
		e.checkType(c, back, "back:"+k)
		if !e.hasSub() {
			eqBoth(c, got, back, k)
		}
		c.Check(protoEq(back.ToProto(), want), "reserialise:"+k, "writes\n%v\nwant\n%v", back.ToProto(), want)
		c.NoPanic("String", func() { _ = got.String(); got.IsScalar() })
		c.NoPanic("parts", func() { readParts(c, reg, got) })

		// with anchors the library gives, read in another process
		reg2 := expr.NewEmptyExtensionRegistry(eCol())
		b2 := newEB(c, w, reg2, x.cols, !fluent)
		got, err = b2.build(e)
		c.Check(err == nil, "build_fresh:"+k, "a well-typed expression is refused: %v", err)
		urns, decls := reg2.ExtensionsToProto()
		set3, err := ext.GetExtensionSet(wire(&pb.Plan{ExtensionUrns: urns, Extensions: decls}), eCol())
		c.Check(err == nil, "fresh_set:"+k, "%v", err)
		reg3 := expr.NewExtensionRegistry(set3, eCol())
		reg3.SetSubqueryConverter(&plan.ExpressionConverter{ExtensionRegistry: reg3})
		back, err = expr.ExprFromProto(wire(got.ToProto()), x.cols.record(), reg3)
		c.Check(err == nil, "refused_fresh:"+k, "its own message is refused: %v", err)
		e.checkType(c, back, "fresh:"+k)
		if !e.hasSub() {
			eqBoth(c, got, back, "fresh:"+k)
		}
		c.Check(protoEq(back.ToProto(), got.ToProto()), "reserialise_fresh:"+k, "writes\n%v\nwant\n%v", back.ToProto(), got.ToProto())
		names(c, got, back)
	})

	p.sub("aggregates", 2500, func(c *C) {
		w := genWorld(c.T)
		x := ECtx{cols: &ECols{}}
		e := genAgg(c.T, x, rapid.IntRange(0, 2).Draw(c.T, "depth"))
		fluent := rapid.Bool().Draw(c.T, "fluent")
		c.Case(nontrivial(e), "%s over %v fluent %v", e, x.cols.T, fluent)
		c.Label(e.Fn)
		reg := w.reg(c)
		want := e.aggProto(w)
		check := func(a *expr.AggregateFunction, where string) {
			c.Check(tdOf(a.GetType()).equal(e.T), "type:"+where, "type %v, want %s", a.GetType(), e.T)
			c.Check(protoEq(a.ToProto(), want), "serialise:"+where, "writes\n%v\nwant\n%v", a.ToProto(), want)
			c.Check(a.Name() != "" && a.CompoundName() == eFns[e.Fn].Name && a.ID() == fnID(e.Fn), "id:"+where, "id %v", a.ID())
			c.Check(a.NArgs() == len(e.Args) && int32(a.Phase()) == e.Phase && int32(a.Invocation()) == e.Invoc && len(a.Sorts) == len(e.SortDirs), "parts:"+where, "%v", a)
			c.Check(protoEq(a.Clone().ToProto(), want), "clone:"+where, "the clone writes %v, want %v", a.Clone().ToProto(), want)
		}
		got, err := newEB(c, w, reg, x.cols, fluent).agg(e)
		c.Check(err == nil, "build", "a well-typed measure is refused: %v", err)
		check(got, "built")
		m := wire(want)
		back, err := expr.NewAggregateFunctionFromProto(m, x.cols.record(), reg)
		c.Check(err == nil, "refused", "a well-formed measure is refused: %v", err)
		c.Check(protoEq(m, want), "message_changed", "parsing changed the message")
		check(back, "parsed")
		c.NoPanic("String", func() { _ = got.String(); _ = back.String() })
		c.NoPanic("parts", func() { aggregateParts(c, reg, got); aggregateParts(c, reg, back) })
		// a clone is separate
		for _, a := range []*expr.AggregateFunction{back, got} {
			cl := a.Clone()
			if i := len(e.Args); i > 0 {
				cl.SetArg(pick(c.T, i), types.Enum("changed"))
			}
			if i := len(cl.Sorts); i > 0 {
				cl.Sorts[pick(c.T, i)] = expr.SortField{Expr: expr.NewPrimitiveLiteral("changed", true), Kind: types.SortClustered}
			}
			check(a, "after_clone_change")
		}
	})

	p.sub("masks", 1500, func(c *C) {
		w := genWorld(c.T)
		cols := genCols(c.T, 1, 4)
		e := &EX{K: "ref", Root: "root"}
		from := cols.td()
		if pct(c.T, 30) {
			e.Root = "expr"
			from = genLitTD(c.T, typeGenOpts{depth: 3, noUnspec: true, decimalOK: true, noEmpty: true})
			if from.Kind != "struct" {
				from = &TD{Kind: "struct", Null: 2, Kids: []*TD{from, boolTD(1)}}
			}
			e.RootEx = genEX(c.T, ECtx{cols: cols, msg: true, noSub: true}, from, 1)
		}
		e.Mask = genMask(c.T, from, false)
		e.Mask.Maintain = rapid.Bool().Draw(c.T, "maintain")
		e.T, _ = e.Mask.masked(from, e.Mask.Maintain)
		switch pick(c.T, 4) {
		case 0:
			e = &EX{K: "cast", T: genETD(c.T), Kids: []*EX{e}}
		case 1:
			e = &EX{K: "struct", T: &TD{Kind: "struct", Null: 2, Kids: []*TD{e.T, e.T}}, Kids: []*EX{e, e.clone()}}
		case 2:
			e = &EX{K: "list", T: &TD{Kind: "list", Null: 1, Kids: []*TD{e.T}}, Kids: []*EX{e}}
		}
		c.Case(e.size() > 1, "%s over %v", e, cols.T)
		k := e.K
		want := e.proto(w)
		m := wire(want)
		reg := w.reg(c)
		got, err := expr.ExprFromProto(m, cols.record(), reg)
		c.Check(err == nil, "refused:"+k, "a well-formed expression is refused: %v", err)
		c.Check(protoEq(m, want), "message_changed:"+k, "parsing changed the message")
		e.checkType(c, got, k)
		c.Check(protoEq(got.ToProto(), want), "reserialise:"+k, "writes\n%v\nwant\n%v", got.ToProto(), want)
		back, err := expr.ExprFromProto(wire(got.ToProto()), cols.record(), reg)
		c.Check(err == nil, "refused_again:"+k, "its own message is refused: %v", err)
		eqBoth(c, got, back, k)
		c.NoPanic("String", func() { _ = got.String() })
		c.NoPanic("parts", func() { readParts(c, reg, got) })
	})

	p.sub("extended", 2000, func(c *C) {
		w := genWorld(c.T)
		x := ECtx{cols: &ECols{}, msg: true, noSub: true}
		m := &pb.ExtendedExpression{ExtensionUrns: w.URNs, Extensions: w.Decls}
		n := rapid.IntRange(0, 3).Draw(c.T, "n")
		var es []*EX
		desc := ""
		for i := 0; i < n; i++ {
			r := &pb.ExpressionReference{OutputNames: rapid.SliceOfN(rapid.SampledFrom([]string{"a", "b", ""}), 0, 2).Draw(c.T, "names")}
			var e *EX
			if pct(c.T, 35) {
				e = genAgg(c.T, x, 1)
				r.ExprType = &pb.ExpressionReference_Measure{Measure: e.aggProto(w)}
			} else {
				e = genEX(c.T, x, genWantTD(c.T), 2)
				r.ExprType = &pb.ExpressionReference_Expression{Expression: e.proto(w)}
			}
			es = append(es, e)
			desc += e.String() + "; "
			m.ReferredExpr = append(m.ReferredExpr, r)
		}
		m.BaseSchema = &pb.NamedStruct{Names: x.cols.names(), Struct: x.cols.td().proto().GetStruct()}
		if rapid.Bool().Draw(c.T, "version") {
			m.Version = &pb.Version{MajorNumber: 0, MinorNumber: 85, PatchNumber: 3, GitHash: "0123456789012345678901234567890123456789", Producer: "p"}
		}
		if rapid.Bool().Draw(c.T, "adv") {
			a, _ := anypb.New(wrapperspb.String("hint"))
			m.AdvancedExtensions = &pbext.AdvancedExtension{Optimization: []*anypb.Any{a}, Enhancement: a}
		}
		m.ExpectedTypeUrls = rapid.SliceOfN(rapid.SampledFrom([]string{"type.a", "type.b"}), 0, 2).Draw(c.T, "urls")
		c.Case(n > 0, "%d: %s over %v", n, desc, x.cols.T)
		orig := proto.Clone(m)
		got, err := expr.ExtendedFromProto(wire(m), eCol())
		c.Check(err == nil, "refused", "a well-formed extended expression is refused: %v", err)
		c.Check(protoEq(m, orig), "message_changed", "parsing changed the message")
		check := func(out *pb.ExtendedExpression, where string) {
			c.Check(declMap(out.ExtensionUrns, out.Extensions) == declMap(m.ExtensionUrns, m.Extensions), "extensions:"+where, "%v", out.Extensions)
			o := proto.Clone(out).(*pb.ExtendedExpression)
			o.ExtensionUrns, o.Extensions = m.ExtensionUrns, m.Extensions
			c.Check(protoEq(o, m), "reserialise:"+where, "writes\n%v\nwant\n%v", o, m)
		}
		check(got.ToProto(), "parsed")
		c.Check(len(got.ReferredExpr) == n, "count", "%d of %d", len(got.ReferredExpr), n)
		for i, e := range es {
			if e.K == "agg" {
				c.Check(got.ReferredExpr[i].GetExpr() == nil && protoEq(got.ReferredExpr[i].GetMeasure().ToProto(), e.aggProto(w)), "measure", "%v", got.ReferredExpr[i])
			} else {
				c.Check(got.ReferredExpr[i].GetMeasure() == nil, "not_measure", "%v", got.ReferredExpr[i])
				e.checkType(c, got.ReferredExpr[i].GetExpr(), "extended")
			}
		}
		got2, err := expr.ExtendedFromProto(wire(got.ToProto()), eCol())
		c.Check(err == nil, "refused_again", "its own message is refused: %v", err)
		check(got2.ToProto(), "again")

		// one reference set again and again says the last thing
		if n > 0 {
			ref := expr.NewExpressionReference([]string{"r"}, nil)
			last := -1
			for k := 0; k < 1+pick(c.T, 4); k++ {
				last = pick(c.T, n)
				if r := &got.ReferredExpr[last]; r.GetMeasure() != nil {
					ref.SetMeasure(r.GetMeasure())
				} else {
					ref.SetExpr(r.GetExpr())
				}
			}
			r := &got.ReferredExpr[last]
			a, b := proto.Clone(ref.ToProto()).(*pb.ExpressionReference), proto.Clone(r.ToProto()).(*pb.ExpressionReference)
			a.OutputNames, b.OutputNames = nil, nil
			c.Check(protoEq(a, b) && (ref.GetExpr() == nil) == (r.GetExpr() == nil) && (ref.GetMeasure() == nil) == (r.GetMeasure() == nil), "reference_set", "set to %v last, is %v", b, a)
		}

		// the same put together by hand
		hand := &expr.Extended{Version: got.Version, Extensions: got.Extensions, BaseSchema: x.cols.named(), AdvancedExts: got.AdvancedExts, ExpectedTypeURLs: got.ExpectedTypeURLs}
		for _, r := range got.ReferredExpr {
			if r.GetMeasure() != nil {
				hand.ReferredExpr = append(hand.ReferredExpr, expr.NewMeasureReference(r.OutputNames, r.GetMeasure()))
			} else {
				hand.ReferredExpr = append(hand.ReferredExpr, expr.NewExpressionReference(r.OutputNames, r.GetExpr()))
			}
		}
		c.NoPanic("ToProto of a hand-made extended expression", func() { check(hand.ToProto(), "hand") })
	})
}

// names checks that two readings of a function call call the same function.
func names(c *C, a, b expr.Expression) {
	type fn interface {
		ID() ext.FunctionID
		CompoundName() string
	}
	if fa, ok := a.(fn); ok {
		fb := b.(fn)
		c.Check(fa.ID() == fb.ID() && fa.CompoundName() == fb.CompoundName(), "function_id", "%v and %v", fa.ID(), fb.ID())
	}
	type opt interface {
		GetOption(string) []string
		GetOptions() []*types.FunctionOption
	}
	for _, e := range []expr.Expression{a, b} {
		o, ok := e.(opt)
		if !ok {
			continue
		}
		first := map[string][]string{}
		for _, x := range o.GetOptions() {
			if _, ok := first[x.Name]; !ok {
				first[x.Name] = x.Preference
			}
		}
		for n, p := range first {
			c.Check(slices.Equal(o.GetOption(n), p), "option", "option %s of %s is %v, want %v", n, e, o.GetOption(n), p)
		}
		c.Check(o.GetOption("no such option") == nil, "option_unset", "%v", o.GetOption("no such option"))
	}
}
