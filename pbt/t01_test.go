package pbt

import (
	"fmt"
	"testing"

	"github.com/substrait-io/substrait-go/v8/types"
	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"
)

var defTypeOpts = typeGenOpts{depth: 3}

func TestT01(t *testing.T) {
	p := start(t, "T01", "type trees up to depth 4 over every kind, nullability, variation and parameter, from an independent model; "+
		"non-trivial = nested, or parameterised, or with a nonzero variation or unspecified/nullable nullability")
	defer p.finish()
	nontrivial := func(d *TD) bool { return d.isNested() || d.P != 0 || d.Var != 0 || d.Null != 2 || len(d.Params) > 0 }

	p.sub("type_to_proto", 6000, func(c *C) {
		d := genTD(c.T, defTypeOpts)
		c.Case(nontrivial(d), "%s", d)
		c.Label(d.Kind)
		want := d.proto()
		g := d.build()
		got := types.TypeToProto(g)
		c.Check(protoEq(got, want), "to_proto:"+d.Kind, "TypeToProto gives %v, want %v", got, want)
		fa := g.ToProtoFuncArg()
		c.Check(protoEq(fa.GetType(), want), "func_arg:"+d.Kind, "ToProtoFuncArg gives %v, want type %v", fa, want)
		back := types.TypeFromProto(got)
		c.Check(back.Equals(g) && g.Equals(back), "roundtrip_equal:"+d.Kind, "type %s is not equal to what its message parses to: %v", g, back)
		c.Check(protoEq(types.TypeToProto(back), want), "roundtrip_proto:"+d.Kind, "second serialisation differs: %v want %v", types.TypeToProto(back), want)
	})

	p.sub("type_from_proto", 6000, func(c *C) {
		d := genTD(c.T, defTypeOpts)
		c.Case(nontrivial(d), "%s", d)
		m := d.proto()
		before := proto.Clone(m)
		ty := types.TypeFromProto(m)
		c.Check(protoEq(m, before), "message_changed", "parsing changed the message")
		c.Check(int(ty.GetNullability()) == d.Null, "nullability:"+d.Kind, "nullability %v want %d", ty.GetNullability(), d.Null)
		c.Check(ty.GetTypeVariationReference() == d.Var, "variation:"+d.Kind, "variation %v want %d", ty.GetTypeVariationReference(), d.Var)
		checkParams(c, ty, d)
		c.Check(protoEq(types.TypeToProto(ty), m), "reserialise:"+d.Kind, "serialises to %v want %v", types.TypeToProto(ty), m)
		c.Check(ty.Equals(d.build()), "equals_model:"+d.Kind, "parsed type %v is not equal to the directly built %v", ty, d.build())
	})

	p.sub("interval_day_default_precision", 200, func(c *C) {
		n := pb.Type_Nullability(rapid.IntRange(0, 2).Draw(c.T, "n"))
		v := rapid.Uint32().Draw(c.T, "v")
		c.Case(true, "interval_day without precision null=%v var=%d", n, v)
		m := &pb.Type{Kind: &pb.Type_IntervalDay_{IntervalDay: &pb.Type_IntervalDay{Nullability: n, TypeVariationReference: v}}}
		want := &pb.Type{Kind: &pb.Type_IntervalDay_{IntervalDay: &pb.Type_IntervalDay{Precision: proto.Int32(6), Nullability: n, TypeVariationReference: v}}}
		got := types.TypeToProto(types.TypeFromProto(m))
		c.Check(protoEq(got, want) || protoEq(got, m), "interval_day_default", "%v gives %v", m, got)
	})

	p.sub("named_struct", 2000, func(c *C) {
		d := &TD{Kind: "struct", Null: rapid.IntRange(0, 2).Draw(c.T, "n"), Var: uint32(rapid.IntRange(0, 2).Draw(c.T, "v"))}
		n := rapid.IntRange(0, 5).Draw(c.T, "k")
		var names []string
		for i := 0; i < n; i++ {
			d.Kids = append(d.Kids, genTD(c.T, typeGenOpts{depth: 2}))
			names = append(names, fmt.Sprintf("n%d", i))
		}
		c.Case(n > 0, "%v %s", names, d)
		m := &pb.NamedStruct{Names: names, Struct: d.proto().GetStruct()}
		ns := types.NewNamedStructFromProto(m)
		c.Check(protoEq(ns.ToProto(), m), "named_struct", "NamedStruct round trip gives %v want %v", ns.ToProto(), m)
		b := types.NamedStruct{Names: names, Struct: *(d.build().(*types.StructType))}
		c.Check(protoEq(b.ToProto(), m), "named_struct_build", "built NamedStruct gives %v want %v", b.ToProto(), m)
		c.Check(len(ns.Struct.Types) == n, "named_struct_len", "%d fields", len(ns.Struct.Types))
	})

	p.sub("interval_year_month", 200, func(c *C) {
		d := &TD{Kind: "interval_year", Null: rapid.IntRange(0, 2).Draw(c.T, "n"), Var: rapid.Uint32().Draw(c.T, "v")}
		wrap := rapid.IntRange(0, 2).Draw(c.T, "wrap")
		c.Case(true, "interval year to month type %s wrap %d", d, wrap)
		var g types.Type = types.NewIntervalYearToMonthType().WithTypeVariationRef(d.Var).WithNullability(types.Nullability(d.Null))
		want := d.proto()
		switch wrap {
		case 1:
			g = &types.ListType{Nullability: types.NullabilityRequired, Type: g}
			want = (&TD{Kind: "list", Null: 2, Kids: []*TD{d}}).proto()
		case 2:
			g = &types.StructType{Nullability: types.NullabilityRequired, Types: []types.Type{g, g}}
			want = (&TD{Kind: "struct", Null: 2, Kids: []*TD{d, d}}).proto()
		}
		c.NoPanic("TypeToProto", func() {
			got := types.TypeToProto(g)
			c.Check(protoEq(got, want), "interval_year_month_proto", "%v want %v", got, want)
			back := types.TypeFromProto(got)
			c.Check(back.Equals(g) && g.Equals(back), "interval_year_month_equal", "%v and %v should be equal", g, back)
		})
	})
}

// checkParams compares what the public accessors of a type report with the model.
func checkParams(c *C, ty types.Type, d *TD) {
	ps := ty.GetParameters()
	num := func(i int) int64 {
		switch v := ps[i].(type) {
		case int64:
			return v
		case types.TimePrecision:
			return int64(v)
		}
		c.Fail("param_kind:"+d.Kind, "parameter %d of %s is %T", i, d, ps[i])
		return 0
	}
	wantLen := func(n int) {
		c.Check(len(ps) == n, "param_count:"+d.Kind, "%s reports %d parameters, want %d", d, len(ps), n)
	}
	switch d.Kind {
	case "fixedchar", "varchar", "fixedbinary", "precision_time", "precision_timestamp", "precision_timestamp_tz", "interval_day", "interval_compound":
		wantLen(1)
		c.Check(num(0) == int64(d.P), "param:"+d.Kind, "parameter %d want %d", num(0), d.P)
	case "decimal":
		wantLen(2)
		c.Check(num(0) == int64(d.P) && num(1) == int64(d.S), "param:decimal", "parameters %d,%d want %d,%d", num(0), num(1), d.P, d.S)
	case "list", "map", "struct", "func":
		wantLen(len(d.Kids))
		for i, k := range d.Kids {
			sub, ok := ps[i].(types.Type)
			c.Check(ok, "param_kind:"+d.Kind, "parameter %d of %s is %T", i, d, ps[i])
			c.Check(protoEq(types.TypeToProto(sub), k.proto()), "component:"+d.Kind, "component %d of %s is %v", i, d, sub)
		}
	case "udt":
		u := ty.(*types.UserDefinedType)
		c.Check(u.TypeReference == d.Ref, "udt_ref", "reference %d want %d", u.TypeReference, d.Ref)
		wantLen(len(d.Params))
	default:
		wantLen(0)
	}
}
