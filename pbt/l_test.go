package pbt

import (
	"math"
	"testing"

	"github.com/substrait-io/substrait-go/v8/expr"
	ext "github.com/substrait-io/substrait-go/v8/extensions"
	"github.com/substrait-io/substrait-go/v8/types"
	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	"pgregory.net/rapid"
)

// emptyReg is a registry without extensions.
func emptyReg() expr.ExtensionRegistry {
	return expr.NewExtensionRegistry(ext.NewSet(), ext.GetDefaultCollectionWithNoError())
}

func genAnyLV(t *rapid.T) *LV {
	d := genLitTD(t, litTypeOpts)
	if rapid.IntRange(0, 11).Draw(t, "loose") == 0 {
		// types inside nulls and empty collections may say anything
		d = genTD(t, typeGenOpts{depth: 2})
		switch {
		case rapid.Bool().Draw(t, "null"):
			d.Null = 1
			return &LV{T: d, Null: true}
		case rapid.Bool().Draw(t, "list"):
			return &LV{T: &TD{Kind: "list", Null: 1 + rapid.IntRange(0, 1).Draw(t, "n"), Var: uint32(rapid.IntRange(0, 2).Draw(t, "v")), Kids: []*TD{d}}}
		default:
			return &LV{T: &TD{Kind: "map", Null: 1 + rapid.IntRange(0, 1).Draw(t, "n"), Var: uint32(rapid.IntRange(0, 2).Draw(t, "v")),
				Kids: []*TD{d, genTD(t, typeGenOpts{depth: 1})}}}
		}
	}
	return genLV(t, d)
}

func sameLit(c *C, a, b expr.Literal, sig string) {
	c.Check(a.Equals(b), "equal:"+sig, "%s and %s are not equal", a, b)
	c.Check(b.Equals(a), "equal_sym:"+sig, "%s and %s are not equal", b, a)
}

func TestL01(t *testing.T) {
	p := start(t, "L01", "literals of every kind (typed nulls, empty and full lists, maps, structs, user-defined with Any and struct values, "+
		"every interval form), nested to depth 3, each nullability and variation, from an independent model, through the wire form; "+
		"non-trivial = nested, null, nullable, with variation or parameters, or with a nonzero value")
	defer p.finish()
	nontrivial := func(v *LV) bool {
		return v.T.isNested() || v.Null || v.T.Null == 1 || v.T.Var != 0 || v.T.P != 0 || v.I != 0 || v.F != 0 || len(v.S) > 0 || len(v.B) > 0
	}

	p.sub("from_message", 7000, func(c *C) {
		v := genAnyLV(c.T)
		c.Case(nontrivial(v), "%s", v)
		k := v.T.Kind
		c.Label(k)
		want := v.proto()
		m := wire(want)
		l := expr.LiteralFromProto(m)
		c.Check(l != nil, "refused:"+k, "a well-formed literal is refused: %v", want)
		c.Check(protoEq(m, want), "message_changed:"+k, "parsing changed the message")
		ty := l.GetType()
		c.Check(tdOf(ty).equal(v.T), "type:"+k, "type %v, want %s", tdOf(ty), v.T)
		c.Check(ty.Equals(v.T.build()), "type_equal:"+k, "type %v, want %s", ty, v.T)
		c.Check(protoEq(l.ToProtoLiteral(), want), "reserialise:"+k, "writes %v, want %v", l.ToProtoLiteral(), want)
		c.Check(protoEq(l.ToProto().GetLiteral(), want), "reserialise_expr:"+k, "writes %v, want %v", l.ToProto(), want)
		c.Check(protoEq(l.ToProtoFuncArg().GetValue().GetLiteral(), want), "reserialise_arg:"+k, "writes %v, want %v", l.ToProtoFuncArg(), want)
		b := v.lit()
		sameLit(c, l, b, k)
		sameLit(c, l, l, "self:"+k)
		e, err := expr.ExprFromProto(wire(&pb.Expression{RexType: &pb.Expression_Literal_{Literal: want}}), nil, emptyReg())
		c.Check(err == nil, "expr_refused:"+k, "ExprFromProto: %v", err)
		c.Check(l.Equals(e) && e.Equals(l), "expr_equal:"+k, "ExprFromProto gives %v, LiteralFromProto %v", e, l)
	})

	p.sub("to_message", 5000, func(c *C) {
		v := genAnyLV(c.T)
		c.Case(nontrivial(v), "%s", v)
		k := v.T.Kind
		want := v.proto()
		b := v.lit()
		got := b.ToProtoLiteral()
		c.Check(protoEq(got, want), "write:"+k, "%s writes %v, want %v", b, got, want)
		back := expr.LiteralFromProto(wire(got))
		c.Check(back != nil, "reread:"+k, "%v is refused", got)
		sameLit(c, b, back, k)
		if n, ok, err := v.ctor(); ok {
			c.Label("constructor")
			c.Check(err == nil, "ctor:"+k, "constructor refuses %s: %v", v, err)
			c.Check(protoEq(n.ToProtoLiteral(), want), "ctor_write:"+k, "constructed literal writes %v, want %v", n.ToProtoLiteral(), want)
			sameLit(c, n, b, "ctor:"+k)
			sameLit(c, n, back, "ctor:"+k)
			c.Check(tdOf(n.GetType()).equal(v.T), "ctor_type:"+k, "type %s want %s", n.GetType(), v.T)
		}
	})

	p.sub("distinct", 5000, func(c *C) {
		v := genAnyLV(c.T)
		w, what := mutateLV(c.T, v, false)
		c.Case(true, "%s  /  %s (%s)", v, w, what)
		if v.key() == w.key() {
			c.Label("same")
			return
		}
		k := v.T.Kind
		c.Check(byPointer(v.lit()).Equals(v.lit()) && v.lit().Equals(byPointer(v.lit())), "pointer:"+k, "%s isn't equal to a pointer to it", v)
		for i, x := range []expr.Literal{v.lit(), expr.LiteralFromProto(wire(v.proto()))} {
			for j, y := range []expr.Literal{w.lit(), expr.LiteralFromProto(wire(w.proto()))} {
				if x == nil || y == nil {
					continue
				}
				c.Check(!x.Equals(y) && !y.Equals(x), "distinct:"+k, "%s and %s are equal (%d%d)", x, y, i, j)
				c.Check(!x.Equals(byPointer(y)) && !byPointer(y).Equals(x), "distinct_pointer:"+k, "%s and a pointer to %s are equal (%d%d)", x, y, i, j)
			}
		}
		c.Check(!protoEq(v.lit().ToProtoLiteral(), w.lit().ToProtoLiteral()), "distinct_proto:"+k, "%s and %s write the same message", v, w)
	})

	p.sub("interval_compound_forms", 1000, func(c *C) {
		d := &TD{Kind: "interval_compound", Null: 1 + rapid.IntRange(0, 1).Draw(c.T, "n"), Var: uint32(rapid.IntRange(0, 2).Draw(c.T, "v")), P: 6}
		v := genLV(c.T, d)
		if v.Null {
			v = &LV{T: d, Y: 1}
		}
		v.Sub = int64(int32(v.Sub))
		hasYM := v.Y != 0 || v.M != 0 || rapid.Bool().Draw(c.T, "ym")
		micro := rapid.Bool().Draw(c.T, "micro")
		c.Case(true, "%s micro=%v", v, micro)
		m := &pb.Expression_Literal_IntervalCompound{}
		if hasYM {
			m.IntervalYearToMonth = &pb.Expression_Literal_IntervalYearToMonth{Years: v.Y, Months: v.M}
		}
		if micro {
			v.Mode = 1
		}
		m.IntervalDayToSecond = v.dayProto()
		v.Mode = 0
		l := expr.LiteralFromProto(wire(&pb.Expression_Literal{Nullable: d.Null == 1, TypeVariationReference: d.Var,
			LiteralType: &pb.Expression_Literal_IntervalCompound_{IntervalCompound: m}}))
		c.Check(l != nil, "refused", "%v is refused", m)
		sameLit(c, l, v.lit(), "interval_compound")
		c.Check(protoEq(l.ToProtoLiteral(), v.proto()), "write", "%v writes %v want %v", m, l.ToProtoLiteral(), v.proto())
	})

	// the length of a text type counts characters; whether a longer text is accepted is not judged, but it is not turned into another literal
	p.sub("overlong", 800, func(c *C) {
		txt := rapid.StringMatching(`[a-zé€😀]{1,12}`).Draw(c.T, "txt")
		n := nearU32(c.T, uint32(len([]rune(txt))))
		l := &pb.Expression_Literal{Nullable: rapid.Bool().Draw(c.T, "null"), TypeVariationReference: uint32(rapid.IntRange(0, 1).Draw(c.T, "var"))}
		l.LiteralType = &pb.Expression_Literal_VarChar_{VarChar: &pb.Expression_Literal_VarChar{Value: txt, Length: n}}
		c.Case(true, "%v", l)
		got := expr.LiteralFromProto(wire(l))
		if got == nil {
			c.Label("refused")
			c.Check(int(n) < len([]rune(txt)) || n > math.MaxInt32, "refused", "%v is refused", l)
			return
		}
		c.Check(protoEq(got.ToProtoLiteral(), l), "overlong", "%v becomes %v", l, got.ToProtoLiteral())
		c.Check(got.GetType().(*types.VarCharType).Length == int32(n), "overlong_type", "%v has type %s", l, got.GetType())
	})

	p.sub("malformed", 2500, func(c *C) {
		m, what := genBadLiteral(c.T, 2)
		c.Case(true, "%s: %v", what, m)
		c.Label(what)
		m = wire(m)
		c.NoPanic("LiteralFromProto", func() {
			l := expr.LiteralFromProto(m)
			c.Check(l == nil, "accepted:"+what, "malformed literal %v is read as %v", m, l)
		})
		c.NoPanic("ExprFromProto", func() {
			e, err := expr.ExprFromProto(&pb.Expression{RexType: &pb.Expression_Literal_{Literal: m}}, nil, emptyReg())
			c.Check(err != nil, "accepted_expr:"+what, "malformed literal %v is read as %v", m, e)
		})
	})
}

// genBadLiteral makes a literal message that denotes no literal.
func genBadLiteral(t *rapid.T, depth int) (*pb.Expression_Literal, string) {
	l := &pb.Expression_Literal{Nullable: rapid.Bool().Draw(t, "null"), TypeVariationReference: uint32(rapid.IntRange(0, 1).Draw(t, "var"))}
	badPrec := rapid.SampledFrom([]int32{-1, 10, 11, 100, -2147483648, 2147483647}).Draw(t, "prec")
	n := 19
	if depth <= 0 {
		n = 14
	}
	good := func() *pb.Expression_Literal {
		return genLV(t, genLitTD(t, typeGenOpts{noFunc: true, noUnspec: true, decimalOK: true})).proto()
	}
	switch rapid.IntRange(0, n).Draw(t, "bad") {
	case 0:
		return l, "nothing set"
	case 1:
		l.LiteralType = &pb.Expression_Literal_I8{I8: rapid.SampledFrom([]int32{128, -129, 300, 256, 2147483647, -2147483648}).Draw(t, "v")}
		return l, "i8 out of range"
	case 2:
		l.LiteralType = &pb.Expression_Literal_I16{I16: rapid.SampledFrom([]int32{32768, -32769, 65536, 2147483647}).Draw(t, "v")}
		return l, "i16 out of range"
	case 3:
		n := rapid.SampledFrom([]int{0, 1, 8, 15, 17, 32}).Draw(t, "n")
		l.LiteralType = &pb.Expression_Literal_Uuid{Uuid: make([]byte, n)}
		return l, "uuid length"
	case 4:
		n := rapid.SampledFrom([]int{0, 1, 8, 15, 17, 32}).Draw(t, "n")
		l.LiteralType = &pb.Expression_Literal_Decimal_{Decimal: &pb.Expression_Literal_Decimal{Value: make([]byte, n), Precision: 5, Scale: 2}}
		return l, "decimal length"
	case 5:
		l.LiteralType = &pb.Expression_Literal_Null{Null: &pb.Type{}}
		return l, "null without type"
	case 6:
		l.LiteralType = &pb.Expression_Literal_EmptyList{EmptyList: &pb.Type_List{Nullability: 1}}
		return l, "empty list without type"
	case 7:
		m := &pb.Type_Map{Nullability: 1, Key: (&TD{Kind: "i8"}).proto(), Value: (&TD{Kind: "i8"}).proto()}
		if rapid.Bool().Draw(t, "key") {
			m.Key = nil
		} else {
			m.Value = nil
		}
		l.LiteralType = &pb.Expression_Literal_EmptyMap{EmptyMap: m}
		return l, "empty map without type"
	case 8:
		l.LiteralType = &pb.Expression_Literal_PrecisionTimestamp_{PrecisionTimestamp: &pb.Expression_Literal_PrecisionTimestamp{Precision: badPrec, Value: 1}}
		return l, "precision timestamp precision"
	case 9:
		l.LiteralType = &pb.Expression_Literal_PrecisionTimestampTz{PrecisionTimestampTz: &pb.Expression_Literal_PrecisionTimestamp{Precision: badPrec, Value: 1}}
		return l, "precision timestamp tz precision"
	case 10:
		l.LiteralType = &pb.Expression_Literal_PrecisionTime_{PrecisionTime: &pb.Expression_Literal_PrecisionTime{Precision: badPrec, Value: 1}}
		return l, "precision time precision"
	case 11:
		l.LiteralType = &pb.Expression_Literal_IntervalDayToSecond_{IntervalDayToSecond: &pb.Expression_Literal_IntervalDayToSecond{Days: 1,
			PrecisionMode: &pb.Expression_Literal_IntervalDayToSecond_Precision{Precision: badPrec}}}
		return l, "interval day precision"
	case 12:
		m := &pb.Expression_Literal_IntervalDayToSecond{Days: 1}
		switch rapid.IntRange(0, 2).Draw(t, "k") {
		case 1:
			m.PrecisionMode = &pb.Expression_Literal_IntervalDayToSecond_Precision{Precision: badPrec}
		case 2:
			m.PrecisionMode = &pb.Expression_Literal_IntervalDayToSecond_Microseconds{Microseconds: 5}
			m.Subseconds = 4
		}
		l.LiteralType = &pb.Expression_Literal_IntervalCompound_{IntervalCompound: &pb.Expression_Literal_IntervalCompound{IntervalDayToSecond: m}}
		return l, "interval compound day part"
	case 13:
		u := &pb.Expression_Literal_UserDefined{TypeAnchorType: &pb.Expression_Literal_UserDefined_TypeReference{TypeReference: 1},
			Val: &pb.Expression_Literal_UserDefined_Struct{Struct: &pb.Expression_Literal_Struct{}}}
		switch rapid.IntRange(0, 2).Draw(t, "k") {
		case 0:
			u.Val = nil
		case 1:
			u.TypeAnchorType = nil
		case 2:
			u.TypeParameters = []*pb.Type_Parameter{{Parameter: &pb.Type_Parameter_DataType{DataType: &pb.Type{}}}}
		}
		l.LiteralType = &pb.Expression_Literal_UserDefined_{UserDefined: u}
		return l, "user-defined incomplete"
	case 14:
		l.LiteralType = &pb.Expression_Literal_VarChar_{VarChar: &pb.Expression_Literal_VarChar{Value: "a", Length: rapid.SampledFrom([]uint32{2147483648, 4294967295}).Draw(t, "len")}}
		return l, "varchar length"
	case 15:
		l.LiteralType = &pb.Expression_Literal_List_{List: &pb.Expression_Literal_List{}}
		return l, "list without elements"
	case 16:
		l.LiteralType = &pb.Expression_Literal_Map_{Map: &pb.Expression_Literal_Map{}}
		return l, "map without entries"
	case 17:
		bad, what := genBadLiteral(t, depth-1)
		ls := []*pb.Expression_Literal{good(), bad}
		if rapid.Bool().Draw(t, "first") {
			ls[0], ls[1] = ls[1], ls[0]
		}
		if rapid.Bool().Draw(t, "list") {
			l.LiteralType = &pb.Expression_Literal_List_{List: &pb.Expression_Literal_List{Values: ls}}
		} else {
			l.LiteralType = &pb.Expression_Literal_Struct_{Struct: &pb.Expression_Literal_Struct{Fields: ls}}
		}
		return l, what
	case 18, 19:
		bad, what := genBadLiteral(t, depth-1)
		kv := &pb.Expression_Literal_Map_KeyValue{Key: good(), Value: good()}
		switch rapid.IntRange(0, 3).Draw(t, "where") {
		case 0:
			kv.Key = bad
		case 1:
			kv.Value = bad
		case 2:
			kv.Key, what = nil, "map entry incomplete"
		case 3:
			kv.Value, what = nil, "map entry incomplete"
		}
		kvs := []*pb.Expression_Literal_Map_KeyValue{kv}
		if rapid.Bool().Draw(t, "second") {
			kvs = append([]*pb.Expression_Literal_Map_KeyValue{{Key: good(), Value: good()}}, kvs...)
		}
		l.LiteralType = &pb.Expression_Literal_Map_{Map: &pb.Expression_Literal_Map{KeyValues: kvs}}
		return l, what
	}
	panic("unreachable")
}

// byPointer is a pointer to a literal that is usually used as a value.
func byPointer(l expr.Literal) expr.Literal {
	switch l := l.(type) {
	case expr.IntervalYearToMonthLiteral:
		return &l
	case expr.IntervalCompoundLiteral:
		return &l
	}
	return l
}
