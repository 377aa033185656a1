package pbt

// LV is an independent model of a literal: its type (TD) and its value. The Go literal and the
// protobuf message are built from it separately.

import (
	"fmt"
	"math"
	"math/big"
	"strings"

	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/types"
	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/wrapperspb"
	"pgregory.net/rapid"
)

type LV struct {
	T    *TD
	Null bool
	I    int64    // integers, dates, times, timestamps, bool (0/1)
	F    float64  // fp32 / fp64
	S    string   // string, fixedchar, varchar
	B    []byte   // binary, fixedbinary, uuid, UDT Any payload
	D    *big.Int // unscaled decimal
	Y, M int32    // interval years, months
	Dy   int32    // days
	Sec  int32
	Sub  int64
	Mode int   // interval_day: 0 precision, 1 deprecated microseconds, 2 nothing; UDT: 0 Any, 1 struct
	Kids []*LV // list, struct, UDT struct; map: k0 v0 k1 v1 ...
}

var litTypeOpts = typeGenOpts{depth: 2, noFunc: true, noUnspec: true, decimalOK: true}

// genLitTD draws a literal type whose values stay small.
func genLitTD(t *rapid.T, o typeGenOpts) *TD {
	d := genTD(t, o)
	d.shrinkLens()
	return d
}

func (d *TD) shrinkLens() {
	switch d.Kind {
	case "fixedchar", "fixedbinary":
		d.P = d.P % 8
	case "varchar":
		if d.P > 100 && d.P != math.MaxInt32 {
			d.P = 100
		}
	}
	for _, k := range d.Kids {
		k.shrinkLens()
	}
}

var edgeRunes = []rune{'a', 'b', 'Z', '0', ' ', '\'', '"', '\\', ',', '(', ')', '[', ']', '{', '}', 'é', '世', '😀', '\n', '\t', '%', ':'}

func genRunes(t *rapid.T, n int) string {
	r := rapid.SliceOfN(rapid.SampledFrom(edgeRunes), n, n).Draw(t, "runes")
	return string(r)
}

func genTD64(t *rapid.T, lo, hi int64) int64 {
	cand := []int64{lo, hi, 0, -1, 1, 59, -59, 86399, 86400, -86400, 999999, 1000000, -1000001, 123456, 1234567890, -123456789}
	var ok []int64
	for _, v := range cand {
		if v >= lo && v <= hi {
			ok = append(ok, v)
		}
	}
	return rapid.OneOf(rapid.SampledFrom(ok), rapid.Int64Range(max(lo, -2000000), min(hi, 2000000)), rapid.Int64Range(lo, hi)).Draw(t, "v")
}

func pow10(n int) *big.Int { return new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(n)), nil) }

func genDecimalUnscaled(t *rapid.T, p int) *big.Int {
	n := rapid.IntRange(0, p).Draw(t, "digits")
	if n == 0 {
		return big.NewInt(0)
	}
	ds := make([]byte, n)
	style := rapid.IntRange(0, 2).Draw(t, "style")
	for i := range ds {
		switch style {
		case 0:
			ds[i] = byte('0' + rapid.IntRange(0, 9).Draw(t, "d"))
		case 1:
			ds[i] = '9'
		case 2:
			ds[i] = '0'
			if i == 0 {
				ds[i] = '1'
			}
		}
	}
	v, _ := new(big.Int).SetString(string(ds), 10)
	if rapid.Bool().Draw(t, "neg") {
		v.Neg(v)
	}
	return v
}

// microDay: nanoseconds etc. in a day at a precision.
func dayUnits(p int32) int64 { return 86400 * pow10(int(p)).Int64() }

func genLV(t *rapid.T, d *TD) *LV {
	v := &LV{T: d}
	if d.Null == 1 && rapid.IntRange(0, 3).Draw(t, "isnull") == 3 {
		v.Null = true
		return v
	}
	switch d.Kind {
	case "boolean":
		v.I = int64(rapid.IntRange(0, 1).Draw(t, "b"))
	case "i8":
		v.I = genTD64(t, math.MinInt8, math.MaxInt8)
	case "i16":
		v.I = genTD64(t, math.MinInt16, math.MaxInt16)
	case "i32", "date":
		v.I = genTD64(t, math.MinInt32, math.MaxInt32)
	case "i64", "timestamp", "timestamp_tz", "precision_timestamp", "precision_timestamp_tz":
		v.I = genTD64(t, math.MinInt64, math.MaxInt64)
	case "time":
		v.I = genTD64(t, 0, 86399999999)
	case "precision_time":
		v.I = genTD64(t, 0, dayUnits(d.P)-1)
	case "fp32":
		v.F = float64(rapid.OneOf(rapid.Float32(), rapid.SampledFrom([]float32{0, float32(math.Copysign(0, -1)), 1.5, -0.25, float32(math.Inf(1)), float32(math.Inf(-1)), float32(math.NaN()), math.MaxFloat32, math.SmallestNonzeroFloat32, 1e10, 16777216})).Draw(t, "f"))
	case "fp64":
		v.F = rapid.OneOf(rapid.Float64(), rapid.SampledFrom([]float64{0, math.Copysign(0, -1), 1.5, -0.25, math.Inf(1), math.Inf(-1), math.NaN(), math.MaxFloat64, math.SmallestNonzeroFloat64, 1e21, 0.1})).Draw(t, "f")
	case "string":
		v.S = genRunes(t, rapid.IntRange(0, 6).Draw(t, "n"))
	case "fixedchar":
		v.S = genRunes(t, int(d.P))
	case "varchar":
		v.S = genRunes(t, rapid.IntRange(0, int(min(d.P, 6))).Draw(t, "n"))
	case "binary":
		v.B = rapid.SliceOfN(rapid.Byte(), 0, 6).Draw(t, "bytes")
	case "fixedbinary":
		v.B = rapid.SliceOfN(rapid.Byte(), int(d.P), int(d.P)).Draw(t, "bytes")
	case "uuid":
		v.B = rapid.SliceOfN(rapid.Byte(), 16, 16).Draw(t, "bytes")
	case "decimal":
		v.D = genDecimalUnscaled(t, int(d.P))
	case "interval_year":
		v.Y = int32(genTD64(t, math.MinInt32, math.MaxInt32))
		v.M = int32(genTD64(t, math.MinInt32, math.MaxInt32))
	case "interval_day":
		v.genDay(t)
		if d.P == 6 {
			v.Mode = rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(t, "mode")
			if v.Mode == 1 {
				v.Sub = int64(int32(v.Sub))
			}
		}
	case "interval_compound":
		if rapid.Bool().Draw(t, "hasym") {
			v.Y = int32(genTD64(t, math.MinInt32, math.MaxInt32))
			v.M = int32(genTD64(t, math.MinInt32, math.MaxInt32))
		}
		if rapid.Bool().Draw(t, "hasds") {
			v.genDay(t)
		}
	case "udt":
		v.Mode = rapid.IntRange(0, 1).Draw(t, "mode")
		if v.Mode == 0 {
			v.B = rapid.SliceOfN(rapid.Byte(), 0, 5).Draw(t, "bytes")
		} else {
			n := rapid.IntRange(0, 3).Draw(t, "n")
			for i := 0; i < n; i++ {
				v.Kids = append(v.Kids, genLV(t, genLitTD(t, typeGenOpts{noFunc: true, noUnspec: true, decimalOK: true})))
			}
		}
	case "struct":
		for _, k := range d.Kids {
			v.Kids = append(v.Kids, genLV(t, k))
		}
	case "list":
		n := rapid.IntRange(0, 3).Draw(t, "n")
		for i := 0; i < n; i++ {
			v.Kids = append(v.Kids, genLV(t, d.Kids[0]))
		}
	case "map":
		n := rapid.IntRange(0, 3).Draw(t, "n")
		for i := 0; i < n; i++ {
			v.Kids = append(v.Kids, genLV(t, d.Kids[0]), genLV(t, d.Kids[1]))
		}
	default:
		panic("literal of " + d.Kind)
	}
	return v
}

// litable tells whether genLV can give a value of the type.
func (d *TD) litable() bool {
	if d.Kind == "func" || d.Null == 0 || (d.Kind == "decimal" && d.P < 1) || (d.Kind == "fixedchar" || d.Kind == "fixedbinary") && d.P > 64 {
		return false
	}
	for _, k := range d.Kids {
		if !k.litable() {
			return false
		}
	}
	return true
}

func (v *LV) genDay(t *rapid.T) {
	v.Dy = int32(genTD64(t, math.MinInt32, math.MaxInt32))
	v.Sec = int32(genTD64(t, math.MinInt32, math.MaxInt32))
	unit := pow10(int(v.T.P)).Int64()
	v.Sub = rapid.OneOf(rapid.Int64Range(-unit+1, unit-1), rapid.Just(int64(0)), rapid.Int64Range(-5*unit, 5*unit), rapid.Int64()).Draw(t, "sub")
}

func (v *LV) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s(", v.T)
	switch {
	case v.Null:
		b.WriteString("NULL")
	case v.T.Kind == "fp32" || v.T.Kind == "fp64":
		fmt.Fprintf(&b, "%g/%x", v.F, math.Float64bits(v.F))
	case v.D != nil:
		b.WriteString(v.D.String())
	case v.T.Kind == "string" || v.T.Kind == "fixedchar" || v.T.Kind == "varchar":
		fmt.Fprintf(&b, "%q", v.S)
	case v.T.Kind == "binary" || v.T.Kind == "fixedbinary" || v.T.Kind == "uuid":
		fmt.Fprintf(&b, "%x", v.B)
	case v.T.Kind == "interval_year":
		fmt.Fprintf(&b, "%dY %dM", v.Y, v.M)
	case v.T.Kind == "interval_day":
		fmt.Fprintf(&b, "%dD %dS %d mode%d", v.Dy, v.Sec, v.Sub, v.Mode)
	case v.T.Kind == "interval_compound":
		fmt.Fprintf(&b, "%dY %dM %dD %dS %d", v.Y, v.M, v.Dy, v.Sec, v.Sub)
	case v.T.isNested() || v.T.Kind == "udt":
		if v.T.Kind == "udt" {
			fmt.Fprintf(&b, "mode%d %x ", v.Mode, v.B)
		}
		for i, k := range v.Kids {
			if i > 0 {
				b.WriteString(", ")
			}
			b.WriteString(k.String())
		}
	default:
		fmt.Fprintf(&b, "%d", v.I)
	}
	b.WriteString(")")
	return b.String()
}

func (v *LV) clone() *LV {
	o := *v
	o.T = v.T.clone()
	o.B = append([]byte(nil), v.B...)
	if v.D != nil {
		o.D = new(big.Int).Set(v.D)
	}
	o.Kids = nil
	for _, k := range v.Kids {
		o.Kids = append(o.Kids, k.clone())
	}
	return &o
}

// le16 is the little-endian two's complement of a decimal.
func le16(d *big.Int) []byte {
	m := new(big.Int).Set(d)
	if m.Sign() < 0 {
		m.Add(m, new(big.Int).Lsh(big.NewInt(1), 128))
	}
	be := m.FillBytes(make([]byte, 16))
	out := make([]byte, 16)
	for i := range be {
		out[15-i] = be[i]
	}
	return out
}

func fromLE16(b []byte) *big.Int {
	be := make([]byte, len(b))
	for i := range b {
		be[len(b)-1-i] = b[i]
	}
	m := new(big.Int).SetBytes(be)
	if len(b) > 0 && b[len(b)-1]&0x80 != 0 {
		m.Sub(m, new(big.Int).Lsh(big.NewInt(1), uint(8*len(b))))
	}
	return m
}

func (v *LV) anyVal() *anypb.Any {
	a, err := anypb.New(wrapperspb.Bytes(v.B))
	if err != nil {
		panic(err)
	}
	return a
}

func (v *LV) dayProto() *pb.Expression_Literal_IntervalDayToSecond {
	m := &pb.Expression_Literal_IntervalDayToSecond{Days: v.Dy, Seconds: v.Sec}
	switch v.Mode {
	case 0:
		m.PrecisionMode = &pb.Expression_Literal_IntervalDayToSecond_Precision{Precision: v.T.P}
		m.Subseconds = v.Sub
	case 1:
		m.PrecisionMode = &pb.Expression_Literal_IntervalDayToSecond_Microseconds{Microseconds: int32(v.Sub)}
	case 2:
		m.Subseconds = v.Sub
	}
	return m
}

func lvProtos(vs []*LV) []*pb.Expression_Literal {
	out := make([]*pb.Expression_Literal, len(vs))
	for i, k := range vs {
		out[i] = k.proto()
	}
	return out
}

// proto is the canonical message of the literal.
func (v *LV) proto() *pb.Expression_Literal {
	d := v.T
	l := &pb.Expression_Literal{Nullable: d.Null == 1, TypeVariationReference: d.Var}
	if v.Null {
		l.LiteralType = &pb.Expression_Literal_Null{Null: d.proto()}
		return l
	}
	switch d.Kind {
	case "boolean":
		l.LiteralType = &pb.Expression_Literal_Boolean{Boolean: v.I != 0}
	case "i8":
		l.LiteralType = &pb.Expression_Literal_I8{I8: int32(v.I)}
	case "i16":
		l.LiteralType = &pb.Expression_Literal_I16{I16: int32(v.I)}
	case "i32":
		l.LiteralType = &pb.Expression_Literal_I32{I32: int32(v.I)}
	case "i64":
		l.LiteralType = &pb.Expression_Literal_I64{I64: v.I}
	case "fp32":
		l.LiteralType = &pb.Expression_Literal_Fp32{Fp32: float32(v.F)}
	case "fp64":
		l.LiteralType = &pb.Expression_Literal_Fp64{Fp64: v.F}
	case "string":
		l.LiteralType = &pb.Expression_Literal_String_{String_: v.S}
	case "binary":
		l.LiteralType = &pb.Expression_Literal_Binary{Binary: v.B}
	case "date":
		l.LiteralType = &pb.Expression_Literal_Date{Date: int32(v.I)}
	case "time":
		l.LiteralType = &pb.Expression_Literal_Time{Time: v.I}
	case "timestamp":
		l.LiteralType = &pb.Expression_Literal_Timestamp{Timestamp: v.I}
	case "timestamp_tz":
		l.LiteralType = &pb.Expression_Literal_TimestampTz{TimestampTz: v.I}
	case "interval_year":
		l.LiteralType = &pb.Expression_Literal_IntervalYearToMonth_{IntervalYearToMonth: &pb.Expression_Literal_IntervalYearToMonth{Years: v.Y, Months: v.M}}
	case "uuid":
		l.LiteralType = &pb.Expression_Literal_Uuid{Uuid: v.B}
	case "fixedchar":
		l.LiteralType = &pb.Expression_Literal_FixedChar{FixedChar: v.S}
	case "varchar":
		l.LiteralType = &pb.Expression_Literal_VarChar_{VarChar: &pb.Expression_Literal_VarChar{Value: v.S, Length: uint32(d.P)}}
	case "fixedbinary":
		l.LiteralType = &pb.Expression_Literal_FixedBinary{FixedBinary: v.B}
	case "decimal":
		l.LiteralType = &pb.Expression_Literal_Decimal_{Decimal: &pb.Expression_Literal_Decimal{Value: le16(v.D), Precision: d.P, Scale: d.S}}
	case "precision_time":
		l.LiteralType = &pb.Expression_Literal_PrecisionTime_{PrecisionTime: &pb.Expression_Literal_PrecisionTime{Precision: d.P, Value: v.I}}
	case "precision_timestamp":
		l.LiteralType = &pb.Expression_Literal_PrecisionTimestamp_{PrecisionTimestamp: &pb.Expression_Literal_PrecisionTimestamp{Precision: d.P, Value: v.I}}
	case "precision_timestamp_tz":
		l.LiteralType = &pb.Expression_Literal_PrecisionTimestampTz{PrecisionTimestampTz: &pb.Expression_Literal_PrecisionTimestamp{Precision: d.P, Value: v.I}}
	case "interval_day":
		l.LiteralType = &pb.Expression_Literal_IntervalDayToSecond_{IntervalDayToSecond: v.dayProto()}
	case "interval_compound":
		m := &pb.Expression_Literal_IntervalCompound{}
		if v.Y != 0 || v.M != 0 {
			m.IntervalYearToMonth = &pb.Expression_Literal_IntervalYearToMonth{Years: v.Y, Months: v.M}
		}
		if v.Dy != 0 || v.Sec != 0 || v.Sub != 0 || d.P != 0 {
			m.IntervalDayToSecond = v.dayProto()
		}
		l.LiteralType = &pb.Expression_Literal_IntervalCompound_{IntervalCompound: m}
	case "udt":
		u := &pb.Expression_Literal_UserDefined{TypeAnchorType: &pb.Expression_Literal_UserDefined_TypeReference{TypeReference: d.Ref},
			TypeParameters: d.proto().GetUserDefined().GetTypeParameters()}
		if v.Mode == 0 {
			u.Val = &pb.Expression_Literal_UserDefined_Value{Value: v.anyVal()}
		} else {
			u.Val = &pb.Expression_Literal_UserDefined_Struct{Struct: &pb.Expression_Literal_Struct{Fields: lvProtos(v.Kids)}}
		}
		l.LiteralType = &pb.Expression_Literal_UserDefined_{UserDefined: u}
	case "struct":
		l.LiteralType = &pb.Expression_Literal_Struct_{Struct: &pb.Expression_Literal_Struct{Fields: lvProtos(v.Kids)}}
	case "list":
		if len(v.Kids) == 0 {
			l.LiteralType = &pb.Expression_Literal_EmptyList{EmptyList: d.proto().GetList()}
		} else {
			l.LiteralType = &pb.Expression_Literal_List_{List: &pb.Expression_Literal_List{Values: lvProtos(v.Kids)}}
		}
	case "map":
		if len(v.Kids) == 0 {
			l.LiteralType = &pb.Expression_Literal_EmptyMap{EmptyMap: d.proto().GetMap()}
		} else {
			m := &pb.Expression_Literal_Map{}
			for i := 0; i < len(v.Kids); i += 2 {
				m.KeyValues = append(m.KeyValues, &pb.Expression_Literal_Map_KeyValue{Key: v.Kids[i].proto(), Value: v.Kids[i+1].proto()})
			}
			l.LiteralType = &pb.Expression_Literal_Map_{Map: m}
		}
	}
	return l
}

func lvLits(vs []*LV) []expr.Literal {
	out := make([]expr.Literal, len(vs))
	for i, k := range vs {
		out[i] = k.lit()
	}
	return out
}

// lit builds the Go literal directly from the exported representation.
func (v *LV) lit() expr.Literal {
	ty := v.T.build()
	if v.Null {
		return &expr.NullLiteral{Type: ty}
	}
	switch v.T.Kind {
	case "boolean":
		return &expr.PrimitiveLiteral[bool]{Value: v.I != 0, Type: ty}
	case "i8":
		return &expr.PrimitiveLiteral[int8]{Value: int8(v.I), Type: ty}
	case "i16":
		return &expr.PrimitiveLiteral[int16]{Value: int16(v.I), Type: ty}
	case "i32":
		return &expr.PrimitiveLiteral[int32]{Value: int32(v.I), Type: ty}
	case "i64":
		return &expr.PrimitiveLiteral[int64]{Value: v.I, Type: ty}
	case "fp32":
		return &expr.PrimitiveLiteral[float32]{Value: float32(v.F), Type: ty}
	case "fp64":
		return &expr.PrimitiveLiteral[float64]{Value: v.F, Type: ty}
	case "string":
		return &expr.PrimitiveLiteral[string]{Value: v.S, Type: ty}
	case "date":
		return &expr.PrimitiveLiteral[types.Date]{Value: types.Date(v.I), Type: ty}
	case "time":
		return &expr.PrimitiveLiteral[types.Time]{Value: types.Time(v.I), Type: ty}
	case "timestamp":
		return &expr.PrimitiveLiteral[types.Timestamp]{Value: types.Timestamp(v.I), Type: ty}
	case "timestamp_tz":
		return &expr.PrimitiveLiteral[types.TimestampTz]{Value: types.TimestampTz(v.I), Type: ty}
	case "fixedchar":
		return &expr.PrimitiveLiteral[types.FixedChar]{Value: types.FixedChar(v.S), Type: ty}
	case "binary":
		return &expr.ByteSliceLiteral[[]byte]{Value: append([]byte{}, v.B...), Type: ty}
	case "fixedbinary":
		return &expr.ByteSliceLiteral[types.FixedBinary]{Value: append([]byte{}, v.B...), Type: ty}
	case "uuid":
		return &expr.ByteSliceLiteral[types.UUID]{Value: append([]byte{}, v.B...), Type: ty}
	case "varchar":
		return &expr.ProtoLiteral{Value: v.S, Type: ty}
	case "decimal":
		return &expr.ProtoLiteral{Value: le16(v.D), Type: ty}
	case "precision_time", "precision_timestamp", "precision_timestamp_tz":
		return &expr.ProtoLiteral{Value: v.I, Type: ty}
	case "interval_year":
		return expr.IntervalYearToMonthLiteral{Years: v.Y, Months: v.M, Nullability: types.Nullability(v.T.Null), TypeVariationRef: v.T.Var}
	case "interval_day":
		return &expr.ProtoLiteral{Value: v.dayProto(), Type: ty}
	case "interval_compound":
		return expr.IntervalCompoundLiteral{Years: v.Y, Months: v.M, Days: v.Dy, Seconds: v.Sec, SubSeconds: v.Sub,
			SubSecondPrecision: types.TimePrecision(v.T.P), Nullability: types.Nullability(v.T.Null), TypeVariationRef: v.T.Var}
	case "udt":
		if v.Mode == 0 {
			return &expr.ProtoLiteral{Value: &pb.Expression_Literal_UserDefined_Value{Value: v.anyVal()}, Type: ty}
		}
		return &expr.ProtoLiteral{Value: &pb.Expression_Literal_UserDefined_Struct{Struct: &pb.Expression_Literal_Struct{Fields: lvProtos(v.Kids)}}, Type: ty}
	case "struct":
		return &expr.StructLiteral{Value: lvLits(v.Kids), Type: ty}
	case "list":
		return &expr.ListLiteral{Value: lvLits(v.Kids), Type: ty}
	case "map":
		m := make(expr.MapLiteralValue, len(v.Kids)/2)
		for i := range m {
			m[i].Key, m[i].Value = v.Kids[2*i].lit(), v.Kids[2*i+1].lit()
		}
		return &expr.MapLiteral{Value: m, Type: ty}
	}
	panic("lit of " + v.T.Kind)
}

// ctor builds the literal through the public constructor that fits, if the value has no type
// variation and one exists.
func (v *LV) ctor() (expr.Literal, bool, error) {
	d := v.T
	null := d.Null == 1
	if d.Var != 0 || d.Null == 0 {
		return nil, false, nil
	}
	if v.Null {
		return expr.NewNullLiteral(d.withNull(2).build()), true, nil
	}
	some := func(l expr.Literal, err error) (expr.Literal, bool, error) { return l, true, err }
	switch d.Kind {
	case "boolean":
		return some(expr.NewLiteral(v.I != 0, null))
	case "i8":
		return some(expr.NewLiteral(int8(v.I), null))
	case "i16":
		return some(expr.NewLiteral(int16(v.I), null))
	case "i32":
		return some(expr.NewLiteral(int32(v.I), null))
	case "i64":
		return some(expr.NewLiteral(v.I, null))
	case "fp32":
		return some(expr.NewLiteral(float32(v.F), null))
	case "fp64":
		return some(expr.NewLiteral(v.F, null))
	case "string":
		return some(expr.NewLiteral(v.S, null))
	case "date":
		return some(expr.NewLiteral(types.Date(v.I), null))
	case "time":
		return some(expr.NewLiteral(types.Time(v.I), null))
	case "timestamp":
		return some(expr.NewLiteral(types.Timestamp(v.I), null))
	case "timestamp_tz":
		return some(expr.NewLiteral(types.TimestampTz(v.I), null))
	case "fixedchar":
		return some(expr.NewLiteral(types.FixedChar(v.S), null))
	case "binary":
		return some(expr.NewLiteral(v.B, null))
	case "fixedbinary":
		return some(expr.NewLiteral(types.FixedBinary(v.B), null))
	case "uuid":
		return some(expr.NewLiteral(types.UUID(v.B), null))
	case "varchar":
		return some(expr.NewLiteral(&types.VarChar{Value: v.S, Length: uint32(d.P)}, null))
	case "decimal":
		return some(expr.NewLiteral(&types.Decimal{Value: le16(v.D), Precision: d.P, Scale: d.S}, null))
	case "precision_time":
		return some(expr.NewLiteral(&types.PrecisionTime{Precision: d.P, Value: v.I}, null))
	case "precision_timestamp":
		return some(expr.NewLiteral(&types.PrecisionTimestamp{PrecisionTimestamp: v.proto().GetPrecisionTimestamp()}, null))
	case "precision_timestamp_tz":
		return some(expr.NewLiteral(&types.PrecisionTimestampTz{PrecisionTimestampTz: v.proto().GetPrecisionTimestampTz()}, null))
	case "interval_year":
		return some(expr.NewLiteral(v.proto().GetIntervalYearToMonth(), null))
	case "interval_day":
		return some(expr.NewLiteral(v.dayProto(), null))
	case "udt":
		return some(expr.NewLiteral(v.proto().GetUserDefined(), null))
	case "struct":
		return some(expr.NewLiteral(expr.StructLiteralValue(lvLits(v.Kids)), null))
	case "list":
		if len(v.Kids) == 0 {
			return expr.NewEmptyListLiteral(d.Kids[0].build(), null), true, nil
		}
		return some(expr.NewLiteral(expr.ListLiteralValue(lvLits(v.Kids)), null))
	case "map":
		if len(v.Kids) == 0 {
			return expr.NewEmptyMapLiteral(d.Kids[0].build(), d.Kids[1].build(), null), true, nil
		}
		return some(expr.NewLiteral(v.lit().(*expr.MapLiteral).Value, null))
	}
	return nil, false, nil
}

// text is the canonical identity of type and value; equal iff same literal.
func (v *LV) key() string {
	o := v.clone()
	o.norm()
	return o.String()
}

func (v *LV) norm() {
	if v.F != v.F {
		v.F = math.NaN()
	}
	if v.F == 0 {
		v.F = 0 // -0 == 0
	}
	for _, k := range v.Kids {
		k.norm()
	}
}

// mutateLV changes one thing; what tells which. keepType leaves the type as it is.
func mutateLV(t *rapid.T, v *LV, keepType bool) (*LV, string) {
	o := v.clone()
	what := o.mutate(t, keepType)
	return o, what
}

func (v *LV) mutate(t *rapid.T, keepType bool) string {
	d := v.T
	if !keepType {
		switch rapid.IntRange(0, 5).Draw(t, "how") {
		case 0:
			if !v.Null {
				d.Null = 3 - d.Null
				return "nullability"
			}
		case 1:
			if d.Kind != "func" {
				d.Var++
				return "variation"
			}
		case 2:
			switch d.Kind {
			case "varchar":
				if d.P < math.MaxInt32 {
					d.P++
					return "length"
				}
			case "decimal":
				if d.P < 38 {
					d.P++
					return "precision"
				}
			case "precision_time", "precision_timestamp", "precision_timestamp_tz", "interval_compound":
				if d.P < 9 {
					d.P++
					return "precision"
				}
			case "udt":
				d.Ref++
				return "udt reference"
			}
		}
	}
	if v.Null {
		if keepType {
			if !d.withNull(2).litable() {
				return ""
			}
			// the non-null value of the type
			o := genLV(t, d.withNull(2))
			o.T = d
			*v = *o
			return "null to value"
		}
		n, w := mutateTD(t, d)
		if n.Null != 1 {
			n.Null = 1
			if n.equal(d) && n.Kind != "func" {
				n.Var++
			}
		}
		v.T = n
		return "null type: " + w
	}
	if d.Null == 1 && rapid.IntRange(0, 4).Draw(t, "tonull") == 0 {
		*v = LV{T: d, Null: true}
		return "value to null"
	}
	flip := func(b []byte) {
		i := rapid.IntRange(0, len(b)-1).Draw(t, "at")
		b[i] ^= byte(1 << rapid.IntRange(0, 7).Draw(t, "bit"))
	}
	otherRune := func() {
		r := []rune(v.S)
		i := rapid.IntRange(0, len(r)-1).Draw(t, "at")
		if r[i] == 'q' {
			r[i] = 'Q'
		} else {
			r[i] = 'q'
		}
		v.S = string(r)
	}
	switch d.Kind {
	case "boolean":
		v.I = 1 - v.I
	case "i8", "i16", "i32", "date", "i64", "timestamp", "timestamp_tz", "precision_timestamp", "precision_timestamp_tz", "time", "precision_time":
		if v.I > 0 {
			v.I--
		} else {
			v.I++
		}
	case "fp32":
		if math.IsInf(v.F, 0) || v.F != v.F || math.Abs(v.F) > 1e30 {
			v.F = 2.5
		} else {
			v.F = float64(math.Nextafter32(float32(v.F), float32(math.Inf(1))))
			if v.F == 0 {
				v.F = 1
			}
		}
	case "fp64":
		if math.IsInf(v.F, 0) || v.F != v.F || math.Abs(v.F) > 1e300 {
			v.F = 2.5
		} else {
			v.F = math.Nextafter(v.F, math.Inf(1))
			if v.F == 0 {
				v.F = 1
			}
		}
	case "string":
		if v.S == "" || rapid.Bool().Draw(t, "grow") {
			v.S += "a"
		} else {
			otherRune()
		}
	case "fixedchar":
		if v.S != "" {
			otherRune()
		} else {
			if keepType {
				return ""
			}
			v.S, d.P = "a", 1
		}
	case "varchar":
		if v.S != "" {
			otherRune()
		} else if d.P > 0 {
			v.S = "a"
		} else {
			return ""
		}
	case "binary":
		if len(v.B) == 0 || rapid.Bool().Draw(t, "grow") {
			v.B = append(v.B, 0)
		} else {
			flip(v.B)
		}
	case "fixedbinary":
		if len(v.B) == 0 {
			if keepType {
				return ""
			}
			v.B, d.P = []byte{0}, 1
		} else {
			flip(v.B)
		}
	case "uuid":
		flip(v.B)
	case "decimal":
		if v.D.Sign() != 0 {
			v.D.Neg(v.D)
		} else {
			v.D = big.NewInt(1)
		}
	case "interval_year":
		if rapid.Bool().Draw(t, "y") {
			v.Y ^= 1
		} else {
			v.M ^= 1
		}
	case "interval_day", "interval_compound":
		k := rapid.IntRange(0, 4).Draw(t, "part")
		if d.Kind == "interval_day" {
			k %= 3
		}
		switch k {
		case 0:
			v.Dy ^= 1
		case 1:
			v.Sec ^= 1
		case 2:
			v.Sub ^= 1
		case 3:
			v.Y ^= 1
		case 4:
			v.M ^= 1
		}
	case "udt":
		if v.Mode == 0 {
			v.B = append(v.B, 1)
		} else if len(v.Kids) > 0 && rapid.Bool().Draw(t, "deep") {
			i := rapid.IntRange(0, len(v.Kids)-1).Draw(t, "kid")
			return v.Kids[i].mutate(t, false)
		} else {
			v.Kids = append(v.Kids, &LV{T: &TD{Kind: "i8", Null: 2}, I: 1})
		}
	case "struct":
		if len(v.Kids) == 0 || (!keepType && rapid.IntRange(0, 3).Draw(t, "grow") == 0) {
			if keepType {
				return ""
			}
			v.Kids = append(v.Kids, &LV{T: &TD{Kind: "i8", Null: 2}, I: 1})
		} else {
			i := rapid.IntRange(0, len(v.Kids)-1).Draw(t, "kid")
			w := v.Kids[i].mutate(t, keepType)
			if w == "" {
				return ""
			}
		}
		d.Kids = nil
		for _, k := range v.Kids {
			d.Kids = append(d.Kids, k.T)
		}
	case "list", "map":
		step := 1
		if d.Kind == "map" {
			step = 2
		}
		switch {
		case len(v.Kids) > 0 && rapid.Bool().Draw(t, "drop"):
			v.Kids = v.Kids[:len(v.Kids)-step]
		case len(v.Kids) > 0 && rapid.Bool().Draw(t, "deep"):
			i := rapid.IntRange(0, len(v.Kids)-1).Draw(t, "kid")
			return v.Kids[i].mutate(t, true)
		default:
			for _, k := range d.Kids {
				if !k.litable() {
					return ""
				}
			}
			for j := 0; j < step; j++ {
				v.Kids = append(v.Kids, genLV(t, d.Kids[j]))
			}
		}
	}
	return "value"
}

// wire sends a message through its wire form, so that it has the shape a reader gets.
func wire[M proto.Message](m M) M {
	b, err := proto.Marshal(m)
	if err != nil {
		panic(err)
	}
	o := m.ProtoReflect().New().Interface().(M)
	if err := proto.Unmarshal(b, o); err != nil {
		panic(err)
	}
	return o
}
