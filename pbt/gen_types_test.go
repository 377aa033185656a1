package pbt

// TD is an independent model of a type: what it is, not how the code represents it.
// From a TD the checks build the Go type, the protobuf message and the spelled text separately.

import (
	"fmt"
	"strings"

	"github.com/substrait-io/substrait-go/v8/types"
	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/emptypb"
	"pgregory.net/rapid"
)

type TD struct {
	Kind   string // spelled base name
	Null   int    // 0 unspecified 1 nullable 2 required
	Var    uint32
	P, S   int32 // length / precision, scale
	Ref    uint32
	Kids   []*TD // list: 1, map: 2, struct: n, func: params..., return
	Params []TPD
}

// TPD is a user-defined type parameter.
type TPD struct {
	Kind string // null bool int enum string type
	B    bool
	I    int64
	Str  string
	T    *TD
}

var simpleKinds = []string{"boolean", "i8", "i16", "i32", "i64", "fp32", "fp64", "string", "binary", "date", "time",
	"timestamp", "timestamp_tz", "interval_year", "uuid"}
var lenKinds = []string{"fixedchar", "varchar", "fixedbinary"}
var precKinds = []string{"precision_time", "precision_timestamp", "precision_timestamp_tz", "interval_day", "interval_compound"}
var nestKinds = []string{"list", "map", "struct", "func"}

type typeGenOpts struct {
	depth     int
	noFunc    bool
	noUDT     bool
	noVar     bool
	noICmp    bool // no interval_compound
	noUnspec  bool // only nullable / required
	noUDTArgs bool
	decimalOK bool // restrict decimals to 1<=p<=38, 0<=s<=p and lengths >= 1
	noEmpty   bool // no empty structs
}

func genTD(t *rapid.T, o typeGenOpts) *TD {
	d := &TD{}
	if o.noUnspec {
		d.Null = 1 + rapid.IntRange(0, 1).Draw(t, "null")
	} else {
		d.Null = rapid.SampledFrom([]int{2, 1, 1, 2, 0}).Draw(t, "null")
	}
	if !o.noVar && rapid.IntRange(0, 2).Draw(t, "hasvar") == 2 {
		d.Var = rapid.SampledFrom([]uint32{1, 7, 4294967295}).Draw(t, "var")
	}
	cls := []string{"simple", "simple", "len", "dec", "prec"}
	if !o.noUDT {
		cls = append(cls, "udt")
	}
	if o.depth > 0 {
		cls = append(cls, "list", "map", "struct", "struct", "list")
		if !o.noFunc {
			cls = append(cls, "func")
		}
	}
	sub := o
	sub.depth--
	switch k := rapid.SampledFrom(cls).Draw(t, "class"); k {
	case "simple":
		d.Kind = rapid.SampledFrom(simpleKinds).Draw(t, "kind")
	case "len":
		d.Kind = rapid.SampledFrom(lenKinds).Draw(t, "kind")
		lo := int32(0)
		if o.decimalOK {
			lo = 1
		}
		d.P = rapid.OneOf(rapid.Int32Range(lo, 40), rapid.SampledFrom([]int32{2147483647, 65535})).Draw(t, "len")
	case "dec":
		d.Kind = "decimal"
		d.P = rapid.Int32Range(1, 38).Draw(t, "p")
		d.S = rapid.Int32Range(0, d.P).Draw(t, "s")
	case "prec":
		ks := precKinds
		if o.noICmp {
			ks = precKinds[:4]
		}
		d.Kind = rapid.SampledFrom(ks).Draw(t, "kind")
		d.P = rapid.Int32Range(0, 9).Draw(t, "prec")
	case "udt":
		d.Kind = "udt"
		d.Ref = rapid.SampledFrom([]uint32{0, 1, 2, 5, 4294967295}).Draw(t, "ref")
		n := 0
		if !o.noUDTArgs {
			n = rapid.IntRange(0, 3).Draw(t, "nparams")
		}
		for i := 0; i < n; i++ {
			d.Params = append(d.Params, genTPD(t, sub))
		}
	case "list":
		d.Kind = "list"
		d.Kids = []*TD{genTD(t, sub)}
	case "map":
		d.Kind = "map"
		d.Kids = []*TD{genTD(t, sub), genTD(t, sub)}
	case "struct":
		d.Kind = "struct"
		lo := 0
		if o.noEmpty {
			lo = 1
		}
		n := rapid.IntRange(lo, 4).Draw(t, "n")
		for i := 0; i < n; i++ {
			d.Kids = append(d.Kids, genTD(t, sub))
		}
	case "func":
		d.Kind = "func"
		d.Var = 0
		n := rapid.IntRange(1, 4).Draw(t, "n")
		for i := 0; i < n; i++ {
			d.Kids = append(d.Kids, genTD(t, sub))
		}
	}
	return d
}

func genTPD(t *rapid.T, o typeGenOpts) TPD {
	ks := []string{"null", "bool", "int", "enum", "string"}
	if o.depth >= 0 {
		ks = append(ks, "type", "type")
	}
	p := TPD{Kind: rapid.SampledFrom(ks).Draw(t, "pkind")}
	switch p.Kind {
	case "bool":
		p.B = rapid.Bool().Draw(t, "b")
	case "int":
		p.I = rapid.OneOf(rapid.Int64Range(-3, 50), rapid.Int64()).Draw(t, "i")
	case "enum", "string":
		p.Str = rapid.SampledFrom([]string{"", "a", "B", "x y"}).Draw(t, "str")
	case "type":
		p.T = genTD(t, o)
	}
	return p
}

func (d *TD) isNested() bool { return len(d.Kids) > 0 || d.Kind == "struct" }

func (d *TD) depth() int {
	m := 0
	for _, k := range d.Kids {
		if n := k.depth(); n > m {
			m = n
		}
	}
	return m + 1
}

func (d *TD) String() string {
	var b strings.Builder
	b.WriteString(d.Kind)
	b.WriteString([]string{"!", "?", ""}[d.Null])
	if d.Var != 0 {
		fmt.Fprintf(&b, "[var %d]", d.Var)
	}
	switch d.Kind {
	case "fixedchar", "varchar", "fixedbinary", "precision_time", "precision_timestamp", "precision_timestamp_tz", "interval_day", "interval_compound":
		fmt.Fprintf(&b, "<%d>", d.P)
	case "decimal":
		fmt.Fprintf(&b, "<%d,%d>", d.P, d.S)
	case "udt":
		fmt.Fprintf(&b, "#%d", d.Ref)
		for _, p := range d.Params {
			fmt.Fprintf(&b, " %s:%v/%d/%q/%v", p.Kind, p.B, p.I, p.Str, p.T)
		}
	case "list", "map", "struct", "func":
		b.WriteString("<")
		for i, k := range d.Kids {
			if i > 0 {
				b.WriteString(", ")
			}
			b.WriteString(k.String())
		}
		b.WriteString(">")
	}
	return b.String()
}

func (d *TD) clone() *TD {
	out := *d
	out.Kids = nil
	for _, k := range d.Kids {
		out.Kids = append(out.Kids, k.clone())
	}
	out.Params = nil
	for _, p := range d.Params {
		q := p
		if p.T != nil {
			q.T = p.T.clone()
		}
		out.Params = append(out.Params, q)
	}
	return &out
}

func (d *TD) withNull(n int) *TD { o := d.clone(); o.Null = n; return o }

func (d *TD) equal(o *TD) bool { return d.String() == o.String() }

// build makes a fresh Go type.
func (d *TD) build() types.Type {
	n := types.Nullability(d.Null)
	v := d.Var
	switch d.Kind {
	case "boolean":
		return &types.BooleanType{Nullability: n, TypeVariationRef: v}
	case "i8":
		return &types.Int8Type{Nullability: n, TypeVariationRef: v}
	case "i16":
		return &types.Int16Type{Nullability: n, TypeVariationRef: v}
	case "i32":
		return &types.Int32Type{Nullability: n, TypeVariationRef: v}
	case "i64":
		return &types.Int64Type{Nullability: n, TypeVariationRef: v}
	case "fp32":
		return &types.Float32Type{Nullability: n, TypeVariationRef: v}
	case "fp64":
		return &types.Float64Type{Nullability: n, TypeVariationRef: v}
	case "string":
		return &types.StringType{Nullability: n, TypeVariationRef: v}
	case "binary":
		return &types.BinaryType{Nullability: n, TypeVariationRef: v}
	case "date":
		return &types.DateType{Nullability: n, TypeVariationRef: v}
	case "time":
		return &types.TimeType{Nullability: n, TypeVariationRef: v}
	case "timestamp":
		return &types.TimestampType{Nullability: n, TypeVariationRef: v}
	case "timestamp_tz":
		return &types.TimestampTzType{Nullability: n, TypeVariationRef: v}
	case "interval_year":
		return &types.IntervalYearType{Nullability: n, TypeVariationRef: v}
	case "uuid":
		return &types.UUIDType{Nullability: n, TypeVariationRef: v}
	case "fixedchar":
		return &types.FixedCharType{Nullability: n, TypeVariationRef: v, Length: d.P}
	case "varchar":
		return &types.VarCharType{Nullability: n, TypeVariationRef: v, Length: d.P}
	case "fixedbinary":
		return &types.FixedBinaryType{Nullability: n, TypeVariationRef: v, Length: d.P}
	case "decimal":
		return &types.DecimalType{Nullability: n, TypeVariationRef: v, Precision: d.P, Scale: d.S}
	case "precision_time":
		return &types.PrecisionTimeType{Nullability: n, TypeVariationRef: v, Precision: types.TimePrecision(d.P)}
	case "precision_timestamp":
		return &types.PrecisionTimestampType{Nullability: n, TypeVariationRef: v, Precision: types.TimePrecision(d.P)}
	case "precision_timestamp_tz":
		return &types.PrecisionTimestampTzType{PrecisionTimestampType: types.PrecisionTimestampType{
			Nullability: n, TypeVariationRef: v, Precision: types.TimePrecision(d.P)}}
	case "interval_day":
		return &types.IntervalDayType{Nullability: n, TypeVariationRef: v, Precision: types.TimePrecision(d.P)}
	case "interval_compound":
		return types.NewIntervalCompoundType().WithPrecision(types.TimePrecision(d.P)).WithTypeVariationRef(v).WithNullability(n)
	case "list":
		return &types.ListType{Nullability: n, TypeVariationRef: v, Type: d.Kids[0].build()}
	case "map":
		return &types.MapType{Nullability: n, TypeVariationRef: v, Key: d.Kids[0].build(), Value: d.Kids[1].build()}
	case "struct":
		return &types.StructType{Nullability: n, TypeVariationRef: v, Types: buildAll(d.Kids)}
	case "func":
		l := len(d.Kids) - 1
		return &types.FuncType{Nullability: n, ParameterTypes: buildAll(d.Kids[:l]), ReturnType: d.Kids[l].build()}
	case "udt":
		ps := make([]types.TypeParam, len(d.Params))
		for i, p := range d.Params {
			switch p.Kind {
			case "null":
				ps[i] = types.NullParameter{}
			case "bool":
				ps[i] = types.BooleanParameter(p.B)
			case "int":
				ps[i] = types.IntegerParameter(p.I)
			case "enum":
				ps[i] = types.EnumParameter(p.Str)
			case "string":
				ps[i] = types.StringParameter(p.Str)
			case "type":
				ps[i] = &types.DataTypeParameter{Type: p.T.build()}
			}
		}
		return &types.UserDefinedType{Nullability: n, TypeVariationRef: v, TypeReference: d.Ref, TypeParameters: ps}
	}
	panic("TD kind " + d.Kind)
}

func buildAll(ds []*TD) []types.Type {
	out := make([]types.Type, len(ds))
	for i, k := range ds {
		out[i] = k.build()
	}
	return out
}

// proto makes the protobuf message, independently of the code under test.
func (d *TD) proto() *pb.Type {
	n := pb.Type_Nullability(d.Null)
	v := d.Var
	switch d.Kind {
	case "boolean":
		return &pb.Type{Kind: &pb.Type_Bool{Bool: &pb.Type_Boolean{Nullability: n, TypeVariationReference: v}}}
	case "i8":
		return &pb.Type{Kind: &pb.Type_I8_{I8: &pb.Type_I8{Nullability: n, TypeVariationReference: v}}}
	case "i16":
		return &pb.Type{Kind: &pb.Type_I16_{I16: &pb.Type_I16{Nullability: n, TypeVariationReference: v}}}
	case "i32":
		return &pb.Type{Kind: &pb.Type_I32_{I32: &pb.Type_I32{Nullability: n, TypeVariationReference: v}}}
	case "i64":
		return &pb.Type{Kind: &pb.Type_I64_{I64: &pb.Type_I64{Nullability: n, TypeVariationReference: v}}}
	case "fp32":
		return &pb.Type{Kind: &pb.Type_Fp32{Fp32: &pb.Type_FP32{Nullability: n, TypeVariationReference: v}}}
	case "fp64":
		return &pb.Type{Kind: &pb.Type_Fp64{Fp64: &pb.Type_FP64{Nullability: n, TypeVariationReference: v}}}
	case "string":
		return &pb.Type{Kind: &pb.Type_String_{String_: &pb.Type_String{Nullability: n, TypeVariationReference: v}}}
	case "binary":
		return &pb.Type{Kind: &pb.Type_Binary_{Binary: &pb.Type_Binary{Nullability: n, TypeVariationReference: v}}}
	case "date":
		return &pb.Type{Kind: &pb.Type_Date_{Date: &pb.Type_Date{Nullability: n, TypeVariationReference: v}}}
	case "time":
		return &pb.Type{Kind: &pb.Type_Time_{Time: &pb.Type_Time{Nullability: n, TypeVariationReference: v}}}
	case "timestamp":
		return &pb.Type{Kind: &pb.Type_Timestamp_{Timestamp: &pb.Type_Timestamp{Nullability: n, TypeVariationReference: v}}}
	case "timestamp_tz":
		return &pb.Type{Kind: &pb.Type_TimestampTz{TimestampTz: &pb.Type_TimestampTZ{Nullability: n, TypeVariationReference: v}}}
	case "interval_year":
		return &pb.Type{Kind: &pb.Type_IntervalYear_{IntervalYear: &pb.Type_IntervalYear{Nullability: n, TypeVariationReference: v}}}
	case "uuid":
		return &pb.Type{Kind: &pb.Type_Uuid{Uuid: &pb.Type_UUID{Nullability: n, TypeVariationReference: v}}}
	case "fixedchar":
		return &pb.Type{Kind: &pb.Type_FixedChar_{FixedChar: &pb.Type_FixedChar{Length: d.P, Nullability: n, TypeVariationReference: v}}}
	case "varchar":
		return &pb.Type{Kind: &pb.Type_Varchar{Varchar: &pb.Type_VarChar{Length: d.P, Nullability: n, TypeVariationReference: v}}}
	case "fixedbinary":
		return &pb.Type{Kind: &pb.Type_FixedBinary_{FixedBinary: &pb.Type_FixedBinary{Length: d.P, Nullability: n, TypeVariationReference: v}}}
	case "decimal":
		return &pb.Type{Kind: &pb.Type_Decimal_{Decimal: &pb.Type_Decimal{Precision: d.P, Scale: d.S, Nullability: n, TypeVariationReference: v}}}
	case "precision_time":
		return &pb.Type{Kind: &pb.Type_PrecisionTime_{PrecisionTime: &pb.Type_PrecisionTime{Precision: d.P, Nullability: n, TypeVariationReference: v}}}
	case "precision_timestamp":
		return &pb.Type{Kind: &pb.Type_PrecisionTimestamp_{PrecisionTimestamp: &pb.Type_PrecisionTimestamp{Precision: d.P, Nullability: n, TypeVariationReference: v}}}
	case "precision_timestamp_tz":
		return &pb.Type{Kind: &pb.Type_PrecisionTimestampTz{PrecisionTimestampTz: &pb.Type_PrecisionTimestampTZ{Precision: d.P, Nullability: n, TypeVariationReference: v}}}
	case "interval_day":
		return &pb.Type{Kind: &pb.Type_IntervalDay_{IntervalDay: &pb.Type_IntervalDay{Precision: proto.Int32(d.P), Nullability: n, TypeVariationReference: v}}}
	case "interval_compound":
		return &pb.Type{Kind: &pb.Type_IntervalCompound_{IntervalCompound: &pb.Type_IntervalCompound{Precision: d.P, Nullability: n, TypeVariationReference: v}}}
	case "list":
		return &pb.Type{Kind: &pb.Type_List_{List: &pb.Type_List{Type: d.Kids[0].proto(), Nullability: n, TypeVariationReference: v}}}
	case "map":
		return &pb.Type{Kind: &pb.Type_Map_{Map: &pb.Type_Map{Key: d.Kids[0].proto(), Value: d.Kids[1].proto(), Nullability: n, TypeVariationReference: v}}}
	case "struct":
		return &pb.Type{Kind: &pb.Type_Struct_{Struct: &pb.Type_Struct{Types: protoAll(d.Kids), Nullability: n, TypeVariationReference: v}}}
	case "func":
		l := len(d.Kids) - 1
		return &pb.Type{Kind: &pb.Type_Func_{Func: &pb.Type_Func{ParameterTypes: protoAll(d.Kids[:l]), ReturnType: d.Kids[l].proto(), Nullability: n}}}
	case "udt":
		ps := make([]*pb.Type_Parameter, len(d.Params))
		for i, p := range d.Params {
			switch p.Kind {
			case "null":
				ps[i] = &pb.Type_Parameter{Parameter: &pb.Type_Parameter_Null{Null: &emptypb.Empty{}}}
			case "bool":
				ps[i] = &pb.Type_Parameter{Parameter: &pb.Type_Parameter_Boolean{Boolean: p.B}}
			case "int":
				ps[i] = &pb.Type_Parameter{Parameter: &pb.Type_Parameter_Integer{Integer: p.I}}
			case "enum":
				ps[i] = &pb.Type_Parameter{Parameter: &pb.Type_Parameter_Enum{Enum: p.Str}}
			case "string":
				ps[i] = &pb.Type_Parameter{Parameter: &pb.Type_Parameter_String_{String_: p.Str}}
			case "type":
				ps[i] = &pb.Type_Parameter{Parameter: &pb.Type_Parameter_DataType{DataType: p.T.proto()}}
			}
		}
		return &pb.Type{Kind: &pb.Type_UserDefined_{UserDefined: &pb.Type_UserDefined{TypeReference: d.Ref, TypeParameters: ps, Nullability: n, TypeVariationReference: v}}}
	}
	panic("TD kind " + d.Kind)
}

func protoAll(ds []*TD) []*pb.Type {
	out := make([]*pb.Type, len(ds))
	for i, k := range ds {
		out[i] = k.proto()
	}
	return out
}

// tdFromProto reads a TD out of a protobuf type (the inverse of proto).
func tdFromProto(p *pb.Type) *TD {
	d := &TD{}
	setNV := func(n pb.Type_Nullability, v uint32) { d.Null = int(n); d.Var = v }
	kids := func(ts ...*pb.Type) {
		for _, t := range ts {
			d.Kids = append(d.Kids, tdFromProto(t))
		}
	}
	switch k := p.GetKind().(type) {
	case *pb.Type_Bool:
		d.Kind = "boolean"
		setNV(k.Bool.Nullability, k.Bool.TypeVariationReference)
	case *pb.Type_I8_:
		d.Kind = "i8"
		setNV(k.I8.Nullability, k.I8.TypeVariationReference)
	case *pb.Type_I16_:
		d.Kind = "i16"
		setNV(k.I16.Nullability, k.I16.TypeVariationReference)
	case *pb.Type_I32_:
		d.Kind = "i32"
		setNV(k.I32.Nullability, k.I32.TypeVariationReference)
	case *pb.Type_I64_:
		d.Kind = "i64"
		setNV(k.I64.Nullability, k.I64.TypeVariationReference)
	case *pb.Type_Fp32:
		d.Kind = "fp32"
		setNV(k.Fp32.Nullability, k.Fp32.TypeVariationReference)
	case *pb.Type_Fp64:
		d.Kind = "fp64"
		setNV(k.Fp64.Nullability, k.Fp64.TypeVariationReference)
	case *pb.Type_String_:
		d.Kind = "string"
		setNV(k.String_.Nullability, k.String_.TypeVariationReference)
	case *pb.Type_Binary_:
		d.Kind = "binary"
		setNV(k.Binary.Nullability, k.Binary.TypeVariationReference)
	case *pb.Type_Date_:
		d.Kind = "date"
		setNV(k.Date.Nullability, k.Date.TypeVariationReference)
	case *pb.Type_Time_:
		d.Kind = "time"
		setNV(k.Time.Nullability, k.Time.TypeVariationReference)
	case *pb.Type_Timestamp_:
		d.Kind = "timestamp"
		setNV(k.Timestamp.Nullability, k.Timestamp.TypeVariationReference)
	case *pb.Type_TimestampTz:
		d.Kind = "timestamp_tz"
		setNV(k.TimestampTz.Nullability, k.TimestampTz.TypeVariationReference)
	case *pb.Type_IntervalYear_:
		d.Kind = "interval_year"
		setNV(k.IntervalYear.Nullability, k.IntervalYear.TypeVariationReference)
	case *pb.Type_Uuid:
		d.Kind = "uuid"
		setNV(k.Uuid.Nullability, k.Uuid.TypeVariationReference)
	case *pb.Type_FixedChar_:
		d.Kind, d.P = "fixedchar", k.FixedChar.Length
		setNV(k.FixedChar.Nullability, k.FixedChar.TypeVariationReference)
	case *pb.Type_Varchar:
		d.Kind, d.P = "varchar", k.Varchar.Length
		setNV(k.Varchar.Nullability, k.Varchar.TypeVariationReference)
	case *pb.Type_FixedBinary_:
		d.Kind, d.P = "fixedbinary", k.FixedBinary.Length
		setNV(k.FixedBinary.Nullability, k.FixedBinary.TypeVariationReference)
	case *pb.Type_Decimal_:
		d.Kind, d.P, d.S = "decimal", k.Decimal.Precision, k.Decimal.Scale
		setNV(k.Decimal.Nullability, k.Decimal.TypeVariationReference)
	case *pb.Type_PrecisionTime_:
		d.Kind, d.P = "precision_time", k.PrecisionTime.Precision
		setNV(k.PrecisionTime.Nullability, k.PrecisionTime.TypeVariationReference)
	case *pb.Type_PrecisionTimestamp_:
		d.Kind, d.P = "precision_timestamp", k.PrecisionTimestamp.Precision
		setNV(k.PrecisionTimestamp.Nullability, k.PrecisionTimestamp.TypeVariationReference)
	case *pb.Type_PrecisionTimestampTz:
		d.Kind, d.P = "precision_timestamp_tz", k.PrecisionTimestampTz.Precision
		setNV(k.PrecisionTimestampTz.Nullability, k.PrecisionTimestampTz.TypeVariationReference)
	case *pb.Type_IntervalDay_:
		d.Kind, d.P = "interval_day", 6
		if k.IntervalDay.Precision != nil {
			d.P = *k.IntervalDay.Precision
		}
		setNV(k.IntervalDay.Nullability, k.IntervalDay.TypeVariationReference)
	case *pb.Type_IntervalCompound_:
		d.Kind, d.P = "interval_compound", k.IntervalCompound.Precision
		setNV(k.IntervalCompound.Nullability, k.IntervalCompound.TypeVariationReference)
	case *pb.Type_List_:
		d.Kind = "list"
		setNV(k.List.Nullability, k.List.TypeVariationReference)
		kids(k.List.Type)
	case *pb.Type_Map_:
		d.Kind = "map"
		setNV(k.Map.Nullability, k.Map.TypeVariationReference)
		kids(k.Map.Key, k.Map.Value)
	case *pb.Type_Struct_:
		d.Kind = "struct"
		setNV(k.Struct.Nullability, k.Struct.TypeVariationReference)
		kids(k.Struct.Types...)
	case *pb.Type_Func_:
		d.Kind = "func"
		setNV(k.Func.Nullability, 0)
		kids(k.Func.ParameterTypes...)
		kids(k.Func.ReturnType)
	case *pb.Type_UserDefined_:
		d.Kind, d.Ref = "udt", k.UserDefined.TypeReference
		setNV(k.UserDefined.Nullability, k.UserDefined.TypeVariationReference)
		for _, q := range k.UserDefined.TypeParameters {
			var x TPD
			switch y := q.Parameter.(type) {
			case *pb.Type_Parameter_Null:
				x.Kind = "null"
			case *pb.Type_Parameter_Boolean:
				x.Kind, x.B = "bool", y.Boolean
			case *pb.Type_Parameter_Integer:
				x.Kind, x.I = "int", y.Integer
			case *pb.Type_Parameter_Enum:
				x.Kind, x.Str = "enum", y.Enum
			case *pb.Type_Parameter_String_:
				x.Kind, x.Str = "string", y.String_
			case *pb.Type_Parameter_DataType:
				x.Kind, x.T = "type", tdFromProto(y.DataType)
			}
			d.Params = append(d.Params, x)
		}
	default:
		panic(fmt.Sprintf("tdFromProto: %T", k))
	}
	return d
}

// tdOf reads a TD out of a Go type through its serialised form.
func tdOf(t types.Type) *TD { return tdFromProto(types.TypeToProto(t)) }

// mutateTD returns a copy of d that differs in exactly one attribute somewhere.
func mutateTD(t *rapid.T, d *TD) (*TD, string) {
	out := d.clone()
	var nodes []*TD
	var walk func(x *TD)
	walk = func(x *TD) {
		nodes = append(nodes, x)
		for _, k := range x.Kids {
			walk(k)
		}
		for _, p := range x.Params {
			if p.T != nil {
				walk(p.T)
			}
		}
	}
	walk(out)
	x := nodes[rapid.IntRange(0, len(nodes)-1).Draw(t, "mutnode")]
	opts := []string{"null", "kind"}
	if x.Kind != "func" {
		opts = append(opts, "var")
	}
	switch x.Kind {
	case "fixedchar", "varchar", "fixedbinary", "precision_time", "precision_timestamp", "precision_timestamp_tz", "interval_day", "interval_compound":
		opts = append(opts, "p", "p", "samecls")
	case "decimal":
		opts = append(opts, "p", "s", "swap")
	case "struct":
		opts = append(opts, "addkid")
		if len(x.Kids) > 0 {
			opts = append(opts, "delkid")
		}
		if len(x.Kids) > 1 && x.Kids[0].String() != x.Kids[1].String() {
			opts = append(opts, "swapkids")
		}
	case "map":
		if x.Kids[0].String() != x.Kids[1].String() {
			opts = append(opts, "swapkids")
		}
	case "func":
		opts = append(opts, "addkid")
		if len(x.Kids) > 1 && x.Kids[0].String() != x.Kids[1].String() {
			opts = append(opts, "swapkids")
		}
		if len(x.Kids) > 1 {
			opts = append(opts, "delkid")
		}
	case "udt":
		opts = append(opts, "ref", "addparam")
		if len(x.Params) > 0 {
			opts = append(opts, "param", "param", "param", "delparam")
		}
		if len(x.Params) > 1 {
			opts = append(opts, "swapparams")
		}
	}
	op := rapid.SampledFrom(opts).Draw(t, "mut")
	switch op {
	case "null":
		x.Null = (x.Null + 1 + rapid.IntRange(0, 1).Draw(t, "dn")) % 3
	case "var":
		x.Var = nearU32(t, x.Var)
	case "p":
		if x.Kind == "decimal" || strings.HasPrefix(x.Kind, "precision") || strings.HasPrefix(x.Kind, "interval") {
			if x.P > 5 {
				x.P--
			} else {
				x.P++
			}
		} else if x.P > 10 {
			x.P--
		} else {
			x.P++
		}
		if x.Kind == "decimal" && x.S > x.P {
			x.P += 2
		}
	case "s":
		if x.S > 0 {
			x.S--
		} else {
			x.S++
			if x.P < x.S {
				x.S, x.P = 0, x.P+1
			}
		}
	case "swap":
		if x.P == x.S {
			x.P++
		}
		x.P, x.S = x.S, x.P
	case "kind":
		old := x.Kind
		for x.Kind == old {
			x.Kind = rapid.SampledFrom(simpleKinds).Draw(t, "newkind")
			if x.Kind == old {
				// choose deterministically the next one
				for i, k := range simpleKinds {
					if k == old {
						x.Kind = simpleKinds[(i+1)%len(simpleKinds)]
						break
					}
				}
			}
		}
		x.Kids, x.Params, x.P, x.S, x.Ref = nil, nil, 0, 0, 0
	case "samecls":
		ks := precKinds
		for _, l := range lenKinds {
			if l == x.Kind {
				ks = lenKinds
			}
		}
		for i, k := range ks {
			if k == x.Kind {
				x.Kind = ks[(i+1)%len(ks)]
				break
			}
		}
	case "addkid":
		x.Kids = append(x.Kids, &TD{Kind: "i32", Null: 2})
	case "delkid":
		x.Kids = x.Kids[:len(x.Kids)-1]
	case "swapkids":
		x.Kids[0], x.Kids[1] = x.Kids[1], x.Kids[0]
	case "ref":
		x.Ref = nearU32(t, x.Ref)
	case "addparam":
		p := TPD{Kind: "null"}
		if len(x.Params) > 0 && rapid.Bool().Draw(t, "repeat") {
			p = x.Params[len(x.Params)-1]
		}
		x.Params = append(x.Params, p)
	case "delparam":
		x.Params = x.Params[:len(x.Params)-1]
	case "swapparams":
		n := len(x.Params)
		x.Params[0], x.Params[n-1] = x.Params[n-1], x.Params[0]
	case "param":
		i := rapid.IntRange(0, len(x.Params)-1).Draw(t, "pi")
		p := &x.Params[i]
		switch p.Kind {
		case "null":
			p.Kind = "bool"
		case "bool":
			p.B = !p.B
		case "int":
			p.I ^= 1 << pick(t, 63)
		case "enum", "string":
			if pct(t, 25) {
				p.Kind = map[string]string{"enum": "string", "string": "enum"}[p.Kind]
			} else {
				p.Str = nearText(t, p.Str)
			}
		case "type":
			p.T = p.T.clone()
			p.T.Null = (p.T.Null + 1) % 3
		}
	}
	return out, op
}

func protoEq(a, b proto.Message) bool {
	// not proto.Equal, for which 0 and -0 are the same
	x, err1 := proto.MarshalOptions{Deterministic: true}.Marshal(a)
	y, err2 := proto.MarshalOptions{Deterministic: true}.Marshal(b)
	return err1 == nil && err2 == nil && string(x) == string(y)
}
