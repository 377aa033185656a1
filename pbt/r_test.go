package pbt

import (
	"fmt"
	"maps"
	"math"
	"reflect"
	"slices"
	"strings"
	"testing"

	"github.com/substrait-io/substrait-go/v8/expr"
	ext "github.com/substrait-io/substrait-go/v8/extensions"
	"github.com/substrait-io/substrait-go/v8/plan"
	"github.com/substrait-io/substrait-go/v8/types"
	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	pbext "github.com/substrait-io/substrait-protobuf/go/substraitpb/extensions"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"pgregory.net/rapid"
)

// oddScalar draws a value from the ends of the field's range.
func oddScalar(t *rapid.T, f protoreflect.FieldDescriptor) protoreflect.Value {
	n := pick(t, 14)
	i := []int64{0, 1, -1, 2, 3, 6, 9, 10, 18, 38, 39, math.MaxInt32, math.MinInt32, 100}[n]
	l := i
	if n == 11 {
		l = math.MaxInt64
	} else if n == 12 {
		l = math.MinInt64
	}
	switch f.Kind() {
	case protoreflect.BoolKind:
		return protoreflect.ValueOfBool(n%2 == 0)
	case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
		return protoreflect.ValueOfInt32(int32(i))
	case protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind:
		return protoreflect.ValueOfInt64(l)
	case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
		return protoreflect.ValueOfUint32(uint32(i))
	case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
		return protoreflect.ValueOfUint64(uint64(l))
	case protoreflect.FloatKind:
		return protoreflect.ValueOfFloat32([]float32{0, float32(math.NaN()), float32(math.Inf(1)), 1, -1}[n%5])
	case protoreflect.DoubleKind:
		return protoreflect.ValueOfFloat64([]float64{0, math.NaN(), math.Inf(-1), 1e308, -1}[n%5])
	case protoreflect.StringKind:
		return protoreflect.ValueOfString([]string{"", "a", "add:i32_i32", ":", "a:b:c", "x\x00y", "\u00e9\u4e16", "_:", "total:i32", strings.Repeat("long", 50)}[n%10])
	case protoreflect.BytesKind:
		return protoreflect.ValueOfBytes(make([]byte, []int{0, 1, 7, 8, 9, 15, 16, 17, 40}[n%9]))
	}
	vs := f.Enum().Values()
	if n < 9 {
		return protoreflect.ValueOfEnum(vs.Get(pick(t, vs.Len())).Number())
	}
	return protoreflect.ValueOfEnum([]protoreflect.EnumNumber{99, -1, math.MaxInt32, math.MinInt32, protoreflect.EnumNumber(vs.Len())}[n-9])
}

// fill sets some of the fields of a message to anything.
func fill(t *rapid.T, m protoreflect.Message, depth int) {
	fs := m.Descriptor().Fields()
	chosen := map[string]protoreflect.FieldDescriptor{}
	for i := 0; i < m.Descriptor().Oneofs().Len(); i++ {
		o := m.Descriptor().Oneofs().Get(i)
		if !pct(t, 10) {
			chosen[string(o.Name())] = o.Fields().Get(pick(t, o.Fields().Len()))
		}
	}
	for i := 0; i < fs.Len(); i++ {
		f := fs.Get(i)
		if o := f.ContainingOneof(); o != nil {
			if chosen[string(o.Name())] != f {
				continue
			}
		} else if !pct(t, 60) {
			continue
		}
		sub := func(v protoreflect.Message) protoreflect.Value {
			if depth > 0 {
				fill(t, v, depth-1)
			}
			return protoreflect.ValueOfMessage(v)
		}
		switch {
		case f.IsMap():
		case f.IsList():
			l := m.Mutable(f).List()
			for n := rapid.IntRange(0, 2).Draw(t, "n"); n > 0; n-- {
				if f.Message() != nil {
					l.Append(sub(l.NewElement().Message()))
				} else {
					l.Append(oddScalar(t, f))
				}
			}
		case f.Message() != nil:
			m.Set(f, sub(m.NewField(f).Message()))
		default:
			m.Set(f, oddScalar(t, f))
		}
	}
}

// wreck makes one change to a message that need not leave anything meaningful.
func wreck(t *rapid.T, root proto.Message) string {
	ns := messagesOf(root)
	for try := 0; try < 20; try++ {
		n := pickNode(t, ns)
		fs := n.m.Descriptor().Fields()
		if fs.Len() == 0 {
			continue
		}
		f := fs.Get(pick(t, fs.Len()))
		if f.IsMap() {
			continue
		}
		name := string(n.m.Descriptor().Name()) + "." + string(f.Name())
		msg := func(v protoreflect.Message) protoreflect.Value {
			switch pick(t, 4) {
			case 0:
				return protoreflect.ValueOfMessage(v)
			case 1:
				fill(t, v, 2)
				return protoreflect.ValueOfMessage(v)
			}
			var of []protoreflect.Message
			for _, k := range ns {
				if k.m.Descriptor().FullName() == f.Message().FullName() {
					of = append(of, k.m)
				}
			}
			if len(of) == 0 {
				return protoreflect.ValueOfMessage(v)
			}
			return protoreflect.ValueOfMessage(proto.Clone(of[pick(t, len(of))].Interface()).ProtoReflect())
		}
		switch {
		case f.IsList():
			l := n.m.Mutable(f).List()
			k := pick(t, 4)
			if k == 0 && l.Len() > 0 {
				l.Truncate(pick(t, l.Len()))
				return name + " cut"
			}
			el := func() protoreflect.Value {
				if f.Message() != nil {
					return msg(l.NewElement().Message())
				}
				return oddScalar(t, f)
			}
			if k == 1 && l.Len() > 0 {
				l.Set(pick(t, l.Len()), el())
				return name + " element"
			}
			l.Append(el())
			return name + " longer"
		case n.m.Has(f) && pct(t, 35):
			n.m.Clear(f)
			return name + " cleared"
		case f.Message() != nil:
			n.m.Set(f, msg(n.m.NewField(f).Message()))
			return name + " message"
		default:
			n.m.Set(f, oddScalar(t, f))
			return name + " value"
		}
	}
	return ""
}

// methods calls every method of a value that takes no arguments.
func methods(v any) {
	if isNil(v) {
		return
	}
	r := reflect.ValueOf(v)
	for i := 0; i < r.NumMethod(); i++ {
		m := r.Method(i)
		n := r.Type().Method(i).Name
		if m.Type().NumIn() == 0 && !strings.HasPrefix(n, "Reset") && !strings.HasPrefix(n, "Descriptor") {
			m.Call(nil)
		}
	}
}

func useType(ty types.Type) {
	if isNil(ty) {
		return
	}
	methods(ty)
	_ = ty.Equals(ty)
	for _, n := range []types.Nullability{types.NullabilityRequired, types.NullabilityNullable, types.NullabilityUnspecified} {
		_ = ty.WithNullability(n).String()
	}
	_ = types.TypeToProto(ty).String()
	_ = fmt.Sprint(ty)
	for _, p := range ty.GetParameters() {
		if k, ok := p.(types.Type); ok {
			useType(k)
		}
	}
}

// useExpr asks an expression for everything it can tell.
func useExpr(e expr.Expression) {
	if isNil(e) {
		return
	}
	_ = e.String()
	useType(e.GetType())
	m := e.ToProto()
	_ = m.String()
	_ = e.ToProtoFuncArg().String()
	_ = e.Equals(e)
	_ = e.IsScalar()
	switch e.(type) {
	case *plan.ScalarSubquery, *plan.InPredicateSubquery, *plan.SetPredicateSubquery, *plan.SetComparisonSubquery:
	default:
		methods(e)
	}
	if l, ok := e.(expr.Literal); ok {
		_ = l.ValueString()
		_ = l.ToProtoLiteral().String()
	}
	if f, ok := e.(*expr.FieldReference); ok {
		if r, ok := f.Root.(expr.Expression); ok {
			useExpr(r)
		}
	}
	e.Visit(func(k expr.Expression) expr.Expression {
		useExpr(k)
		return k
	})
	switch s := e.(type) {
	case *plan.ScalarSubquery:
		useRel(s.Input)
	case *plan.InPredicateSubquery:
		useRel(s.Haystack)
	case *plan.SetPredicateSubquery:
		useRel(s.Tuples)
	case *plan.SetComparisonSubquery:
		useRel(s.Right)
	}
}

func useRecord(rt types.RecordType) {
	_ = rt.String()
	for _, ty := range rt.Types() {
		useType(ty)
	}
	for i := int32(0); i < rt.FieldCount(); i++ {
		useType(rt.GetFieldRef(i))
	}
}

// oddEmit is told of an undecoded extension relation with a mapping that panics.
var oddEmit func(r plan.Rel)

// emitPanics reports whether an undecoded extension relation maps columns beyond those it is
// taken to have, and panics when asked for its schema.
func emitPanics(r plan.Rel) (odd bool) {
	var d plan.ExtensionRelDefinition
	switch x := r.(type) {
	case *plan.ExtensionSingleRel:
		d = x.Definition()
	case *plan.ExtensionLeafRel:
		d = x.Definition()
	case *plan.ExtensionMultiRel:
		d = x.Definition()
	}
	if u, ok := d.(*plan.UndecodedExtension); ok {
		s := u.Schema(r.GetInputs())
		for _, m := range r.OutputMapping() {
			if m < 0 || m >= s.FieldCount() {
				func() {
					defer func() { odd = recover() != nil }()
					r.RecordType()
				}()
				return
			}
		}
	}
	return false
}

func useRel(r plan.Rel) {
	if isNil(r) {
		return
	}
	if emitPanics(r) {
		oddEmit(r)
		_ = r.ToProto().String()
		return
	}
	useRecord(r.RecordType())
	methods(r)
	_ = r.ToProto().String()
	_ = r.ToProtoPlanRel().String()
	for _, x := range relExprs(r) {
		switch e := x.(type) {
		case expr.Expression:
			useExpr(e)
		case *expr.AggregateFunction:
			useAgg(e)
		}
	}
	if b, ok := r.(plan.ReadRel); ok {
		s := b.BaseSchema()
		_ = s.String()
		_ = s.ToProto().String()
		if b.Projection() != nil {
			_ = b.Projection().ToProto().String()
			methods(b.Projection())
		}
	}
	if _, err := r.Copy(r.GetInputs()...); err == nil {
		if k, err := r.CopyWithExpressionRewrite(func(e expr.Expression) (expr.Expression, error) { return e, nil }, r.GetInputs()...); err == nil {
			_ = k.ToProto()
		}
	}
	if k, err := r.Remap(0); err == nil {
		useRecord(k.RecordType())
		_ = k.ToProto()
	}
	for _, k := range r.GetInputs() {
		useRel(k)
	}
}

func useAgg(f *expr.AggregateFunction) {
	if f == nil {
		return
	}
	methods(f)
	_ = f.ToProto().String()
	useType(f.GetType())
	for i := 0; i < f.NArgs(); i++ {
		useArg(f.Arg(i))
	}
	for _, s := range f.Sorts {
		_ = s.ToProto().String()
		useExpr(s.Expr)
	}
}

func useArg(a types.FuncArg) {
	switch x := a.(type) {
	case nil:
	case expr.Expression:
		useExpr(x)
	case types.Type:
		useType(x)
	default:
		_ = fmt.Sprint(a)
		_ = a.ToProtoFuncArg().String()
	}
}

func usePlan(p *plan.Plan) {
	methods(p)
	if m, err := p.ToProto(); err == nil {
		_ = m.String()
	}
	_ = p.Version().String()
	for _, r := range p.Relations() {
		if r.IsRoot() {
			root := r.Root()
			_ = root.Names()
			if !emitPanics(root.Input()) {
				rt := root.RecordType()
				_ = rt.String()
				_ = rt.ToProto().String()
			}
			useRel(root.Input())
		} else {
			useRel(r.Rel())
		}
	}
	for _, b := range p.ParameterBindings() {
		useExpr(b.Value)
	}
}

// viaWire sends a message through its bytes; what cannot be written cannot be read either.
func viaWire[M proto.Message](m M) (out M, ok bool) {
	b, err := proto.Marshal(m)
	if err != nil {
		return out, false
	}
	out = m.ProtoReflect().New().Interface().(M)
	return out, proto.Unmarshal(b, out) == nil
}

func TestR01(t *testing.T) {
	p := start(t, "R01", "valid plans, relations, expressions, extended expressions, types, literals and parts of them with 1 to 5 fields cleared, replaced by ends of their range, unknown enumeration "+
		"values, empty, foreign or random messages; and wholly random messages; deeply nested ones; whatever is read without an error is asked for everything it can tell; "+
		"non-trivial = the message was accepted, or refused after at least one wrecked field")
	defer p.finish()

	decoders := map[string]expr.ExtensionRelDecoder{defURL: vdec{}}
	ask := func(c *C) {
		oddEmit = func(r plan.Rel) {
			c.Soft("undecoded_emit", "the schema of %s panics", r.ToProto())
		}
	}
	wreckN := func(c *C, m proto.Message) string {
		var what []string
		for n := rapid.IntRange(1, 5).Draw(c.T, "nwrecks"); n > 0; n-- {
			what = append(what, wreck(c.T, m))
		}
		return strings.Join(what, ", ")
	}
	outcome := func(c *C, err error) {
		if err == nil {
			c.Label("accepted")
		} else {
			c.Label("refused")
		}
	}

	p.sub("plans", 8000, func(c *C) {
		ask(c)
		pm := genPM(c.T, RCtx{msg: true, edepth: 1, write: true}, 2)
		in := pm.proto(false)
		what := wreckN(c, in)
		m, ok := viaWire(in)
		if !ok {
			return
		}
		c.Case(true, "%s in %s", what, m)
		c.NoPanic("plan", func() {
			var got *plan.Plan
			var err error
			if rapid.Bool().Draw(c.T, "decoders") {
				got, err = plan.FromProtoWithDecoder(m, eCol(), decoders)
			} else {
				got, err = plan.FromProto(m, eCol())
			}
			outcome(c, err)
			if err == nil {
				usePlan(got)
			}
		})
	})

	p.sub("relations", 6000, func(c *C) {
		ask(c)
		w := genWorld(c.T)
		in := genRM(c.T, RCtx{msg: true, edepth: 1, write: true}, rapid.IntRange(0, 2).Draw(c.T, "depth")).proto(w, false)
		what := "random"
		if pct(c.T, 10) {
			in = &pb.Rel{}
			fill(c.T, in.ProtoReflect(), 5)
		} else {
			what = wreckN(c, in)
		}
		m, ok := viaWire(in)
		if !ok {
			return
		}
		c.Case(true, "%s in %s", what, m)
		reg := w.decReg(c)
		c.NoPanic("relation", func() {
			got, err := plan.RelFromProto(m, reg)
			outcome(c, err)
			if err == nil {
				c.Check(!isNil(got), "nothing", "neither a relation nor an error")
				useRel(got)
			}
		})
	})

	p.sub("expressions", 8000, func(c *C) {
		ask(c)
		w := genWorld(c.T)
		x := ECtx{cols: &ECols{}, msg: true}
		in := genEX(c.T, x, genWantTD(c.T), 2).proto(w)
		what := "random"
		if pct(c.T, 15) {
			in = &pb.Expression{}
			fill(c.T, in.ProtoReflect(), 6)
		} else {
			what = wreckN(c, in)
		}
		m, ok := viaWire(in)
		if !ok {
			return
		}
		c.Case(true, "%s in %s over %v", what, m, x.cols.T)
		reg := w.decReg(c)
		var schema *types.RecordType
		switch pick(c.T, 4) {
		case 0:
		case 1:
			schema = (&ECols{}).record()
		default:
			schema = x.cols.record()
		}
		c.NoPanic("expression", func() {
			got, err := expr.ExprFromProto(m, schema, reg)
			outcome(c, err)
			if err == nil {
				c.Check(!isNil(got), "nothing", "neither an expression nor an error")
				useExpr(got)
			}
			a, err := expr.FuncArgFromProto(&pb.FunctionArgument{ArgType: &pb.FunctionArgument_Value{Value: m}}, schema, reg)
			if err == nil {
				useArg(a)
			}
			if f := m.GetSelection(); f != nil {
				if r, err := expr.FieldReferenceFromProto(f, schema, reg); err == nil {
					useExpr(r)
				}
			}
		})
	})

	p.sub("extended", 4000, func(c *C) {
		w := genWorld(c.T)
		x := ECtx{cols: &ECols{}, msg: true, noSub: true}
		in := &pb.ExtendedExpression{ExtensionUrns: w.URNs, Extensions: w.Decls, Version: &pb.Version{MinorNumber: 85}}
		for n := rapid.IntRange(1, 2).Draw(c.T, "n"); n > 0; n-- {
			r := &pb.ExpressionReference{OutputNames: []string{"a"}}
			if pct(c.T, 50) {
				r.ExprType = &pb.ExpressionReference_Measure{Measure: genAgg(c.T, x, 1).aggProto(w)}
			} else {
				r.ExprType = &pb.ExpressionReference_Expression{Expression: genEX(c.T, x, genWantTD(c.T), 1).proto(w)}
			}
			in.ReferredExpr = append(in.ReferredExpr, r)
		}
		in.BaseSchema = schemaProto(x.cols.names(), x.cols)
		in = wire(in)
		what := wreckN(c, in)
		m, ok := viaWire(in)
		if !ok {
			return
		}
		c.Case(true, "%s in %s", what, m)
		c.NoPanic("extended", func() {
			got, err := expr.ExtendedFromProto(m, eCol())
			outcome(c, err)
			if err == nil {
				_ = got.ToProto().String()
				for _, r := range got.ReferredExpr {
					useExpr(r.GetExpr())
					useAgg(r.GetMeasure())
				}
				_ = got.BaseSchema.String()
			}
			for _, r := range m.ReferredExpr {
				if a := r.GetMeasure(); a != nil {
					if f, err := expr.NewAggregateFunctionFromProto(a, x.cols.record(), w.reg(c)); err == nil {
						useAgg(f)
					}
				}
			}
		})
	})

	p.sub("types", 8000, func(c *C) {
		var in *pb.Type
		what := "random"
		if pct(c.T, 40) {
			in = &pb.Type{}
			fill(c.T, in.ProtoReflect(), 5)
		} else {
			in = genETD(c.T).proto()
			what = wreckN(c, in)
		}
		m, ok := viaWire(in)
		if !ok {
			return
		}
		c.Case(true, "%s: %s", what, m)
		c.NoPanic("type", func() {
			got := types.TypeFromProto(m)
			if !isNil(got) {
				c.Label("accepted")
				useType(got)
			} else {
				c.Label("refused")
			}
			for _, n := range messagesOf(m) {
				switch k := n.m.Interface().(type) {
				case *pb.Type_Parameter:
					if q := types.TypeParamFromProto(k); q != nil {
						_ = fmt.Sprint(q)
						_ = q.ToProto().String()
					}
				case *pb.Type_Struct:
					s := types.NewNamedStructFromProto(&pb.NamedStruct{Names: []string{"a"}, Struct: k})
					if s.Validate() == nil {
						_ = s.String()
						_ = s.ToProto().String()
					}
				}
			}
		})
	})

	p.sub("literals", 8000, func(c *C) {
		var in *pb.Expression_Literal
		what := "random"
		if pct(c.T, 40) {
			in = &pb.Expression_Literal{}
			fill(c.T, in.ProtoReflect(), 5)
		} else {
			d := genLitTD(c.T, typeGenOpts{depth: 2, noFunc: true, noUnspec: true, decimalOK: true})
			in = genLV(c.T, d).proto()
			what = wreckN(c, in)
		}
		m, ok := viaWire(in)
		if !ok {
			return
		}
		c.Case(true, "%s: %s", what, m)
		c.NoPanic("literal", func() {
			got := expr.LiteralFromProto(m)
			if !isNil(got) {
				c.Label("accepted")
				useExpr(got)
			} else {
				c.Label("refused")
			}
			if s := m.GetStruct(); s != nil {
				for _, f := range expr.StructLiteralFromProto(s) {
					if !isNil(f) {
						useExpr(f)
					}
				}
			}
			if e, err := expr.ExprFromProto(&pb.Expression{RexType: &pb.Expression_Literal_{Literal: m}}, nil, expr.NewEmptyExtensionRegistry(eCol())); err == nil {
				c.Check(!isNil(e), "nothing", "neither an expression nor an error")
				useExpr(e)
			}
		})
	})

	p.sub("parts", 6000, func(c *C) {
		w := genWorld(c.T)
		reg := w.decReg(c)
		x := ECtx{cols: &ECols{}, msg: true, noSub: true}
		schema := func() *types.RecordType {
			if pct(c.T, 30) {
				return nil
			}
			return x.cols.record()
		}
		odd := func(m proto.Message) {
			if pct(c.T, 40) {
				proto.Reset(m)
				fill(c.T, m.ProtoReflect(), 4)
			} else {
				wreckN(c, m)
			}
		}
		kind := rapid.SampledFrom([]string{"mask", "segment", "bound", "sort", "arg", "agg", "schema", "row", "set"}).Draw(c.T, "kind")
		c.Label(kind)
		c.NoPanic(kind, func() {
			switch kind {
			case "mask":
				m := &pb.Expression_MaskExpression{}
				fill(c.T, m.ProtoReflect(), 5)
				if m, ok := viaWire(m); ok {
					c.Case(true, "%s", m)
					if k := expr.MaskExpressionFromProto(m); k != nil {
						methods(k)
						_ = k.ToProto().String()
						_ = fmt.Sprint(k)
					}
				}
			case "segment":
				m := &pb.Expression_ReferenceSegment{}
				fill(c.T, m.ProtoReflect(), 5)
				if m, ok := viaWire(m); ok {
					c.Case(true, "%s", m)
					if k := expr.RefSegmentFromProto(m); !isNil(k) {
						methods(k)
						if ty, err := k.GetType(genETD(c.T).build()); err == nil {
							useType(ty)
						}
						_ = k.Equals(k)
					}
				}
			case "bound":
				m := &pb.Expression_WindowFunction_Bound{}
				fill(c.T, m.ProtoReflect(), 3)
				if m, ok := viaWire(m); ok {
					c.Case(true, "%s", m)
					if k := expr.BoundFromProto(m); !isNil(k) {
						methods(k)
					}
				}
			case "sort":
				m := sortProto(genEX(c.T, x, genWantTD(c.T), 1), 1, w)
				odd(m)
				if m, ok := viaWire(m); ok {
					c.Case(true, "%s", m)
					if k, err := expr.SortFieldFromProto(m, schema(), reg); err == nil {
						_ = k.ToProto().String()
						useExpr(k.Expr)
					}
				}
			case "arg":
				m := &pb.FunctionArgument{}
				fill(c.T, m.ProtoReflect(), 5)
				if m, ok := viaWire(m); ok {
					c.Case(true, "%s", m)
					if k, err := expr.FuncArgFromProto(m, schema(), reg); err == nil {
						useArg(k)
					}
				}
			case "agg":
				m := wire(genAgg(c.T, x, 1).aggProto(w))
				odd(m)
				if m, ok := viaWire(m); ok {
					c.Case(true, "%s", m)
					if k, err := expr.NewAggregateFunctionFromProto(m, schema(), reg); err == nil {
						useAgg(k)
					}
				}
			case "schema":
				m := schemaProto([]string{"a", "b"}, &ECols{T: []*TD{genETD(c.T), genETD(c.T)}})
				odd(m)
				if m, ok := viaWire(m); ok {
					c.Case(true, "%s", m)
					if k := types.NewNamedStructFromProto(m); k.Validate() == nil {
						_ = k.String()
						_ = k.ToProto().String()
						useRecord(*types.NewRecordTypeFromStruct(k.Struct))
					}
				}
			case "row":
				m := &pb.Expression_Literal_Struct{}
				fill(c.T, m.ProtoReflect(), 5)
				if m, ok := viaWire(m); ok {
					c.Case(true, "%s", m)
					for _, f := range expr.StructLiteralFromProto(m) {
						if !isNil(f) {
							useExpr(f)
						}
					}
				}
			case "set":
				m := &pb.Plan{ExtensionUrns: w.URNs, Extensions: w.Decls}
				m = wire(m)
				for i := rapid.IntRange(1, 3).Draw(c.T, "n"); i > 0; i-- {
					wreck(c.T, m)
				}
				if pct(c.T, 40) {
					d := &pbext.SimpleExtensionDeclaration{}
					fill(c.T, d.ProtoReflect(), 3)
					m.Extensions = append(m.Extensions, d)
				}
				if m, ok := viaWire(m); ok {
					c.Case(true, "%s", m)
					s, err := ext.GetExtensionSet(m, eCol())
					if err == nil {
						u, ds := s.ToProto(eCol())
						_ = fmt.Sprint(u, ds)
						for a := uint32(0); a < 20; a++ {
							s.DecodeFunc(a)
							s.DecodeType(a)
							s.DecodeTypeVariation(a)
							s.LookupScalarFunction(a, eCol())
							s.LookupAggregateFunction(a, eCol())
							s.LookupWindowFunction(a, eCol())
							s.LookupType(a, eCol())
							s.LookupTypeVariation(a, eCol())
						}
					}
				}
			}
		})
	})

	p.sub("deep", 150, func(c *C) {
		// nested by far more than any plan; work that doubles with each level would not end
		w := genWorld(c.T)
		n := rapid.IntRange(40, 120).Draw(c.T, "levels")
		if rapid.Bool().Draw(c.T, "relation") {
			kinds := []string{"filter", "project", "fetch", "sort", "agg", "join", "cross", "set", "hash", "merge", "extsingle", "extmulti", "write"}
			k := kinds[pick(c.T, len(kinds))]
			mixed := pct(c.T, 30)
			x := RCtx{msg: true, edepth: 0, noSub: true}
			r := genLeaf(c.T, RCtx{msg: true, noExt: true}, []*TD{boolTD(1), {Kind: "i32", Null: 2}})
			for i := 0; i < n; i++ {
				prev, used := r, false
				x.input = func(t *rapid.T) *RM {
					if used {
						return genLeaf(t, RCtx{msg: true, noExt: true}, []*TD{boolTD(1)})
					}
					used = true
					return prev
				}
				if mixed {
					k = kinds[pick(c.T, len(kinds))]
				}
				if len(prev.cols()) > 6 || len(prev.cols()) == 0 && k != "extsingle" {
					c.Label("reduced")
					m := []int32{0}
					if len(prev.cols()) == 0 {
						break
					}
					r = prev.remapped(m)
					prev = r
				}
				r = genKind(c.T, x, k, 1)
				if len(r.In) == 0 {
					r = prev
				}
				if r.Decoded || len(r.Base.colsOrNil()) > 6 {
					r = prev
				}
			}
			c.Case(true, "%d levels of %s, mixed %v", n, k, mixed)
			c.Label(k)
			m := r.proto(w, false)
			c.NoPanic("deep relation", func() {
				got, err := plan.RelFromProto(wire(m), w.decReg(c))
				if err == nil {
					c.Label("accepted")
					rt := got.RecordType()
					_ = rt.String()
					_ = got.ToProto()
					_, _ = got.CopyWithExpressionRewrite(func(e expr.Expression) (expr.Expression, error) { return e, nil }, got.GetInputs()...)
				} else {
					c.Label("refused")
				}
			})
			return
		}
		k := rapid.SampledFrom([]string{"cast", "if", "fn", "list", "sub", "struct"}).Draw(c.T, "expr")
		d := &TD{Kind: "i32", Null: 1}
		e := &EX{K: "lit", T: d, LV: genLV(c.T, d)}
		m := e.proto(w)
		for i := 0; i < n; i++ {
			switch k {
			case "cast":
				m = &pb.Expression{RexType: &pb.Expression_Cast_{Cast: &pb.Expression_Cast{Type: d.proto(), Input: m, FailureBehavior: 1}}}
			case "if":
				m = &pb.Expression{RexType: &pb.Expression_IfThen_{IfThen: &pb.Expression_IfThen{Else: m, Ifs: []*pb.Expression_IfThen_IfClause{{
					If: &pb.Expression{RexType: &pb.Expression_Literal_{Literal: &pb.Expression_Literal{LiteralType: &pb.Expression_Literal_Boolean{Boolean: true}}}}, Then: e.proto(w)}}}}}
			case "fn":
				m = &pb.Expression{RexType: &pb.Expression_ScalarFunction_{ScalarFunction: &pb.Expression_ScalarFunction{FunctionReference: w.Anchor["add32"], OutputType: d.proto(),
					Arguments: []*pb.FunctionArgument{{ArgType: &pb.FunctionArgument_Value{Value: m}}, {ArgType: &pb.FunctionArgument_Value{Value: e.proto(w)}}}}}}
			case "list":
				m = &pb.Expression{RexType: &pb.Expression_Nested_{Nested: &pb.Expression_Nested{NestedType: &pb.Expression_Nested_List_{List: &pb.Expression_Nested_List{Values: []*pb.Expression{m}}}}}}
			case "struct":
				m = &pb.Expression{RexType: &pb.Expression_Nested_{Nested: &pb.Expression_Nested{NestedType: &pb.Expression_Nested_Struct_{Struct: &pb.Expression_Nested_Struct{Fields: []*pb.Expression{m}}}}}}
			case "sub":
				m = &pb.Expression{RexType: &pb.Expression_Subquery_{Subquery: &pb.Expression_Subquery{SubqueryType: &pb.Expression_Subquery_Scalar_{Scalar: &pb.Expression_Subquery_Scalar{
					Input: &pb.Rel{RelType: &pb.Rel_Read{Read: &pb.ReadRel{BaseSchema: schemaProto([]string{"a"}, &ECols{T: []*TD{d}}), ReadType: &pb.ReadRel_NamedTable_{NamedTable: &pb.ReadRel_NamedTable{Names: []string{"t"}}},
						Filter: &pb.Expression{RexType: &pb.Expression_Cast_{Cast: &pb.Expression_Cast{Type: boolTD(1).proto(), Input: m, FailureBehavior: 1}}}}}}}}}}}
			}
		}
		c.Case(true, "%d levels of %s", n, k)
		c.Label(k)
		c.NoPanic("deep expression", func() {
			got, err := expr.ExprFromProto(wire(m), x0(), w.decReg(c))
			if err == nil {
				c.Label("accepted")
				_ = got.String()
				_ = got.GetType().String()
				_ = got.ToProto()
				_ = got.Equals(got)
				got.Visit(func(e expr.Expression) expr.Expression { return e })
			} else {
				c.Label("refused")
			}
		})
	})

	p.sub("nothing", 1, func(c *C) {
		reg := genWorld(c.T).decReg(c)
		c.Case(true, "nil messages")
		fs := map[string]func() bool{
			"RelFromProto":           func() bool { r, err := plan.RelFromProto(nil, reg); return err != nil || !isNil(r) },
			"ExprFromProto":          func() bool { r, err := expr.ExprFromProto(nil, nil, reg); return err != nil || !isNil(r) },
			"FuncArgFromProto":       func() bool { _, err := expr.FuncArgFromProto(nil, nil, reg); return err != nil },
			"FromProto":              func() bool { _, err := plan.FromProto(&pb.Plan{}, eCol()); _ = err; return true },
			"nil FromProto":          func() bool { r, err := plan.FromProto(nil, eCol()); return err != nil || r != nil },
			"ExtendedFromProto":      func() bool { _, err := expr.ExtendedFromProto(&pb.ExtendedExpression{}, eCol()); _ = err; return true },
			"nil ExtendedFromProto":  func() bool { r, err := expr.ExtendedFromProto(nil, eCol()); return err != nil || r != nil },
			"LiteralFromProto":       func() bool { useExpr(expr.LiteralFromProto(nil)); return true },
			"TypeFromProto":          func() bool { useType(types.TypeFromProto(nil)); return true },
			"TypeParamFromProto":     func() bool { types.TypeParamFromProto(nil); return true },
			"NamedStruct":            func() bool { s := types.NewNamedStructFromProto(nil); return s.String() != "?" },
			"FieldReference":         func() bool { _, err := expr.FieldReferenceFromProto(nil, nil, reg); return err != nil },
			"MaskExpression":         func() bool { expr.MaskExpressionFromProto(nil); return true },
			"RefSegment":             func() bool { expr.RefSegmentFromProto(nil); return true },
			"Bound":                  func() bool { expr.BoundFromProto(nil); return true },
			"SortField":              func() bool { _, err := expr.SortFieldFromProto(nil, nil, reg); return err != nil },
			"AggregateFunction":      func() bool { _, err := expr.NewAggregateFunctionFromProto(nil, nil, reg); return err != nil },
			"StructLiteralFromProto": func() bool { expr.StructLiteralFromProto(nil); return true },
		}
		for _, k := range slices.Sorted(maps.Keys(fs)) {
			f := fs[k]
			ok := false
			c.NoPanic("nil "+k, func() { ok = f() })
			c.Check(ok, "nil:"+k, "%s of nothing is neither an error nor a result", k)
		}
	})
}

func x0() *types.RecordType { return (&ECols{}).record() }

func (s *ECols) colsOrNil() []*TD {
	if s == nil {
		return nil
	}
	return s.T
}
