package pbt

import (
	"github.com/substrait-io/substrait-go/v8/expr"
	ext "github.com/substrait-io/substrait-go/v8/extensions"
	"github.com/substrait-io/substrait-go/v8/types"
	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"
)

// eAnyFn is what the function calls of the three kinds have in common.
type eAnyFn interface {
	Name() string
	CompoundName() string
	ID() ext.FunctionID
	Variadic() *ext.VariadicBehavior
	SessionDependant() bool
	Deterministic() bool
	NArgs() int
	Arg(i int) types.FuncArg
	GetOptions() []*types.FunctionOption
	GetArgTypes() []types.Type
}

type eAggFn interface {
	Phase() types.AggregationPhase
	Invocation() types.AggregationInvocation
	Decomposable() ext.DecomposeType
	Ordered() bool
	MaxSet() int
	IntermediateType() (types.FuncDefArgType, error)
}

// readParts compares what the accessors of an expression say with its message, for it and everything in it.
func readParts(c *C, reg expr.ExtensionRegistry, x expr.Expression) {
	if isNil(x) {
		c.Fail("parts_nil", "there is a nil expression")
		return
	}
	m := x.ToProto()
	same := func(part expr.Expression, want *pb.Expression, what string) {
		if want == nil {
			c.Check(isNil(part), "parts:"+what, "%s of %s is %v, there is none", what, x, part)
			return
		}
		c.Check(!isNil(part) && protoEq(part.ToProto(), want), "parts:"+what, "%s of %s is %v, want %v", what, x, part, want)
		readParts(c, reg, part)
	}
	switch g := x.(type) {
	case *expr.ScalarFunction:
		f := m.GetScalarFunction()
		c.Check(g.FuncRef() == f.FunctionReference, "parts:reference", "%d, want %d", g.FuncRef(), f.FunctionReference)
		v, ok := reg.LookupScalarFunction(f.FunctionReference)
		fnParts(c, reg, g, f.FunctionReference, v, ok, f.Arguments, f.Options)
		for _, o := range f.Options {
			c.Check(sameStrings(g.GetOption(o.Name), firstPreference(f.Options, o.Name)), "parts:option", "option %q is %v, want %v", o.Name, g.GetOption(o.Name), f.Options)
		}
		c.Check(g.GetOption("no such option") == nil, "parts:no_option", "%v", g.GetOption("no such option"))
		c.Check(protoEq(types.TypeToProto(g.GetType()), f.OutputType), "parts:type", "%v, want %v", g.GetType(), f.OutputType)
	case *expr.WindowFunction:
		f := m.GetWindowFunction()
		v, ok := reg.LookupWindowFunction(f.FunctionReference)
		fnParts(c, reg, g, f.FunctionReference, v, ok, f.Arguments, f.Options)
		aggParts(c, g, f.Phase, f.Invocation)
		if ok {
			c.Check(g.WindowType() == v.WindowType(), "parts:window_type", "%v, want %v", g.WindowType(), v.WindowType())
		}
		c.Check(protoEq(types.TypeToProto(g.GetType()), f.OutputType), "parts:type", "%v, want %v", g.GetType(), f.OutputType)
		c.Check(len(g.Sorts) == len(f.Sorts) && len(g.Partitions) == len(f.Partitions), "parts:window", "%s: sorts and partitions, want %v", g, f)
		for i, s := range f.Sorts {
			same(g.Sorts[i].Expr, s.Expr, "sort")
		}
		for i, s := range f.Partitions {
			same(g.Partitions[i], s, "partition")
		}
	case *expr.IfThen:
		f := m.GetIfThen()
		c.Check(g.NIfs() == len(f.Ifs), "parts:nifs", "%d, want %d", g.NIfs(), len(f.Ifs))
		for i, p := range f.Ifs {
			same(g.IfPair(i).If, p.If, "if")
			same(g.IfPair(i).Then, p.Then, "then")
		}
		same(g.Else(), f.Else, "else")
	case *expr.SwitchExpr:
		f := m.GetSwitchExpression()
		c.Check(g.NCases() == len(f.Ifs), "parts:ncases", "%d, want %d", g.NCases(), len(f.Ifs))
		same(g.MatchExpr(), f.Match, "match")
		for i, p := range f.Ifs {
			k := g.Case(i)
			c.Check(protoEq(k.If.ToProtoLiteral(), p.If), "parts:case", "case %d is %v, want %v", i, k.If, p.If)
			same(k.Then, p.Then, "case_then")
		}
		same(g.Else(), f.Else, "default")
	case *expr.SingularOrList:
		f := m.GetSingularOrList()
		same(g.Value, f.Value, "value")
		c.Check(len(g.Options) == len(f.Options), "parts:noptions", "%d, want %d", len(g.Options), len(f.Options))
		for i, o := range f.Options {
			same(g.Options[i], o, "in_option")
		}
	case *expr.Cast:
		f := m.GetCast()
		same(g.Input, f.Input, "cast_input")
		c.Check(protoEq(types.TypeToProto(g.Type), f.Type) && g.GetType().Equals(g.Type) && int32(g.FailureBehavior) == int32(f.FailureBehavior), "parts:cast", "%s, want %v", g, f)
	case *expr.Lambda:
		f := m.GetLambda()
		same(g.Body, f.Body, "body")
		c.Check(protoEq(types.TypeToProto(g.Parameters).GetStruct(), f.Parameters), "parts:parameters", "%v, want %v", g.Parameters, f.Parameters)
	case *expr.StructExpr:
		f := m.GetNested()
		c.Check(g.IsNullable() == f.Nullable && g.TypeVariation() == f.TypeVariationReference, "parts:struct", "nullable %v variation %d, want %v", g.IsNullable(), g.TypeVariation(), f)
	case *expr.ListExpr:
		f := m.GetNested()
		c.Check(g.IsNullable() == f.Nullable && g.TypeVariation() == f.TypeVariationReference, "parts:list", "nullable %v variation %d, want %v", g.IsNullable(), g.TypeVariation(), f)
	case *expr.MapExpr:
		f := m.GetNested()
		c.Check(g.IsNullable() == f.Nullable && g.TypeVariation() == f.TypeVariationReference, "parts:map", "nullable %v variation %d, want %v", g.IsNullable(), g.TypeVariation(), f)
	case *expr.DynamicParameter:
		f := m.GetDynamicParameter()
		c.Check(g.ParameterReference == f.ParameterReference && protoEq(types.TypeToProto(g.OutputType), f.Type), "parts:parameter", "%v, want %v", g, f)
	case *expr.FieldReference:
		refParts(c, reg, g, m.GetSelection())
	}
}

func firstPreference(os []*pb.FunctionOption, name string) []string {
	for _, o := range os {
		if o.Name == name {
			return o.Preference
		}
	}
	return nil
}

func fnParts(c *C, reg expr.ExtensionRegistry, g eAnyFn, ref uint32, v xvariant, known bool, args []*pb.FunctionArgument, opts []*pb.FunctionOption) {
	id, ok := reg.DecodeFunc(ref)
	c.Check(ok && g.ID() == id && g.CompoundName() == g.ID().Name, "parts:id", "%v, anchor %d is %v", g.ID(), ref, id)
	if known && !isNil(v) {
		vb, wb := g.Variadic(), v.Variadic()
		c.Check((vb == nil) == (wb == nil) && (vb == nil || *vb == *wb), "parts:variadic", "%v, want %v", vb, wb)
		c.Check(g.Name() == v.Name() && g.SessionDependant() == v.SessionDependent() && g.Deterministic() == v.Deterministic(), "parts:flags", "%q %v %v of %v", g.Name(), g.SessionDependant(), g.Deterministic(), id)
	}
	c.Check(g.NArgs() == len(args) && len(g.GetArgTypes()) == len(args), "parts:nargs", "%d arguments, %d types, want %d", g.NArgs(), len(g.GetArgTypes()), len(args))
	for i, a := range args {
		c.Check(protoEq(g.Arg(i).ToProtoFuncArg(), a), "parts:arg", "argument %d is %v, want %v", i, g.Arg(i), a)
		ty := g.GetArgTypes()[i]
		switch k := g.Arg(i).(type) {
		case expr.Expression:
			if !isNil(k.GetType()) {
				c.Check(ty.Equals(k.GetType()), "parts:arg_type", "argument %d %v has type %v", i, k, ty)
			}
			readParts(c, reg, k)
		case types.Type:
			c.Check(ty.Equals(k), "parts:arg_type", "argument %d %v has type %v", i, k, ty)
		}
	}
	c.Check(len(g.GetOptions()) == len(opts), "parts:options", "%v, want %v", g.GetOptions(), opts)
	for i, o := range opts {
		c.Check(protoEq(g.GetOptions()[i], o), "parts:options", "%v, want %v", g.GetOptions(), opts)
	}
}

func aggParts(c *C, g eAggFn, ph pb.AggregationPhase, inv pb.AggregateFunction_AggregationInvocation) {
	c.Check(int32(g.Phase()) == int32(ph) && int32(g.Invocation()) == int32(inv), "parts:phase", "%v %v, want %v %v", g.Phase(), g.Invocation(), ph, inv)
}

// aggregateParts is readParts for an aggregate function.
func aggregateParts(c *C, reg expr.ExtensionRegistry, g *expr.AggregateFunction) {
	f := g.ToProto()
	v, ok := reg.LookupAggregateFunction(f.FunctionReference)
	fnParts(c, reg, g, f.FunctionReference, v, ok, f.Arguments, f.Options)
	aggParts(c, g, f.Phase, f.Invocation)
	if ok {
		c.Check(g.Decomposable() == v.Decomposability() && g.Ordered() == v.Ordered() && g.MaxSet() == v.MaxSet(), "parts:agg", "%v %v %d", g.Decomposable(), g.Ordered(), g.MaxSet())
	}
	for _, o := range f.Options {
		c.Check(sameStrings(g.GetOption(o.Name), firstPreference(f.Options, o.Name)), "parts:option", "option %q is %v, want %v", o.Name, g.GetOption(o.Name), f.Options)
	}
	c.Check(g.GetOption("no such option") == nil, "parts:no_option", "%v", g.GetOption("no such option"))
	c.Check(len(g.Sorts) == len(f.Sorts), "parts:sorts", "%d, want %d", len(g.Sorts), len(f.Sorts))
	for i, s := range f.Sorts {
		c.Check(protoEq(g.Sorts[i].Expr.ToProto(), s.Expr), "parts:sort", "%v, want %v", g.Sorts[i], s)
		readParts(c, reg, g.Sorts[i].Expr)
	}
}

func refParts(c *C, reg expr.ExtensionRegistry, g *expr.FieldReference, f *pb.Expression_FieldReference) {
	switch r := g.Reference.(type) {
	case expr.ReferenceSegment:
		s := f.GetDirectReference()
		for !isNil(r) && s != nil {
			var child expr.ReferenceSegment
			var next *pb.Expression_ReferenceSegment
			switch k := r.(type) {
			case *expr.StructFieldRef:
				c.Check(s.GetStructField() != nil && k.Field == s.GetStructField().Field, "parts:field", "%v, want %v", k, s)
				child, next = k.GetChild(), s.GetStructField().GetChild()
			case *expr.ListElementRef:
				c.Check(s.GetListElement() != nil && k.Offset == s.GetListElement().Offset, "parts:offset", "%v, want %v", k, s)
				child, next = k.GetChild(), s.GetListElement().GetChild()
			case *expr.MapKeyRef:
				c.Check(s.GetMapKey() != nil && protoEq(k.MapKey.ToProtoLiteral(), s.GetMapKey().MapKey), "parts:key", "%v, want %v", k, s)
				child, next = k.GetChild(), s.GetMapKey().GetChild()
			}
			r, s = child, next
		}
		c.Check(isNil(r) && s == nil, "parts:path_end", "%v, want %v", g, f)
	case *expr.MaskExpression:
		s := f.GetMaskedReference()
		c.Check(r.MaintainSingularStruct() == s.MaintainSingularStruct, "parts:maintain", "%v, want %v", r.MaintainSingularStruct(), s)
		maskStruct(c, r.Select(), s.Select)
	}
	if root, ok := g.Root.(expr.Expression); ok && f.GetExpression() != nil {
		c.Check(protoEq(root.ToProto(), f.GetExpression()), "parts:root", "%v, want %v", root, f.GetExpression())
		readParts(c, reg, root)
	}
}

func maskStruct(c *C, g expr.MaskStructSelect, f *pb.Expression_MaskExpression_StructSelect) {
	c.Check(len(g) == len(f.GetStructItems()), "parts:mask_items", "%d items, want %v", len(g), f)
	for i, it := range f.GetStructItems() {
		c.Check(g[i].Field() == it.Field, "parts:mask_field", "%d, want %d", g[i].Field(), it.Field)
		maskSelect(c, g[i].Child(), it.Child)
	}
}

func maskSelect(c *C, g expr.MaskSelect, f *pb.Expression_MaskExpression_Select) {
	if f == nil {
		c.Check(isNil(g), "parts:mask_child", "%v, want none", g)
		return
	}
	switch s := f.Type.(type) {
	case *pb.Expression_MaskExpression_Select_Struct:
		k, ok := g.(expr.MaskStructSelect)
		c.Check(ok, "parts:mask_kind", "%T, want struct", g)
		maskStruct(c, k, s.Struct)
	case *pb.Expression_MaskExpression_Select_List:
		k, ok := g.(*expr.MaskListSelect)
		c.Check(ok && len(k.Selection()) == len(s.List.Selection), "parts:mask_kind", "%T, want %v", g, f)
		for i, it := range s.List.Selection {
			switch e := k.Selection()[i].(type) {
			case *expr.MaskListElement:
				c.Check(it.GetItem() != nil && e.GetField() == it.GetItem().Field, "parts:mask_element", "%v, want %v", e, it)
			case *expr.MaskListSlice:
				lo, hi := e.GetBounds()
				c.Check(it.GetSlice() != nil && lo == it.GetSlice().Start && hi == it.GetSlice().End, "parts:mask_slice", "%d %d, want %v", lo, hi, it)
			default:
				c.Fail("parts:mask_item", "%T", e)
			}
		}
		maskSelect(c, k.Child(), s.List.Child)
	case *pb.Expression_MaskExpression_Select_Map:
		k, ok := g.(*expr.MaskMapSelect)
		c.Check(ok, "parts:mask_kind", "%T, want map", g)
		switch sel := s.Map.Select.(type) {
		case *pb.Expression_MaskExpression_MapSelect_Key:
			c.Check(k.KeyKind() == expr.MapSelectKey && k.Key() == sel.Key.MapKey, "parts:mask_key", "%v %q, want %v", k.KeyKind(), k.Key(), sel)
		case *pb.Expression_MaskExpression_MapSelect_Expression:
			c.Check(k.KeyKind() == expr.MapSelectExpr && k.Key() == sel.Expression.MapKeyExpression, "parts:mask_key", "%v %q, want %v", k.KeyKind(), k.Key(), sel)
		}
		maskSelect(c, k.Child(), s.Map.Child)
	}
}
