package pbt

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/plan"
	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	pbext "github.com/substrait-io/substrait-protobuf/go/substraitpb/extensions"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"
)

// breakage is a way to make a plan message one that means nothing.
type breakage struct {
	kind, at string
	do       func()
}

// otherCols reads n columns of a type which is not generated.
func otherCols(n int) *pb.Rel {
	const req = pb.Type_NULLABILITY_REQUIRED
	base := &pb.NamedStruct{Struct: &pb.Type_Struct{Nullability: req}}
	for i := 0; i < n; i++ {
		base.Names = append(base.Names, "c")
		base.Struct.Types = append(base.Struct.Types, &pb.Type{Kind: &pb.Type_FixedChar_{FixedChar: &pb.Type_FixedChar{Length: 77777, Nullability: req}}})
	}
	return &pb.Rel{RelType: &pb.Rel_Read{Read: &pb.ReadRel{BaseSchema: base, ReadType: &pb.ReadRel_NamedTable_{NamedTable: &pb.ReadRel_NamedTable{Names: []string{"t"}}}}}}
}

// breakages lists the ways a message can be broken, each in one place. What the columns of an
// extension are may not be known, so what is said about them is left alone.
func breakages(root proto.Message) (out []breakage) {
	ns := messagesOf(root)
	known, keys := true, false
	for _, n := range ns {
		switch x := n.m.Interface().(type) {
		case *pb.ExtensionSingleRel, *pb.ExtensionMultiRel, *pb.ExtensionLeafRel:
			known = false
		case *pb.HashJoinRel:
			keys = keys || len(x.Keys) > 0
		case *pb.MergeJoinRel:
			keys = keys || len(x.Keys) > 0
		}
	}
	at := ""
	add := func(kind string, do func()) { out = append(out, breakage{kind, at, do}) }
	joinTypes := func(k string, set func(int32)) {
		add(k+"_type_unset", func() { set(0) })
		add(k+"_type_unknown", func() { set(99) })
	}
	used := map[uint32]bool{}
	fref := func(k string, ref uint32, set func(uint32)) {
		used[ref] = true
		add(k+"_undeclared", func() { set(4000000000) })
	}
	for _, n := range ns {
		if strings.Contains(n.path, ".user_defined.") || strings.Contains(n.path, ".advanced_extension") || keys && strings.Contains(n.path, "_keys") {
			continue // not looked at, or (older join keys) not where there are newer ones
		}
		at = n.path
		switch x := n.m.Interface().(type) {
		case *pb.Rel:
			add("rel_empty", func() { x.RelType = nil })
		case *pb.PlanRel:
			add("plan_rel_empty", func() { x.RelType = nil })
		case *pb.RelRoot:
			add("root_input", func() { x.Input = nil })
			if w := x.GetInput().GetWrite(); known && (w == nil || w.Output != pb.WriteRel_OUTPUT_MODE_UNSPECIFIED) {
				add("root_names_more", func() { x.Names = append(x.Names, "more") })
				if len(x.Names) > 0 {
					add("root_names_fewer", func() { x.Names = x.Names[:len(x.Names)-1] })
				}
			}
		case *pb.RelCommon:
			if e := x.GetEmit(); known && e != nil && len(e.OutputMapping) > 0 {
				add("emit_beyond", func() { e.OutputMapping[len(e.OutputMapping)-1] = 1000 })
				add("emit_negative", func() { e.OutputMapping[0] = -1 })
			}
		case *pb.ReadRel:
			add("read_type", func() { x.ReadType = nil })
			if x.BaseSchema != nil && len(x.BaseSchema.Names) > 0 {
				add("schema_names_fewer", func() { x.BaseSchema.Names = x.BaseSchema.Names[1:] })
				add("schema_names_none", func() { x.BaseSchema.Names = nil })
				add("schema_names_more", func() { x.BaseSchema.Names = append(x.BaseSchema.Names, "more") })
			}
		case *pb.ReadRel_VirtualTable:
			if len(x.Expressions)+len(x.Values) > 0 {
				add("values_and_expressions", func() {
					if len(x.Values) == 0 {
						x.Values = append(x.Values, &pb.Expression_Literal_Struct{})
					} else {
						x.Expressions = append(x.Expressions, &pb.Expression_Nested_Struct{})
					}
				})
			}
		case *pb.ReadRel_IcebergTable:
			add("iceberg_type", func() { x.TableType = nil })
		case *pb.ReadRel_LocalFiles_FileOrFiles:
			add("file_path", func() { x.PathType = nil })
		case *pb.FilterRel:
			add("filter_input", func() { x.Input = nil })
			add("filter_condition", func() { x.Condition = nil })
		case *pb.FetchRel:
			add("fetch_input", func() { x.Input = nil })
		case *pb.ProjectRel:
			add("project_input", func() { x.Input = nil })
			add("project_expressions", func() { x.Expressions = nil })
		case *pb.SortRel:
			add("sort_input", func() { x.Input = nil })
			add("sort_sorts", func() { x.Sorts = nil })
		case *pb.SortField:
			add("sort_expr", func() { x.Expr = nil })
			add("sort_kind", func() { x.SortKind = nil })
		case *pb.CrossRel:
			add("cross_left", func() { x.Left = nil })
			add("cross_right", func() { x.Right = nil })
		case *pb.JoinRel:
			joinTypes("join", func(v int32) { x.Type = pb.JoinRel_JoinType(v) })
			add("join_left", func() { x.Left = nil })
			add("join_right", func() { x.Right = nil })
			add("join_expression", func() { x.Expression = nil })
		case *pb.HashJoinRel:
			joinTypes("hash", func(v int32) { x.Type = pb.HashJoinRel_JoinType(v) })
			add("hash_left", func() { x.Left = nil })
			add("hash_right", func() { x.Right = nil })
			if len(x.LeftKeys) > 0 && len(x.Keys) == 0 {
				add("hash_keys_fewer", func() { x.LeftKeys = x.LeftKeys[1:] })
				add("hash_keys_more", func() { x.LeftKeys = append(x.LeftKeys, x.LeftKeys[0]) })
			}
		case *pb.MergeJoinRel:
			joinTypes("merge", func(v int32) { x.Type = pb.MergeJoinRel_JoinType(v) })
			add("merge_left", func() { x.Left = nil })
			add("merge_right", func() { x.Right = nil })
			if len(x.RightKeys) > 0 && len(x.Keys) == 0 {
				add("merge_keys_fewer", func() { x.RightKeys = x.RightKeys[1:] })
				add("merge_keys_more", func() { x.RightKeys = append(x.RightKeys, x.RightKeys[0]) })
			}
		case *pb.ComparisonJoinKey:
			add("key_left", func() { x.Left = nil })
			add("key_right", func() { x.Right = nil })
			add("key_comparison", func() { x.Comparison = nil })
		case *pb.SetRel:
			add("set_op", func() { x.Op = pb.SetRel_SET_OP_UNSPECIFIED })
			add("set_one_input", func() { x.Inputs = x.Inputs[:1] })
			for n := 1; n <= 3; n++ {
				add(fmt.Sprintf("set_columns_%d", n), func() { x.Inputs = append(x.Inputs, otherCols(n)) })
			}
			add("set_columns_first", func() { x.Inputs = append([]*pb.Rel{otherCols(2)}, x.Inputs...) })
		case *pb.AggregateRel:
			add("aggregate_input", func() { x.Input = nil })
			for _, g := range x.Groupings {
				g := g
				if len(g.GroupingExpressions) == 0 && len(g.ExpressionReferences) > 0 {
					add("grouping_reference", func() { g.ExpressionReferences[0] = uint32(len(x.GroupingExpressions)) })
					add("grouping_both", func() { g.GroupingExpressions = append(g.GroupingExpressions, x.GroupingExpressions[0]) })
				}
				if len(x.GroupingExpressions) == 0 && len(g.GroupingExpressions) > 0 {
					add("grouping_reference_nowhere", func() { g.ExpressionReferences = append(g.ExpressionReferences, 50) })
				}
			}
		case *pb.AggregateRel_Measure:
			add("measure", func() { x.Measure = nil })
		case *pb.WriteRel:
			add("write_input", func() { x.Input = nil })
			if x.TableSchema != nil {
				add("write_names_more", func() { x.TableSchema.Names = append(x.TableSchema.Names, "more") })
				if len(x.TableSchema.Names) > 0 {
					add("write_names_fewer", func() { x.TableSchema.Names = x.TableSchema.Names[1:] })
					add("write_names_none", func() { x.TableSchema.Names = nil })
				}
			}
			add("write_type", func() { x.WriteType = nil })
			add("write_op", func() { x.Op = pb.WriteRel_WRITE_OP_UNSPECIFIED })
			add("write_op_unknown", func() { x.Op = 99 })
			add("write_output_unknown", func() { x.Output = 99 })
		case *pb.ExtensionSingleRel:
			add("single_input", func() { x.Input = nil })
		case *pb.Expression:
			add("expr_empty", func() { x.RexType = nil })
		case *pb.FunctionArgument:
			add("argument_empty", func() { x.ArgType = nil })
		case *pb.Expression_Literal:
			add("literal_empty", func() { x.LiteralType = nil })
		case *pb.Expression_Literal_Map:
			if len(x.KeyValues) > 0 {
				add("map_key", func() { x.KeyValues[0].Key = nil })
				add("map_value", func() { x.KeyValues[0].Value = nil })
			}
		case *pb.Expression_Literal_Decimal:
			add("decimal_short", func() { x.Value = x.Value[:7] })
			add("decimal_long", func() { x.Value = append(x.Value, 0) })
		case *pb.Expression_Cast:
			add("cast_type", func() { x.Type = nil })
			add("cast_input", func() { x.Input = nil })
		case *pb.Expression_IfThen:
			add("if_else", func() { x.Else = nil })
			add("if_condition", func() { x.Ifs[0].If = nil })
			add("if_result", func() { x.Ifs[len(x.Ifs)-1].Then = nil })
		case *pb.Expression_SwitchExpression:
			add("switch_match", func() { x.Match = nil })
			add("switch_none", func() { x.Ifs = nil })
			add("switch_literal", func() { x.Ifs[0].If = nil })
			add("switch_result", func() { x.Ifs[len(x.Ifs)-1].Then = nil })
		case *pb.Expression_SingularOrList:
			add("or_value", func() { x.Value = nil })
		case *pb.Expression_ScalarFunction:
			add("function_type", func() { x.OutputType = nil })
			fref("function", x.FunctionReference, func(v uint32) { x.FunctionReference = v })
		case *pb.Expression_WindowFunction:
			add("window_type", func() { x.OutputType = nil })
			fref("window", x.FunctionReference, func(v uint32) { x.FunctionReference = v })
		case *pb.AggregateFunction:
			add("aggregate_type", func() { x.OutputType = nil })
			fref("aggregate", x.FunctionReference, func(v uint32) { x.FunctionReference = v })
		case *pb.Expression_FieldReference:
			add("reference_kind", func() { x.ReferenceType = nil })
			if s := x.GetDirectReference().GetStructField(); known && s != nil && x.GetRootReference() != nil {
				add("reference_beyond", func() { s.Field = 1000 })
				add("reference_negative", func() { s.Field = -1 })
			}
			if o := x.GetOuterReference(); o != nil {
				add("outer_steps_none", func() { o.StepsOut = 0 })
				add("outer_steps_many", func() { o.StepsOut = 100 })
			}
			if o := x.GetLambdaParameterReference(); o != nil {
				add("lambda_steps_many", func() { o.StepsOut = 100 })
				if s := x.GetDirectReference().GetStructField(); s != nil {
					add("lambda_field_beyond", func() { s.Field = 1000 })
				}
			}
		case *pb.Expression_ReferenceSegment:
			if strings.HasSuffix(n.path, ".direct_reference") {
				add("segment_empty", func() { x.ReferenceType = nil })
			}
			if m := x.GetMapKey(); m != nil {
				add("segment_key", func() { m.MapKey = nil })
			}
		case *pb.Expression_Subquery:
			add("subquery_empty", func() { x.SubqueryType = nil })
			switch q := x.SubqueryType.(type) {
			case *pb.Expression_Subquery_Scalar_:
				add("scalar_input", func() { q.Scalar.Input = nil })
				add("scalar_columns", func() { q.Scalar.Input = otherCols(2) })
				add("scalar_no_columns", func() {
					q.Scalar.Input = otherCols(2)
					q.Scalar.Input.GetRead().Common = &pb.RelCommon{EmitKind: &pb.RelCommon_Emit_{Emit: &pb.RelCommon_Emit{}}}
				})
			case *pb.Expression_Subquery_InPredicate_:
				add("in_haystack", func() { q.InPredicate.Haystack = nil })
			case *pb.Expression_Subquery_SetPredicate_:
				add("predicate_tuples", func() { q.SetPredicate.Tuples = nil })
			case *pb.Expression_Subquery_SetComparison_:
				add("comparison_left", func() { q.SetComparison.Left = nil })
				add("comparison_right", func() { q.SetComparison.Right = nil })
			}
		case *pb.Expression_Lambda:
			add("lambda_parameters", func() { x.Parameters = nil })
			add("lambda_body", func() { x.Body = nil })
			add("lambda_nullable", func() { x.Parameters.Nullability = pb.Type_NULLABILITY_NULLABLE })
		case *pb.DynamicParameter:
			add("parameter_type", func() { x.Type = nil })
		case *pb.Expression_Nested:
			add("nested_empty", func() { x.NestedType = nil })
			if l := x.GetList(); l != nil {
				add("nested_list_none", func() { l.Values = nil })
			}
			if l := x.GetMap(); l != nil {
				add("nested_map_none", func() { l.KeyValues = nil })
				if len(l.KeyValues) > 0 {
					add("nested_map_key", func() { l.KeyValues[0].Key = nil })
					add("nested_map_value", func() { l.KeyValues[0].Value = nil })
				}
			}
		case *pb.ExpressionReference:
			add("expression_reference_empty", func() { x.ExprType = nil })
		case *pb.ExtendedExpression:
			add("schema_names_more", func() { x.BaseSchema.Names = append(x.BaseSchema.Names, "more") })
			if len(x.BaseSchema.Names) > 0 {
				add("schema_names_fewer", func() { x.BaseSchema.Names = x.BaseSchema.Names[1:] })
			}
		case *pb.Type:
			add("type_empty", func() { x.Kind = nil })
		case *pb.Type_List:
			add("list_type", func() { x.Type = nil })
		case *pb.Type_Map:
			add("map_type_key", func() { x.Key = nil })
			add("map_type_value", func() { x.Value = nil })
		case *pb.DynamicParameterBinding:
			add("binding_value", func() { x.Value = nil })
		}
	}
	at = "declarations"
	decls := func(ds []*pbext.SimpleExtensionDeclaration, set func([]*pbext.SimpleExtensionDeclaration)) {
		for i, d := range ds {
			f := d.GetExtensionFunction()
			if f == nil {
				continue
			}
			add("declaration_urn", func() { f.ExtensionUrnReference = 4000000000 })
			if used[f.FunctionAnchor] {
				add("declaration_missing", func() { set(append(append(ds[:0:0], ds[:i]...), ds[i+1:]...)) })
			}
		}
	}
	switch x := root.(type) {
	case *pb.Plan:
		decls(x.Extensions, func(ds []*pbext.SimpleExtensionDeclaration) { x.Extensions = ds })
	case *pb.ExtendedExpression:
		decls(x.Extensions, func(ds []*pbext.SimpleExtensionDeclaration) { x.Extensions = ds })
	}
	return
}

// breakOne breaks the message in one place.
func breakOne(t *rapid.T, m proto.Message) breakage {
	by := map[string][]breakage{}
	var kinds []string
	for _, b := range breakages(m) {
		if by[b.kind] == nil {
			kinds = append(kinds, b.kind)
		}
		by[b.kind] = append(by[b.kind], b)
	}
	if kinds == nil {
		return breakage{}
	}
	sort.Strings(kinds)
	k := kinds[pick(t, len(kinds))]
	b := by[k][pick(t, len(by[k]))]
	b.do()
	return b
}

func TestP07(t *testing.T) {
	p := start(t, "P07", "plan and extended expression messages of every supported relation and expression, broken in one place anywhere in them: a required part removed, an enumeration "+
		"unset or unknown, a reference beyond what it refers to, counts that do not fit, undeclared functions; non-trivial = broken below the outermost relation or expression")
	defer p.finish()

	p.sub("plans", 9000, func(c *C) {
		pm := genPM(c.T, RCtx{msg: true, edepth: rapid.IntRange(1, 2).Draw(c.T, "edepth"), write: true}, 2)
		m := wire(pm.proto(rapid.Bool().Draw(c.T, "canon")))
		b := breakOne(c.T, m)
		m = wire(m)
		c.Case(strings.Count(b.at, ".") > 3, "%s at %s in %s", b.kind, b.at, pm)
		c.Label(b.kind)
		var err error
		c.NoPanic("panic:"+b.kind, func() {
			_, err = plan.FromProtoWithDecoder(m, eCol(), map[string]expr.ExtensionRelDecoder{defURL: vdec{}})
		})
		c.Check(err != nil, "accepted:"+b.kind, "with %s at %s the plan is read", b.kind, b.at)
	})

	p.sub("extended", 6000, func(c *C) {
		w := genWorld(c.T)
		x := ECtx{cols: &ECols{}, msg: true, noSub: true}
		m := &pb.ExtendedExpression{ExtensionUrns: w.URNs, Extensions: w.Decls}
		desc := ""
		for n := rapid.IntRange(1, 3).Draw(c.T, "n"); n > 0; n-- {
			r := &pb.ExpressionReference{OutputNames: []string{"a"}}
			if pct(c.T, 35) {
				e := genAgg(c.T, x, 2)
				r.ExprType = &pb.ExpressionReference_Measure{Measure: e.aggProto(w)}
				desc += e.String() + "; "
			} else {
				e := genEX(c.T, x, genWantTD(c.T), 3)
				r.ExprType = &pb.ExpressionReference_Expression{Expression: e.proto(w)}
				desc += e.String() + "; "
			}
			m.ReferredExpr = append(m.ReferredExpr, r)
		}
		m.BaseSchema = schemaProto(x.cols.names(), x.cols)
		m = wire(m)
		b := breakOne(c.T, m)
		m = wire(m)
		c.Case(strings.Count(b.at, ".") > 2, "%s at %s in %s", b.kind, b.at, desc)
		c.Label(b.kind)
		var err error
		c.NoPanic("panic:"+b.kind, func() { _, err = expr.ExtendedFromProto(m, eCol()) })
		c.Check(err != nil, "accepted:"+b.kind, "with %s at %s the extended expression is read", b.kind, b.at)
	})
}
