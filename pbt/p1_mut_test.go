package pbt

import (
	"fmt"
	"sort"
	"strings"

	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"pgregory.net/rapid"
)

// mnode is a message within a message.
type mnode struct {
	m    protoreflect.Message
	path string
}

// messagesOf lists a message and the messages in it, in a fixed order.
func messagesOf(m proto.Message) (out []mnode) {
	var walk func(m protoreflect.Message, path string)
	walk = func(m protoreflect.Message, path string) {
		out = append(out, mnode{m, path})
		fs := m.Descriptor().Fields()
		for i := 0; i < fs.Len(); i++ {
			f := fs.Get(i)
			if f.Message() == nil || !m.Has(f) {
				continue
			}
			p := path + "." + string(f.Name())
			switch {
			case f.IsMap():
				var ks []string
				byKey := map[string]protoreflect.Value{}
				m.Get(f).Map().Range(func(k protoreflect.MapKey, v protoreflect.Value) bool {
					ks = append(ks, k.String())
					byKey[k.String()] = v
					return true
				})
				sort.Strings(ks)
				if f.MapValue().Message() != nil {
					for _, k := range ks {
						walk(byKey[k].Message(), p)
					}
				}
			case f.IsList():
				for j := 0; j < m.Get(f).List().Len(); j++ {
					walk(m.Get(f).List().Get(j).Message(), p)
				}
			default:
				walk(m.Get(f).Message(), p)
			}
		}
	}
	walk(m.ProtoReflect(), "")
	return out
}

// pickNode draws one of the messages, every kind of message being equally likely.
func pickNode(t *rapid.T, ns []mnode) mnode {
	by := map[string][]int{}
	var kinds []string
	for i, n := range ns {
		k := string(n.m.Descriptor().FullName())
		if by[k] == nil {
			kinds = append(kinds, k)
		}
		by[k] = append(by[k], i)
	}
	sort.Strings(kinds)
	is := by[kinds[pick(t, len(kinds))]]
	return ns[is[pick(t, len(is))]]
}

// pick is an unbiased index.
func pick(t *rapid.T, n int) int {
	return int(rapid.Uint64().Draw(t, "pick") % uint64(n))
}

// otherScalar draws a value of the field's kind different from the old one.
func otherScalar(t *rapid.T, f protoreflect.FieldDescriptor, old protoreflect.Value) protoreflect.Value {
	small := rapid.IntRange(0, 12).Draw(t, "scalar")
	for {
		var v protoreflect.Value
		switch f.Kind() {
		case protoreflect.BoolKind:
			v = protoreflect.ValueOfBool(!old.Bool())
		case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
			v = protoreflect.ValueOfInt32(int32(small - 2))
		case protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind:
			v = protoreflect.ValueOfInt64(int64(small - 2))
		case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
			v = protoreflect.ValueOfUint32(uint32(small))
		case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
			v = protoreflect.ValueOfUint64(uint64(small))
		case protoreflect.FloatKind:
			v = protoreflect.ValueOfFloat32(float32(small) / 4)
		case protoreflect.DoubleKind:
			v = protoreflect.ValueOfFloat64(float64(small) / 4)
		case protoreflect.StringKind:
			v = protoreflect.ValueOfString([]string{"zz", "", "add:i32_i32", "q"}[small%4])
		case protoreflect.BytesKind:
			v = protoreflect.ValueOfBytes([][]byte{{1}, {}, {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16}, {0}}[small%4])
		case protoreflect.EnumKind:
			vs := f.Enum().Values()
			v = protoreflect.ValueOfEnum(vs.Get(small % vs.Len()).Number())
		}
		if !v.Equal(old) {
			return v
		}
		small++
	}
}

// mutate makes one change to the message and says what it was.
func mutate(t *rapid.T, root proto.Message) string {
	ns := messagesOf(root)
	for try := 0; try < 20; try++ {
		n := pickNode(t, ns)
		fs := n.m.Descriptor().Fields()
		if fs.Len() == 0 {
			continue
		}
		f := fs.Get(pick(t, fs.Len()))
		name := string(n.m.Descriptor().Name()) + "." + string(f.Name())
		if strings.HasPrefix(name, "Plan.extension") || strings.HasPrefix(n.path, ".extension") || strings.Contains(n.path, "interval_compound") || name == "Literal.interval_compound" {
			continue // what is declared is X01's, the forms of such literals L01's
		}
		msg := func() protoreflect.Value {
			// one that is in the plan already, or an empty one
			var of []protoreflect.Message
			for _, k := range ns {
				if k.m.Descriptor().FullName() == f.Message().FullName() {
					of = append(of, k.m)
				}
			}
			if len(of) > 0 && pct(t, 80) {
				return protoreflect.ValueOfMessage(proto.Clone(of[pick(t, len(of))].Interface()).ProtoReflect())
			}
			var v protoreflect.Message
			if f.IsList() {
				v = n.m.NewField(f).List().NewElement().Message()
			} else {
				v = n.m.NewField(f).Message()
			}
			if pct(t, 60) {
				for i := 0; i < v.Descriptor().Fields().Len(); i++ {
					g := v.Descriptor().Fields().Get(i)
					if g.IsList() || g.IsMap() || g.Message() != nil {
						continue
					}
					if pct(t, 50) {
						v.Set(g, otherScalar(t, g, v.Get(g)))
					}
				}
			}
			return protoreflect.ValueOfMessage(v)
		}
		switch {
		case f.IsMap():
			continue
		case f.IsList():
			l := n.m.Mutable(f).List()
			switch k := rapid.IntRange(0, 3).Draw(t, "listop"); {
			case k == 0 && l.Len() > 0:
				l.Truncate(l.Len() - 1)
				return name + " shorter"
			case k == 1 && l.Len() > 1:
				a, b := pick(t, l.Len()), pick(t, l.Len())
				x, y := l.Get(a), l.Get(b)
				if f.Message() != nil {
					x, y = protoreflect.ValueOfMessage(proto.Clone(x.Message().Interface()).ProtoReflect()), protoreflect.ValueOfMessage(proto.Clone(y.Message().Interface()).ProtoReflect())
				}
				l.Set(a, y)
				l.Set(b, x)
				return name + " swapped"
			case f.Message() != nil:
				l.Append(msg())
				return name + " longer"
			default:
				l.Append(otherScalar(t, f, l.NewElement()))
				return name + " longer"
			}
		case f.Message() != nil:
			if n.m.Has(f) && pct(t, 40) {
				n.m.Clear(f)
				return name + " cleared"
			}
			n.m.Set(f, msg())
			return name + " set"
		default:
			if n.m.Has(f) && pct(t, 15) {
				n.m.Clear(f)
				return name + " cleared"
			}
			n.m.Set(f, otherScalar(t, f, n.m.Get(f)))
			return name + " set"
		}
	}
	return ""
}

// normalRel gives what is written for a message, where that is more than the message says.
func normal(m proto.Message) {
	for _, n := range messagesOf(m) {
		if strings.Contains(n.path, ".user_defined.struct.") {
			continue // what is in a literal of such a type is not looked at
		}
		switch x := n.m.Interface().(type) {
		case *pb.RelCommon:
			if x.EmitKind == nil {
				x.EmitKind = &pb.RelCommon_Direct_{Direct: &pb.RelCommon_Direct{}}
			}
		case *pb.ReadRel_VirtualTable:
			for _, v := range x.Values {
				r := &pb.Expression_Nested_Struct{}
				for _, l := range v.Fields {
					r.Fields = append(r.Fields, &pb.Expression{RexType: &pb.Expression_Literal_{Literal: l}})
				}
				x.Expressions = append(x.Expressions, r)
			}
			x.Values = nil
		case *pb.AggregateRel:
			legacy := false
			for _, g := range x.Groupings {
				legacy = legacy || len(g.GroupingExpressions) > 0
			}
			if legacy {
				for _, g := range x.Groupings {
					for _, e := range g.GroupingExpressions {
						at := -1
						for i, o := range x.GroupingExpressions {
							if protoEq(o, e) {
								at = i
							}
						}
						if at < 0 {
							at = len(x.GroupingExpressions)
							x.GroupingExpressions = append(x.GroupingExpressions, e)
						}
						g.ExpressionReferences = append(g.ExpressionReferences, uint32(at))
					}
					g.GroupingExpressions = nil
				}
			}
		case *pb.ReadRel:
			if x.BaseSchema == nil {
				x.BaseSchema = &pb.NamedStruct{}
			}
			if x.BaseSchema.Struct == nil {
				x.BaseSchema.Struct = &pb.Type_Struct{}
			}
		case *pb.WriteRel:
			if x.TableSchema == nil {
				x.TableSchema = &pb.NamedStruct{}
			}
			if x.TableSchema.Struct == nil {
				x.TableSchema.Struct = &pb.Type_Struct{}
			}
		case *pb.Expression_MaskExpression:
			if x.Select == nil {
				x.Select = &pb.Expression_MaskExpression_StructSelect{}
			}
		case *pb.Expression_MaskExpression_StructItem:
			if x.Child != nil && x.Child.Type == nil {
				x.Child = nil
			}
		case *pb.Expression_ReferenceSegment_StructField:
			x.Child = normalChild(x.Child)
		case *pb.Expression_ReferenceSegment_ListElement:
			x.Child = normalChild(x.Child)
		case *pb.Expression_ReferenceSegment_MapKey:
			x.Child = normalChild(x.Child)
		case *pb.Expression_FieldReference:
			if x.RootType == nil {
				x.RootType = &pb.Expression_FieldReference_RootReference_{RootReference: &pb.Expression_FieldReference_RootReference{}}
			}
		case *pb.Type_IntervalDay:
			if x.Precision == nil {
				x.Precision = proto.Int32(6)
			}
		case *pb.Expression_WindowFunction:
			x.LowerBound, x.UpperBound = normalBound(x.LowerBound), normalBound(x.UpperBound)
		case *pb.Expression_Literal:
			nul := pb.Type_NULLABILITY_REQUIRED
			if x.Nullable {
				nul = pb.Type_NULLABILITY_NULLABLE
			}
			switch l := x.LiteralType.(type) {
			case *pb.Expression_Literal_Null:
				x.Nullable, x.TypeVariationReference = true, variationOf(l.Null)
			case *pb.Expression_Literal_EmptyList:
				l.EmptyList.Nullability, l.EmptyList.TypeVariationReference = nul, x.TypeVariationReference
			case *pb.Expression_Literal_EmptyMap:
				l.EmptyMap.Nullability, l.EmptyMap.TypeVariationReference = nul, x.TypeVariationReference
			}
		case *pb.HashJoinRel:
			x.Keys, x.LeftKeys, x.RightKeys = normalKeys(x.Keys, x.LeftKeys, x.RightKeys)
		case *pb.MergeJoinRel:
			x.Keys, x.LeftKeys, x.RightKeys = normalKeys(x.Keys, x.LeftKeys, x.RightKeys)
		}
		// the common part is always there
		if f := n.m.Descriptor().Fields().ByName("common"); f != nil && f.Message() != nil && f.Message().Name() == "RelCommon" && !n.m.Has(f) {
			n.m.Set(f, protoreflect.ValueOfMessage((&pb.RelCommon{EmitKind: &pb.RelCommon_Direct_{Direct: &pb.RelCommon_Direct{}}}).ProtoReflect()))
		}
	}
}

func normalBound(b *pb.Expression_WindowFunction_Bound) *pb.Expression_WindowFunction_Bound {
	if b.GetKind() == nil {
		return nil
	}
	return b
}

func normalChild(s *pb.Expression_ReferenceSegment) *pb.Expression_ReferenceSegment {
	if s.GetReferenceType() == nil {
		return nil
	}
	return s
}

// variationOf is the variation named in a type, whatever its kind.
func variationOf(ty *pb.Type) uint32 {
	m := ty.ProtoReflect()
	k := m.WhichOneof(m.Descriptor().Oneofs().ByName("kind"))
	if k == nil || k.Message() == nil {
		return 0
	}
	if f := k.Message().Fields().ByName("type_variation_reference"); f != nil {
		return uint32(m.Get(k).Message().Get(f).Uint())
	}
	return 0
}

func normalKeys(ks []*pb.ComparisonJoinKey, l, r []*pb.Expression_FieldReference) ([]*pb.ComparisonJoinKey, []*pb.Expression_FieldReference, []*pb.Expression_FieldReference) {
	if len(ks) == 0 {
		for i := range l {
			if i < len(r) {
				ks = append(ks, &pb.ComparisonJoinKey{Left: l[i], Right: r[i], Comparison: &pb.ComparisonJoinKey_ComparisonType{InnerType: &pb.ComparisonJoinKey_ComparisonType_Simple{Simple: 1}}})
			}
		}
	}
	l, r = nil, nil
	for _, k := range ks {
		if s, ok := k.GetComparison().GetInnerType().(*pb.ComparisonJoinKey_ComparisonType_Simple); !ok || s.Simple != 1 {
			return ks, nil, nil
		}
		l, r = append(l, k.Left), append(r, k.Right)
	}
	return ks, l, r
}

// msgDiff names the first places where two messages differ.
func msgDiff(a, b protoreflect.Message, path string) string {
	fs := a.Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		f := fs.Get(i)
		p := path + "." + string(f.Name())
		if a.Has(f) != b.Has(f) {
			return fmt.Sprintf("%s: %v / %v", p, show(a, f), show(b, f))
		}
		if !a.Has(f) || f.IsMap() {
			continue
		}
		x, y := a.Get(f), b.Get(f)
		if f.IsList() {
			if x.List().Len() != y.List().Len() {
				return fmt.Sprintf("%s: %v / %v", p, x, y)
			}
			for j := 0; j < x.List().Len(); j++ {
				q := fmt.Sprintf("%s[%d]", p, j)
				if f.Message() != nil {
					if d := msgDiff(x.List().Get(j).Message(), y.List().Get(j).Message(), q); d != "" {
						return d
					}
				} else if !x.List().Get(j).Equal(y.List().Get(j)) {
					return fmt.Sprintf("%s: %v / %v", q, x, y)
				}
			}
			continue
		}
		if f.Message() != nil {
			if d := msgDiff(x.Message(), y.Message(), p); d != "" {
				return d
			}
		} else if !x.Equal(y) {
			return fmt.Sprintf("%s: %v / %v", p, x, y)
		}
	}
	return ""
}

func show(m protoreflect.Message, f protoreflect.FieldDescriptor) string {
	if !m.Has(f) {
		return "unset"
	}
	return m.Get(f).String()
}
