From ce3643f15adf183db38807ac1f2981fa4aadd8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:47 +0000
Subject: [PATCH 01/69] fix: serialise and compare every representation of
 interval types

---
 types/interval_year_month_type.go |  3 +++
 types/types.go                    | 12 ++++++++++++
 2 files changed, 15 insertions(+)

diff --git a/types/interval_year_month_type.go b/types/interval_year_month_type.go
index 9300fd4..f26e59d 100644
--- a/types/interval_year_month_type.go
+++ b/types/interval_year_month_type.go
@@ -38,6 +38,9 @@ func (m IntervalYearToMonthType) Equals(rhs Type) bool {
 	if o, ok := rhs.(IntervalYearToMonthType); ok {
 		return o == m
 	}
+	if o, ok := rhs.(*IntervalYearType); ok {
+		return o.Nullability == m.nullability && o.TypeVariationRef == m.typeVariationRef
+	}
 	return false
 }
 
diff --git a/types/types.go b/types/types.go
index 3407436..567d429 100644
--- a/types/types.go
+++ b/types/types.go
@@ -745,6 +745,10 @@ func TypeToProto(t Type) *proto.Type {
 				Precision:              precision,
 				Nullability:            proto.Type_Nullability(t.nullability),
 				TypeVariationReference: t.typeVariationRef}}}
+	case *IntervalCompoundType:
+		return t.ToProto()
+	case IntervalYearToMonthType:
+		return t.ToProto()
 	case *UUIDType:
 		return &proto.Type{Kind: &proto.Type_Uuid{
 			Uuid: &proto.Type_UUID{
@@ -894,6 +898,10 @@ func (s *PrimitiveType[T]) Equals(rhs Type) bool {
 	if o, ok := rhs.(*PrimitiveType[T]); ok {
 		return *o == *s
 	}
+	// interval_year has two representations
+	if o, ok := rhs.(IntervalYearToMonthType); ok {
+		return o.Equals(s)
+	}
 
 	return false
 }
@@ -946,6 +954,10 @@ func (s *PrimitiveType[T]) MatchWithoutNullability(ot Type) bool {
 	if _, ok := ot.(*PrimitiveType[T]); ok {
 		return true
 	}
+	if _, ok := ot.(IntervalYearToMonthType); ok {
+		_, isIntervalYear := any(s).(*IntervalYearType)
+		return isIntervalYear
+	}
 	return false
 }
 
-- 
2.43.0


From 07a7f90b94ee059e9d644729aba595794f201036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:47 +0000
Subject: [PATCH 02/69] fix: IntervalDayType.WithNullability must not change
 its receiver

---
 types/interval_day_type.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/types/interval_day_type.go b/types/interval_day_type.go
index 0d0369b..3bf0401 100644
--- a/types/interval_day_type.go
+++ b/types/interval_day_type.go
@@ -19,8 +19,9 @@ func (m *IntervalDayType) GetPrecisionProtoVal() int32 {
 
 func (*IntervalDayType) isRootRef() {}
 func (m *IntervalDayType) WithNullability(n Nullability) Type {
-	m.Nullability = n
-	return m
+	out := *m
+	out.Nullability = n
+	return &out
 }
 
 func (m *IntervalDayType) GetType() Type                     { return m }
-- 
2.43.0


From 119d71b67d1d7198e0f042261a9a517b46e46730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:47 +0000
Subject: [PATCH 03/69] fix: IntervalCompoundType.WithPrecision keeps the type
 variation

---
 types/interval_compound_type.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/types/interval_compound_type.go b/types/interval_compound_type.go
index 0ff09d6..d729e85 100644
--- a/types/interval_compound_type.go
+++ b/types/interval_compound_type.go
@@ -37,10 +37,8 @@ func (m IntervalCompoundType) WithNullability(n Nullability) Type {
 }
 
 func (m IntervalCompoundType) WithPrecision(precision TimePrecision) IntervalCompoundType {
-	return IntervalCompoundType{
-		precision:   precision,
-		nullability: m.nullability,
-	}
+	m.precision = precision
+	return m
 }
 
 func (m IntervalCompoundType) GetType() Type                     { return m }
-- 
2.43.0


From ce288dc70bf5f656684ba7658bd62487fccffb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:13 +0000
Subject: [PATCH 04/69] fix: RecordType.Concat must not share or overwrite its
 inputs' storage

---
 types/precison_timestamp_types.go | 2 ++
 types/types.go                    | 4 +++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/types/precison_timestamp_types.go b/types/precison_timestamp_types.go
index ae650bf..d03f5bd 100644
--- a/types/precison_timestamp_types.go
+++ b/types/precison_timestamp_types.go
@@ -206,6 +206,8 @@ func (m *PrecisionTimestampTzType) Equals(rhs Type) bool {
 	return false
 }
 
+func (m *PrecisionTimestampTzType) GetType() Type { return m }
+
 func (m *PrecisionTimestampTzType) GetNullability() Nullability {
 	return m.Nullability
 }
diff --git a/types/types.go b/types/types.go
index 567d429..e33600d 100644
--- a/types/types.go
+++ b/types/types.go
@@ -1825,7 +1825,9 @@ func (r RecordType) Types() []Type {
 }
 
 func (r RecordType) Concat(other RecordType) RecordType {
-	return RecordType{types: append(r.Types(), other.Types()...)}
+	out := make([]Type, 0, len(r.types)+len(other.types))
+	out = append(out, r.types...)
+	return RecordType{types: append(out, other.types...)}
 }
 
 func (d Date) ToTimeString() string {
-- 
2.43.0


From 23bb939091e9e9ccf983d501d153d2ffa28e12aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:03 +0000
Subject: [PATCH 05/69] fix: ParseType rejects unrecognised characters and
 integer parameters out of range

---
 types/parser/parse.go   | 5 +++--
 types/parser/visitor.go | 7 ++++++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/types/parser/parse.go b/types/parser/parse.go
index a6418af..d96e9c4 100644
--- a/types/parser/parse.go
+++ b/types/parser/parse.go
@@ -41,13 +41,14 @@ func (t *TypeExpression) UnmarshalYAML(fn func(interface{}) error) error {
 func ParseType(input string) (types.FuncDefArgType, error) {
 	is := antlr.NewInputStream(input)
 	lexer := baseparser2.NewSubstraitTypeLexer(is)
+	errorListener := util.NewSimpleErrorListener()
+	lexer.AddErrorListener(errorListener)
 	stream := antlr.NewCommonTokenStream(lexer, 0)
 	p := baseparser2.NewSubstraitTypeParser(stream)
-	errorListener := util.NewSimpleErrorListener()
 	p.AddErrorListener(errorListener)
 	p.GetInterpreter().SetPredictionMode(antlr.PredictionModeSLL)
 
-	visitor := &TypeVisitor{}
+	visitor := &TypeVisitor{ErrorListener: errorListener}
 	ret, err := parseType(input, p, errorListener, visitor)
 	if err != nil {
 		return nil, err
diff --git a/types/parser/visitor.go b/types/parser/visitor.go
index 13c66ae..8b2eb83 100644
--- a/types/parser/visitor.go
+++ b/types/parser/visitor.go
@@ -2,6 +2,7 @@ package parser
 
 import (
 	"fmt"
+	"math"
 	"strconv"
 	"strings"
 
@@ -197,6 +198,10 @@ func (v *TypeVisitor) VisitUserDefined(ctx *baseparser2.UserDefinedContext) inte
 		case types.FuncDefArgType:
 			params = append(params, &types.DataTypeUDTParam{Type: param})
 		case *types.LiteralNumber:
+			if param.Value < math.MinInt32 || param.Value > math.MaxInt32 {
+				v.ErrorListener.ReportVisitError(ctx, fmt.Errorf(
+					"user defined type parameter %d is out of range", param.Value))
+			}
 			params = append(params, &types.IntegerUDTParam{Integer: int32(param.Value)})
 		case types.StringParameter:
 			params = append(params, &types.StringUDTParam{StringVal: string(param)})
@@ -375,7 +380,7 @@ func (v *TypeVisitor) VisitParameterName(ctx *baseparser2.ParameterNameContext)
 }
 
 func (v *TypeVisitor) VisitNumericLiteral(ctx *baseparser2.NumericLiteralContext) interface{} {
-	num, err := strconv.ParseInt(ctx.Number().GetText(), 10, 0)
+	num, err := strconv.ParseInt(ctx.Number().GetText(), 10, 32)
 	if err != nil {
 		v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("error parsing type parameter as number: %s", err))
 		return integer_parameters.NewConcreteIntParam(0)
-- 
2.43.0


From c9f0b4906dead09e39d29f74faebd89b83382b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:40 +0000
Subject: [PATCH 06/69] fix: type expressions print in a form that parses back,
 any-variables ignore case

---
 types/parameterized_func_type.go | 10 +++++++++-
 types/parser/visitor.go          |  3 ++-
 types/type_derivation.go         | 18 ++++++++++++++----
 3 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/types/parameterized_func_type.go b/types/parameterized_func_type.go
index ce9fe8f..0a05395 100644
--- a/types/parameterized_func_type.go
+++ b/types/parameterized_func_type.go
@@ -8,7 +8,7 @@ import (
 )
 
 // ParameterizedFuncType is a parameterized function type
-// example: func<any1 -> any2> or func<i32, i32 -> i64> or func<T -> R>
+// example: func<any1 -> any2> or func<(i32, i32) -> i64> or func<T -> R>
 type ParameterizedFuncType struct {
 	Nullability Nullability
 	Parameters  []FuncDefArgType
@@ -27,12 +27,20 @@ func (f *ParameterizedFuncType) String() string {
 	b.WriteString("func")
 	b.WriteString(strFromNullability(f.Nullability))
 	b.WriteByte('<')
+	// the grammar accepts a parameter list without parentheses only for a single parameter
+	needParens := len(f.Parameters) != 1
+	if needParens {
+		b.WriteByte('(')
+	}
 	for i, p := range f.Parameters {
 		if i != 0 {
 			b.WriteString(", ")
 		}
 		b.WriteString(p.String())
 	}
+	if needParens {
+		b.WriteByte(')')
+	}
 	b.WriteString(" -> ")
 	b.WriteString(f.Return.String())
 	b.WriteByte('>')
diff --git a/types/parser/visitor.go b/types/parser/visitor.go
index 8b2eb83..66f9954 100644
--- a/types/parser/visitor.go
+++ b/types/parser/visitor.go
@@ -120,7 +120,8 @@ func (v *TypeVisitor) VisitAnyType(ctx *baseparser2.AnyTypeContext) interface{}
 
 	name := "any"
 	if ctx.AnyVar() != nil {
-		name = ctx.AnyVar().GetText()
+		// type names are case-insensitive: ANY1 and any1 are the same type variable
+		name = strings.ToLower(ctx.AnyVar().GetText())
 	}
 	return &types.AnyType{Name: name, Nullability: nullability}
 }
diff --git a/types/type_derivation.go b/types/type_derivation.go
index 3799ec1..3c8b0e1 100644
--- a/types/type_derivation.go
+++ b/types/type_derivation.go
@@ -151,7 +151,7 @@ func (b BinaryExpr) Evaluate(symbolTable map[string]any) (any, error) {
 }
 
 func (b BinaryExpr) String() string {
-	return fmt.Sprintf("(%s %s %s)", b.Left, b.Op, b.Right)
+	return fmt.Sprintf("(%s %s %s)", operandString(b.Left), b.Op, operandString(b.Right))
 }
 
 type IfExpr struct {
@@ -163,9 +163,19 @@ type IfExpr struct {
 
 func (i IfExpr) String() string {
 	if i.IsTernary {
-		return fmt.Sprintf("%s ? %s : %s", i.Condition, i.Then, i.Else)
+		return fmt.Sprintf("%s ? %s : %s", operandString(i.Condition), operandString(i.Then), operandString(i.Else))
 	}
-	return fmt.Sprintf("if %s then %s else %s", i.Condition, i.Then, i.Else)
+	return fmt.Sprintf("if %s then %s else %s", operandString(i.Condition), operandString(i.Then), operandString(i.Else))
+}
+
+// operandString gives the text of e for use as an operand: conditionals are
+// parenthesised, as they would otherwise take in what follows them.
+func operandString(e Expr) string {
+	switch e.(type) {
+	case IfExpr, *IfExpr:
+		return fmt.Sprintf("(%s)", e)
+	}
+	return e.String()
 }
 
 func (i IfExpr) Evaluate(symbolTable map[string]any) (any, error) {
@@ -184,7 +194,7 @@ type NotExpr struct {
 }
 
 func (n NotExpr) String() string {
-	return fmt.Sprintf("!%s", n.Expr)
+	return fmt.Sprintf("!%s", operandString(n.Expr))
 }
 
 func (n NotExpr) Evaluate(symbolTable map[string]any) (any, error) {
-- 
2.43.0


From 999162d0309047ed6dd28b469f017892e8b78b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:37 +0000
Subject: [PATCH 07/69] fix: function type parameters that are not types are
 rejected, negations print grouped

---
 types/parser/visitor.go  |  2 ++
 types/type_derivation.go | 12 +++++++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/types/parser/visitor.go b/types/parser/visitor.go
index 66f9954..674fefb 100644
--- a/types/parser/visitor.go
+++ b/types/parser/visitor.go
@@ -351,6 +351,8 @@ func (v *TypeVisitor) VisitFunc(ctx *baseparser2.FuncContext) interface{} {
 			paramTypes = p
 		case types.FuncDefArgType:
 			paramTypes = []types.FuncDefArgType{p}
+		default:
+			v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("func parameter is not a FuncDefArgType, type %T", p))
 		}
 	}
 
diff --git a/types/type_derivation.go b/types/type_derivation.go
index 3c8b0e1..8e5bde2 100644
--- a/types/type_derivation.go
+++ b/types/type_derivation.go
@@ -151,7 +151,7 @@ func (b BinaryExpr) Evaluate(symbolTable map[string]any) (any, error) {
 }
 
 func (b BinaryExpr) String() string {
-	return fmt.Sprintf("(%s %s %s)", operandString(b.Left), b.Op, operandString(b.Right))
+	return fmt.Sprintf("(%s %s %s)", binaryOperandString(b.Left), b.Op, binaryOperandString(b.Right))
 }
 
 type IfExpr struct {
@@ -189,6 +189,16 @@ func (i IfExpr) Evaluate(symbolTable map[string]any) (any, error) {
 	return i.Else.Evaluate(symbolTable)
 }
 
+// binaryOperandString gives the text of e for use as an operand of a binary
+// operator, which binds more tightly than a negation.
+func binaryOperandString(e Expr) string {
+	switch e.(type) {
+	case NotExpr, *NotExpr:
+		return fmt.Sprintf("(%s)", e)
+	}
+	return operandString(e)
+}
+
 type NotExpr struct {
 	Expr Expr
 }
-- 
2.43.0


From 8435799c263af225966321fd94421caaddc2a1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:02 +0000
Subject: [PATCH 08/69] fix: user-defined types report integer parameters of
 any type argument

---
 types/parameterized_user_defined_type.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/types/parameterized_user_defined_type.go b/types/parameterized_user_defined_type.go
index 1c68a20..91aecfc 100644
--- a/types/parameterized_user_defined_type.go
+++ b/types/parameterized_user_defined_type.go
@@ -134,8 +134,8 @@ func (m *ParameterizedUserDefinedType) String() string {
 
 func (m *ParameterizedUserDefinedType) HasParameterizedParam() bool {
 	for _, typ := range m.TypeParameters {
-		if param, ok := typ.(*DataTypeUDTParam); ok {
-			return param.Type.HasParameterizedParam()
+		if param, ok := typ.(*DataTypeUDTParam); ok && param.Type.HasParameterizedParam() {
+			return true
 		}
 	}
 	return false
-- 
2.43.0


From f25ae5a50a840bdc4d5c85751112a0da81ca15eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:28 +0000
Subject: [PATCH 09/69] fix: type derivations bind nested and temporal
 parameters and report bad formulas as errors

---
 types/parameterized_decimal_type.go           |  14 +-
 ...parameterized_single_integer_param_type.go |  13 +-
 types/type_derivation.go                      | 294 +++++++++++++++---
 3 files changed, 259 insertions(+), 62 deletions(-)

diff --git a/types/parameterized_decimal_type.go b/types/parameterized_decimal_type.go
index a579e54..2149059 100644
--- a/types/parameterized_decimal_type.go
+++ b/types/parameterized_decimal_type.go
@@ -87,11 +87,13 @@ func (m *ParameterizedDecimalType) WithParameters(params []interface{}) (Type, e
 		}
 		return nil, fmt.Errorf("decimal type must have 2 parameters")
 	}
-	if precision, ok := params[0].(int64); ok {
-		if scale, ok := params[1].(int64); ok {
-			return &DecimalType{Nullability: m.Nullability, Precision: int32(precision), Scale: int32(scale)}, nil
-		}
-		return nil, fmt.Errorf("scale must be an integer")
+	precision, err := int32Parameter(params[0])
+	if err != nil {
+		return nil, fmt.Errorf("decimal precision: %w", err)
+	}
+	scale, err := int32Parameter(params[1])
+	if err != nil {
+		return nil, fmt.Errorf("decimal scale: %w", err)
 	}
-	return nil, fmt.Errorf("precision must be an integer, but got %t", params[0])
+	return &DecimalType{Nullability: m.Nullability, Precision: precision, Scale: scale}, nil
 }
diff --git a/types/parameterized_single_integer_param_type.go b/types/parameterized_single_integer_param_type.go
index 6b2c4bc..f176466 100644
--- a/types/parameterized_single_integer_param_type.go
+++ b/types/parameterized_single_integer_param_type.go
@@ -114,14 +114,9 @@ func (m *parameterizedTypeSingleIntegerParam[T]) WithParameters(params []interfa
 		}
 		return nil, fmt.Errorf("type must have 1 parameter")
 	}
-	switch params[0].(type) {
-	case int64:
-		return m.getNewInstance().GetReturnType(int32(params[0].(int64)), m.Nullability), nil
-	case int32:
-		return m.getNewInstance().GetReturnType(params[0].(int32), m.Nullability), nil
-	case TimePrecision:
-		return m.getNewInstance().GetReturnType(int32(params[0].(TimePrecision)), m.Nullability), nil
-	default:
-		return nil, fmt.Errorf("unknown parameter type for integer parameter")
+	length, err := int32Parameter(params[0])
+	if err != nil {
+		return nil, err
 	}
+	return m.getNewInstance().GetReturnType(length, m.Nullability), nil
 }
diff --git a/types/type_derivation.go b/types/type_derivation.go
index 8e5bde2..47e94d6 100644
--- a/types/type_derivation.go
+++ b/types/type_derivation.go
@@ -2,6 +2,7 @@ package types
 
 import (
 	"fmt"
+	"math"
 	"strings"
 
 	"github.com/substrait-io/substrait-go/v8/types/integer_parameters"
@@ -120,36 +121,71 @@ func (b BinaryExpr) Evaluate(symbolTable map[string]any) (any, error) {
 	if err != nil {
 		return nil, err
 	}
+	if b.Op == And || b.Op == Or {
+		l, err := evaluatedBool(b.Left, left)
+		if err != nil {
+			return nil, err
+		}
+		r, err := evaluatedBool(b.Right, right)
+		if err != nil {
+			return nil, err
+		}
+		if b.Op == And {
+			return l && r, nil
+		}
+		return l || r, nil
+	}
+	l, err := evaluatedInt(b.Left, left)
+	if err != nil {
+		return nil, err
+	}
+	r, err := evaluatedInt(b.Right, right)
+	if err != nil {
+		return nil, err
+	}
 	switch b.Op {
 	case Plus:
-		return left.(int64) + right.(int64), nil
+		return l + r, nil
 	case Minus:
-		return left.(int64) - right.(int64), nil
+		return l - r, nil
 	case Multiply:
-		return left.(int64) * right.(int64), nil
+		return l * r, nil
 	case Divide:
-		return left.(int64) / right.(int64), nil
+		if r == 0 {
+			return nil, fmt.Errorf("division by zero in %s", b)
+		}
+		return l / r, nil
 	case LT:
-		return left.(int64) < right.(int64), nil
+		return l < r, nil
 	case LTE:
-		return left.(int64) <= right.(int64), nil
+		return l <= r, nil
 	case GT:
-		return left.(int64) > right.(int64), nil
+		return l > r, nil
 	case GTE:
-		return left.(int64) >= right.(int64), nil
+		return l >= r, nil
 	case EQ:
-		return left.(int64) == right.(int64), nil
+		return l == r, nil
 	case NEQ:
-		return left.(int64) != right.(int64), nil
-	case And:
-		return left.(bool) && right.(bool), nil
-	case Or:
-		return left.(bool) || right.(bool), nil
+		return l != r, nil
 	default:
-		panic("Invalid binary operator")
+		return nil, fmt.Errorf("invalid binary operator %d", b.Op)
 	}
 }
 
+func evaluatedInt(e Expr, v any) (int64, error) {
+	if i, ok := v.(int64); ok {
+		return i, nil
+	}
+	return 0, fmt.Errorf("%s should be an integer, but is %T", e, v)
+}
+
+func evaluatedBool(e Expr, v any) (bool, error) {
+	if b, ok := v.(bool); ok {
+		return b, nil
+	}
+	return false, fmt.Errorf("%s should be a boolean, but is %T", e, v)
+}
+
 func (b BinaryExpr) String() string {
 	return fmt.Sprintf("(%s %s %s)", binaryOperandString(b.Left), b.Op, binaryOperandString(b.Right))
 }
@@ -183,7 +219,11 @@ func (i IfExpr) Evaluate(symbolTable map[string]any) (any, error) {
 	if err != nil {
 		return nil, err
 	}
-	if condition.(bool) {
+	holds, err := evaluatedBool(i.Condition, condition)
+	if err != nil {
+		return nil, err
+	}
+	if holds {
 		return i.Then.Evaluate(symbolTable)
 	}
 	return i.Else.Evaluate(symbolTable)
@@ -212,7 +252,11 @@ func (n NotExpr) Evaluate(symbolTable map[string]any) (any, error) {
 	if err != nil {
 		return nil, err
 	}
-	return !result.(bool), nil
+	b, err := evaluatedBool(n.Expr, result)
+	if err != nil {
+		return nil, err
+	}
+	return !b, nil
 }
 
 type FunctionCallExpr struct {
@@ -235,26 +279,28 @@ func (f FunctionCallExpr) String() string {
 }
 
 func (f FunctionCallExpr) Evaluate(symbolTable map[string]any) (any, error) {
-	args := make([]any, len(f.Args))
+	args := make([]int64, len(f.Args))
 	for i, arg := range f.Args {
 		result, err := arg.Evaluate(symbolTable)
 		if err != nil {
 			return nil, err
 		}
-		args[i] = result
+		if args[i], err = evaluatedInt(arg, result); err != nil {
+			return nil, err
+		}
 	}
-	switch f.Name {
-	case "abs":
-		if args[0].(int64) < 0 {
-			return -args[0].(int64), nil
+	switch {
+	case f.Name == "abs" && len(args) == 1:
+		if args[0] < 0 {
+			return -args[0], nil
 		}
-		return args[0].(int64), nil
-	case "max":
-		return max(args[0].(int64), args[1].(int64)), nil
-	case "min":
-		return min(args[0].(int64), args[1].(int64)), nil
+		return args[0], nil
+	case f.Name == "max" && len(args) == 2:
+		return max(args[0], args[1]), nil
+	case f.Name == "min" && len(args) == 2:
+		return min(args[0], args[1]), nil
 	default:
-		return nil, fmt.Errorf("unknown function %s", f.Name)
+		return nil, fmt.Errorf("unknown function %s with %d arguments", f.Name, len(args))
 	}
 }
 
@@ -329,26 +375,92 @@ type SymbolInfo struct {
 
 func buildTypeParametersNameValueMap(funcParameters []FuncDefArgType, argumentTypes []Type) (map[string]any, error) {
 	symbolTable := make(map[string]any)
-	for i, p := range funcParameters {
-		paramNames := p.GetParameterizedParams()
-		if len(paramNames) > 0 {
-			paramValues := argumentTypes[i].GetParameters()
-			if len(paramNames) != len(paramValues) {
-				return nil, fmt.Errorf("function parameter %s has %d parameters, but %d were provided", p.String(), len(paramNames), len(paramValues))
+	// with a variadic function there may be fewer or more arguments than parameters
+	for i := 0; i < min(len(funcParameters), len(argumentTypes)); i++ {
+		if err := bindIntegerParameters(funcParameters[i], argumentTypes[i], symbolTable); err != nil {
+			return nil, err
+		}
+	}
+	return symbolTable, nil
+}
+
+// bindIntegerParameters records in symbolTable the values which the integer
+// parameters of p, at any depth, have in the type t.
+func bindIntegerParameters(p FuncDefArgType, t Type, symbolTable map[string]any) error {
+	if !p.HasParameterizedParam() {
+		return nil
+	}
+	switch def := p.(type) {
+	case *ParameterizedListType:
+		if list, ok := t.(*ListType); ok {
+			return bindIntegerParameters(def.Type, list.Type, symbolTable)
+		}
+	case *ParameterizedMapType:
+		if m, ok := t.(*MapType); ok {
+			if err := bindIntegerParameters(def.Key, m.Key, symbolTable); err != nil {
+				return err
+			}
+			return bindIntegerParameters(def.Value, m.Value, symbolTable)
+		}
+	case *ParameterizedStructType:
+		if st, ok := t.(*StructType); ok && len(st.Types) == len(def.Types) {
+			for i, field := range def.Types {
+				if err := bindIntegerParameters(field, st.Types[i], symbolTable); err != nil {
+					return err
+				}
+			}
+			return nil
+		}
+	case *ParameterizedFuncType:
+		if ft, ok := t.(*FuncType); ok && len(ft.ParameterTypes) == len(def.Parameters) {
+			for i, param := range def.Parameters {
+				if err := bindIntegerParameters(param, ft.ParameterTypes[i], symbolTable); err != nil {
+					return err
+				}
 			}
-			for j, param := range paramNames {
-				if intParam, ok := param.(*integer_parameters.VariableIntParam); ok {
-					name := string(*intParam)
-					if existingValue, ok := symbolTable[name]; ok && existingValue != paramValues[j] {
-						return nil, fmt.Errorf("sync parameters %s has conflicting values: %v and %v", name, existingValue, paramValues[j])
-					}
-					symbolTable[name] = paramValues[j]
+			return bindIntegerParameters(def.Return, ft.ReturnType, symbolTable)
+		}
+	case *ParameterizedUserDefinedType:
+		if udt, ok := t.(*UserDefinedType); ok && len(udt.TypeParameters) == len(def.TypeParameters) {
+			for i, param := range def.TypeParameters {
+				defParam, ok := param.(*DataTypeUDTParam)
+				if !ok {
 					continue
 				}
+				argParam, ok := udt.TypeParameters[i].(*DataTypeParameter)
+				if !ok {
+					return fmt.Errorf("function parameter %s does not match argument type %s", p, t)
+				}
+				if err := bindIntegerParameters(defParam.Type, argParam.Type, symbolTable); err != nil {
+					return err
+				}
+			}
+			return nil
+		}
+	default:
+		paramNames := p.GetParameterizedParams()
+		paramValues := t.GetParameters()
+		if len(paramNames) != len(paramValues) {
+			return fmt.Errorf("function parameter %s has %d parameters, but %d were provided", p, len(paramNames), len(paramValues))
+		}
+		for j, param := range paramNames {
+			intParam, ok := param.(*integer_parameters.VariableIntParam)
+			if !ok {
+				continue
+			}
+			value := paramValues[j]
+			if precision, ok := value.(TimePrecision); ok {
+				value = int64(precision)
+			}
+			name := string(*intParam)
+			if existingValue, ok := symbolTable[name]; ok && existingValue != value {
+				return fmt.Errorf("sync parameters %s has conflicting values: %v and %v", name, existingValue, value)
 			}
+			symbolTable[name] = value
 		}
+		return nil
 	}
-	return symbolTable, nil
+	return fmt.Errorf("function parameter %s does not match argument type %s", p, t)
 }
 
 func (m *OutputDerivation) ReturnType(funcParameters []FuncDefArgType, argumentTypes []Type) (Type, error) {
@@ -366,8 +478,80 @@ func (m *OutputDerivation) ReturnType(funcParameters []FuncDefArgType, argumentT
 		}
 	}
 
-	// make slice of parameters for final type
-	parametrizedParams := m.FinalType.GetParameterizedParams()
+	return resolveIntegerParameters(m.FinalType, symbolTable, funcParameters, argumentTypes)
+}
+
+// resolveIntegerParameters gives the concrete type that t denotes when its
+// integer parameters, at any depth, have the values in symbolTable.
+func resolveIntegerParameters(t FuncDefArgType, symbolTable map[string]any, funcParameters []FuncDefArgType, argumentTypes []Type) (Type, error) {
+	if !t.HasParameterizedParam() {
+		return t.ReturnType(funcParameters, argumentTypes)
+	}
+	resolve := func(child FuncDefArgType) (Type, error) {
+		return resolveIntegerParameters(child, symbolTable, funcParameters, argumentTypes)
+	}
+	resolveAll := func(children []FuncDefArgType) ([]Type, error) {
+		out := make([]Type, len(children))
+		for i, child := range children {
+			resolved, err := resolve(child)
+			if err != nil {
+				return nil, err
+			}
+			out[i] = resolved
+		}
+		return out, nil
+	}
+	switch def := t.(type) {
+	case *ParameterizedListType:
+		elem, err := resolve(def.Type)
+		if err != nil {
+			return nil, err
+		}
+		return &ListType{Nullability: def.Nullability, Type: elem}, nil
+	case *ParameterizedMapType:
+		kv, err := resolveAll([]FuncDefArgType{def.Key, def.Value})
+		if err != nil {
+			return nil, err
+		}
+		return &MapType{Nullability: def.Nullability, Key: kv[0], Value: kv[1]}, nil
+	case *ParameterizedStructType:
+		fields, err := resolveAll(def.Types)
+		if err != nil {
+			return nil, err
+		}
+		return &StructType{Nullability: def.Nullability, Types: fields}, nil
+	case *ParameterizedFuncType:
+		params, err := resolveAll(def.Parameters)
+		if err != nil {
+			return nil, err
+		}
+		ret, err := resolve(def.Return)
+		if err != nil {
+			return nil, err
+		}
+		return &FuncType{Nullability: def.Nullability, ParameterTypes: params, ReturnType: ret}, nil
+	case *ParameterizedUserDefinedType:
+		params := make([]TypeParam, len(def.TypeParameters))
+		for i, p := range def.TypeParameters {
+			if dataParam, ok := p.(*DataTypeUDTParam); ok {
+				resolved, err := resolve(dataParam.Type)
+				if err != nil {
+					return nil, err
+				}
+				params[i] = &DataTypeParameter{Type: resolved}
+				continue
+			}
+			param, err := p.toTypeParam()
+			if err != nil {
+				return nil, err
+			}
+			params[i] = param
+		}
+		return &UserDefinedType{Nullability: def.Nullability, TypeParameters: params}, nil
+	}
+
+	// make slice of parameters for the type
+	parametrizedParams := t.GetParameterizedParams()
 	params := make([]interface{}, 0, len(parametrizedParams))
 	for _, p := range parametrizedParams {
 		switch param := p.(type) {
@@ -384,11 +568,27 @@ func (m *OutputDerivation) ReturnType(funcParameters []FuncDefArgType, argumentT
 		}
 	}
 
-	return m.FinalType.WithParameters(params)
+	return t.WithParameters(params)
+}
+
+// int32Parameter gives the value of an integer type parameter.
+func int32Parameter(param interface{}) (int32, error) {
+	switch v := param.(type) {
+	case int64:
+		if v < math.MinInt32 || v > math.MaxInt32 {
+			return 0, fmt.Errorf("integer parameter %d is out of range", v)
+		}
+		return int32(v), nil
+	case int32:
+		return v, nil
+	case TimePrecision:
+		return int32(v), nil
+	}
+	return 0, fmt.Errorf("integer parameter must be an integer, but got %T", param)
 }
 
 func (m *OutputDerivation) WithParameters([]interface{}) (Type, error) {
-	panic("WithParameters not to be called")
+	return nil, fmt.Errorf("a type derivation has no parameters")
 }
 
 func AreSyncTypeParametersMatching(funcParameters []FuncDefArgType, argumentTypes []Type) bool {
-- 
2.43.0


From 9869ea237a5bda992175de14ab0b1822f31d3074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:16 +0000
Subject: [PATCH 10/69] fix: variadic arguments are counted, bounded and
 checked for nullability like any other

---
 extensions/simple_extension.go |  4 +++-
 extensions/variants.go         | 28 +++++++++++++++++-----------
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/extensions/simple_extension.go b/extensions/simple_extension.go
index 5a4a259..f83216d 100644
--- a/extensions/simple_extension.go
+++ b/extensions/simple_extension.go
@@ -224,8 +224,10 @@ func (v *VariadicBehavior) IsValidArgumentCount(count int) bool {
 	return v != nil && count >= v.Min && (count <= v.Max || v.Max == 0)
 }
 
+// IsValidArgumentPosition returns whether there may be a variadic argument at
+// index, where 0 is the first of the variadic arguments.
 func (v *VariadicBehavior) IsValidArgumentPosition(index int) bool {
-	return v != nil && index >= 0 && (index <= v.Max || v.Max == 0)
+	return v != nil && index >= 0 && (index < v.Max || v.Max == 0)
 }
 
 type Function interface {
diff --git a/extensions/variants.go b/extensions/variants.go
index e8cb077..6da4712 100644
--- a/extensions/variants.go
+++ b/extensions/variants.go
@@ -111,8 +111,8 @@ func EvaluateTypeExpression(urn string, nullHandling NullabilityHandling, return
 		allNonNull = allNonNull && nonNull
 	}
 
-	// validate variadic argument consistency
-	if variadic != nil && len(argumentTypes) > len(funcParameters) && variadic.ParameterConsistency == ConsistentParams {
+	// validate the repeated variadic arguments
+	if variadic != nil && len(funcParameters) > 0 && len(argumentTypes) > len(funcParameters) {
 		nparams := len(funcParameters)
 		lastParam := funcParameters[nparams-1]
 		for i, actual := range argumentTypes[nparams:] {
@@ -166,7 +166,10 @@ func matchArguments(nullability NullabilityHandling, paramTypeList FuncParameter
 	if variadicBehavior == nil && len(actualTypes) != len(paramTypeList) {
 		return false, nil
 	} else if variadicBehavior != nil {
-		numNonVariadicArgs := len(paramTypeList) - 1
+		numNonVariadicArgs := max(len(paramTypeList)-1, 0)
+		if len(actualTypes) < numNonVariadicArgs {
+			return false, nil
+		}
 		if !validateVariadicBehaviorForMatch(variadicBehavior, actualTypes[numNonVariadicArgs:]) {
 			return false, nil
 		}
@@ -186,8 +189,8 @@ func matchArguments(nullability NullabilityHandling, paramTypeList FuncParameter
 			return false, nil
 		}
 	}
-	if HasSyncParams(funcDefArgList) {
-		return types.AreSyncTypeParametersMatching(funcDefArgList, actualTypes), nil
+	if !types.AreSyncTypeParametersMatching(funcDefArgList, actualTypes) {
+		return false, nil
 	}
 
 	if err := ValidateConstrainedAnyTypeConsistency(funcDefArgList, actualTypes, variadicBehavior); err != nil {
@@ -211,9 +214,13 @@ func matchArgumentAtCommon(actualType types.Type, argPos int, nullability Nullab
 	// check if argument out of range
 	if variadicBehavior == nil && argPos >= len(funcDefArgList) {
 		return false, nil
-	} else if variadicBehavior != nil && !variadicBehavior.IsValidArgumentPosition(argPos) {
-		// this argument position can't be more than the max allowed by the variadic behavior
-		return false, nil
+	} else if variadicBehavior != nil {
+		numNonVariadicArgs := max(len(funcDefArgList)-1, 0)
+		if len(funcDefArgList) == 0 ||
+			(argPos >= numNonVariadicArgs && !variadicBehavior.IsValidArgumentPosition(argPos-numNonVariadicArgs)) {
+			// this argument position can't be more than the max allowed by the variadic behavior
+			return false, nil
+		}
 	}
 
 	// if argPos is >= len(funcDefArgList) than last funcDefArg type should be considered for type match
@@ -227,7 +234,7 @@ func matchArgumentAtCommon(actualType types.Type, argPos int, nullability Nullab
 	switch nullability {
 	case DiscreteNullability:
 		return funcDefArg.MatchWithNullability(actualType), nil
-	case MirrorNullability, DeclaredOutputNullability:
+	case MirrorNullability, DeclaredOutputNullability, "":
 		return funcDefArg.MatchWithoutNullability(actualType), nil
 	}
 	// unreachable case
@@ -243,8 +250,7 @@ func validateVariadicBehaviorForMatch(variadicBehavior *VariadicBehavior, actual
 	// verify consistency of variadic behavior
 	if variadicBehavior.ParameterConsistency == ConsistentParams {
 		// all concrete types must be equal for all variable arguments
-		firstVariadicArgIdx := max(variadicBehavior.Min-1, 0)
-		for i := firstVariadicArgIdx; i < len(actualTypes)-1; i++ {
+		for i := 0; i < len(actualTypes)-1; i++ {
 			if !actualTypes[i].Equals(actualTypes[i+1].WithNullability(actualTypes[i].GetNullability())) {
 				return false
 			}
-- 
2.43.0


From bcb4ab03b6c9d8a8a38d035a1b3bf4fafb7ab85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:41 +0000
Subject: [PATCH 11/69] fix: type variables inside function and user-defined
 types bind and match like any other

---
 extensions/variants.go                   | 73 +++++++++++++++++++++---
 types/any_type.go                        | 22 ++++++-
 types/parameterized_func_type.go         | 11 +++-
 types/parameterized_user_defined_type.go |  8 +--
 4 files changed, 100 insertions(+), 14 deletions(-)

diff --git a/extensions/variants.go b/extensions/variants.go
index 6da4712..082b5a2 100644
--- a/extensions/variants.go
+++ b/extensions/variants.go
@@ -142,15 +142,11 @@ func EvaluateTypeExpression(urn string, nullHandling NullabilityHandling, return
 		return nil, err
 	}
 
-	// If the return type expression is a ParameterizedUserDefinedType, we need to
+	// If the return type expression contains a ParameterizedUserDefinedType, we need to
 	// fill in the TypeReference since ParameterizedUserDefinedType.ReturnType()
 	// doesn't have access to the registry to set it itself.
 	// For other types like AnyType, the TypeReference is already correctly set.
-	if udt, ok := outType.(*types.UserDefinedType); ok {
-		if paramUDT, ok := returnTypeExpr.(*types.ParameterizedUserDefinedType); ok {
-			udt.TypeReference = registry.GetTypeAnchor(TypeID{Name: paramUDT.Name, URN: urn})
-		}
-	}
+	setUserDefinedTypeReferences(urn, returnTypeExpr, outType, registry)
 
 	if nullHandling == MirrorNullability || nullHandling == "" {
 		if allNonNull {
@@ -162,6 +158,48 @@ func EvaluateTypeExpression(urn string, nullHandling NullabilityHandling, return
 	return outType, nil
 }
 
+// setUserDefinedTypeReferences sets the TypeReference of every user-defined type
+// in outType which typeExpr spells out.
+func setUserDefinedTypeReferences(urn string, typeExpr types.FuncDefArgType, outType types.Type, registry Set) {
+	switch expr := typeExpr.(type) {
+	case *types.OutputDerivation:
+		setUserDefinedTypeReferences(urn, expr.FinalType, outType, registry)
+	case *types.ParameterizedUserDefinedType:
+		if udt, ok := outType.(*types.UserDefinedType); ok {
+			udt.TypeReference = registry.GetTypeAnchor(TypeID{Name: expr.Name, URN: urn})
+			for i, param := range expr.TypeParameters {
+				if dataParam, ok := param.(*types.DataTypeUDTParam); ok && i < len(udt.TypeParameters) {
+					if outParam, ok := udt.TypeParameters[i].(*types.DataTypeParameter); ok {
+						setUserDefinedTypeReferences(urn, dataParam.Type, outParam.Type, registry)
+					}
+				}
+			}
+		}
+	case *types.ParameterizedListType:
+		if list, ok := outType.(*types.ListType); ok {
+			setUserDefinedTypeReferences(urn, expr.Type, list.Type, registry)
+		}
+	case *types.ParameterizedMapType:
+		if m, ok := outType.(*types.MapType); ok {
+			setUserDefinedTypeReferences(urn, expr.Key, m.Key, registry)
+			setUserDefinedTypeReferences(urn, expr.Value, m.Value, registry)
+		}
+	case *types.ParameterizedStructType:
+		if st, ok := outType.(*types.StructType); ok && len(st.Types) == len(expr.Types) {
+			for i, field := range expr.Types {
+				setUserDefinedTypeReferences(urn, field, st.Types[i], registry)
+			}
+		}
+	case *types.ParameterizedFuncType:
+		if fn, ok := outType.(*types.FuncType); ok && len(fn.ParameterTypes) == len(expr.Parameters) {
+			for i, param := range expr.Parameters {
+				setUserDefinedTypeReferences(urn, param, fn.ParameterTypes[i], registry)
+			}
+			setUserDefinedTypeReferences(urn, expr.Return, fn.ReturnType, registry)
+		}
+	}
+}
+
 func matchArguments(nullability NullabilityHandling, paramTypeList FuncParameterList, variadicBehavior *VariadicBehavior, actualTypes []types.Type) (bool, error) {
 	if variadicBehavior == nil && len(actualTypes) != len(paramTypeList) {
 		return false, nil
@@ -682,7 +720,7 @@ func getLeafParameterizedParams(abstractTypes interface{}) []string {
 }
 
 // validateAnyTypeBinding validates and records the binding of an AnyType parameter to a concrete type.
-// It recursively handles nested types (lists, maps, structs).
+// It recursively handles nested types (lists, maps, structs, functions, user-defined types).
 func validateAnyTypeBinding(paramType types.FuncDefArgType, argType types.Type, bindings map[string]types.Type) error {
 	switch p := paramType.(type) {
 	case *types.AnyType:
@@ -755,6 +793,27 @@ func validateAnyTypeBinding(paramType types.FuncDefArgType, argType types.Type,
 				}
 			}
 		}
+	case *types.ParameterizedFuncType:
+		if funcType, ok := argType.(*types.FuncType); ok && len(funcType.ParameterTypes) == len(p.Parameters) {
+			for i, param := range p.Parameters {
+				if err := validateAnyTypeBinding(param, funcType.ParameterTypes[i], bindings); err != nil {
+					return err
+				}
+			}
+			return validateAnyTypeBinding(p.Return, funcType.ReturnType, bindings)
+		}
+	case *types.ParameterizedUserDefinedType:
+		if udt, ok := argType.(*types.UserDefinedType); ok && len(udt.TypeParameters) == len(p.TypeParameters) {
+			for i, param := range p.TypeParameters {
+				defParam, isType := param.(*types.DataTypeUDTParam)
+				argParam, argIsType := udt.TypeParameters[i].(*types.DataTypeParameter)
+				if isType && argIsType {
+					if err := validateAnyTypeBinding(defParam.Type, argParam.Type, bindings); err != nil {
+						return err
+					}
+				}
+			}
+		}
 	}
 	return nil
 }
diff --git a/types/any_type.go b/types/any_type.go
index 4b065b7..4271ffe 100644
--- a/types/any_type.go
+++ b/types/any_type.go
@@ -99,7 +99,7 @@ func unwrapAnyTypeWithName(name string, p FuncDefArgType, argType Type) (Type, e
 	case *ParameterizedFuncType:
 		// FuncType.GetParameters() returns [paramTypes..., returnType]
 		// ParameterizedFuncType has Parameters (inputs) + Return (output), so append here
-		allDefTypes := append(arg.Parameters, arg.Return)
+		allDefTypes := append(slices.Clone(arg.Parameters), arg.Return)
 		argParams := argType.GetParameters()
 		if len(argParams) != len(allDefTypes) || slices.Contains(argParams, nil) {
 			return nil, fmt.Errorf("expected FuncType to have %d non-nil parameters, found %v",
@@ -114,6 +114,26 @@ func unwrapAnyTypeWithName(name string, p FuncDefArgType, argType Type) (Type, e
 				return pt, nil
 			}
 		}
+	case *ParameterizedUserDefinedType:
+		udt, ok := argType.(*UserDefinedType)
+		if !ok || len(udt.TypeParameters) != len(arg.TypeParameters) {
+			return nil, fmt.Errorf("expected UserDefinedType to have %d parameters, found %v",
+				len(arg.TypeParameters), argType)
+		}
+		for i, param := range arg.TypeParameters {
+			defParam, isType := param.(*DataTypeUDTParam)
+			argParam, argIsType := udt.TypeParameters[i].(*DataTypeParameter)
+			if !isType || !argIsType {
+				continue
+			}
+			pt, err := unwrapAnyTypeWithName(name, defParam.Type, argParam.Type)
+			if err != nil {
+				return nil, err
+			}
+			if pt != nil {
+				return pt, nil
+			}
+		}
 	}
 	// Didn't find matching AnyType.
 	return nil, nil
diff --git a/types/parameterized_func_type.go b/types/parameterized_func_type.go
index 0a05395..787a08e 100644
--- a/types/parameterized_func_type.go
+++ b/types/parameterized_func_type.go
@@ -80,7 +80,16 @@ func (f *ParameterizedFuncType) MatchWithNullability(ot Type) bool {
 	if f.Nullability != ot.GetNullability() {
 		return false
 	}
-	return f.MatchWithoutNullability(ot)
+	oft, ok := ot.(*FuncType)
+	if !ok || len(f.Parameters) != len(oft.ParameterTypes) {
+		return false
+	}
+	for i, pt := range f.Parameters {
+		if !pt.MatchWithNullability(oft.ParameterTypes[i]) {
+			return false
+		}
+	}
+	return f.Return.MatchWithNullability(oft.ReturnType)
 }
 
 // MatchWithoutNullability checks if this parameterized type matches the given concrete type
diff --git a/types/parameterized_user_defined_type.go b/types/parameterized_user_defined_type.go
index 91aecfc..bbb0d36 100644
--- a/types/parameterized_user_defined_type.go
+++ b/types/parameterized_user_defined_type.go
@@ -38,10 +38,8 @@ func (d *DataTypeUDTParam) toTypeParamWithArgs(funcParams []FuncDefArgType, argT
 }
 
 func (d *DataTypeUDTParam) MatchWithNullability(param TypeParam) bool {
-	if d.MatchWithoutNullability(param) {
-		if dataParam, ok := param.(*DataTypeParameter); ok {
-			return d.Type.GetNullability() == dataParam.Type.GetNullability()
-		}
+	if dataParam, ok := param.(*DataTypeParameter); ok {
+		return d.Type.MatchWithNullability(dataParam.Type)
 	}
 	return false
 }
@@ -69,7 +67,7 @@ func (i *IntegerUDTParam) toTypeParam() (TypeParam, error) {
 
 func (i *IntegerUDTParam) MatchWithoutNullability(param TypeParam) bool {
 	if intParam, ok := param.(IntegerParameter); ok {
-		return i.Integer == int32(intParam)
+		return int64(i.Integer) == int64(intParam)
 	}
 	return false
 }
-- 
2.43.0


From d6195905712b655f9181ef9bbc16e91e52da8910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:57 +0000
Subject: [PATCH 12/69] fix: extension sets keep anchors unique, stable and in
 order, also when they are sparse

---
 extensions/extension_mgr.go | 136 ++++++++++++++++++++----------------
 1 file changed, 77 insertions(+), 59 deletions(-)

diff --git a/extensions/extension_mgr.go b/extensions/extension_mgr.go
index 7eaa25a..2ae5e78 100644
--- a/extensions/extension_mgr.go
+++ b/extensions/extension_mgr.go
@@ -380,7 +380,9 @@ func (e *set) ToProto(c *Collection) ([]*extensions.SimpleExtensionURN, []*exten
 
 	urns := make([]*extensions.SimpleExtensionURN, 0, len(e.urns))
 	for anchor, urn := range e.urns {
-		urnBackRef[urn] = anchor
+		if first, ok := urnBackRef[urn]; !ok || anchor < first {
+			urnBackRef[urn] = anchor
+		}
 		urns = append(urns, &extensions.SimpleExtensionURN{
 			ExtensionUrnAnchor: anchor,
 			Urn:                urn,
@@ -390,8 +392,8 @@ func (e *set) ToProto(c *Collection) ([]*extensions.SimpleExtensionURN, []*exten
 	// Sort URN extensions by the anchor for consistent output
 	sort.Slice(urns, func(i, j int) bool { return urns[i].ExtensionUrnAnchor < urns[j].ExtensionUrnAnchor })
 
-	decls := make([]*extensions.SimpleExtensionDeclaration, 0, len(e.types)+len(e.typeVariations)+len(e.funcs))
-	for id, anchor := range e.types {
+	decls := make([]*extensions.SimpleExtensionDeclaration, 0, len(e.typesMap)+len(e.typeVariationMap)+len(e.funcMap))
+	for anchor, id := range e.typesMap {
 		decls = append(decls, &extensions.SimpleExtensionDeclaration{
 			MappingType: &extensions.SimpleExtensionDeclaration_ExtensionType_{
 				ExtensionType: &extensions.SimpleExtensionDeclaration_ExtensionType{
@@ -408,7 +410,7 @@ func (e *set) ToProto(c *Collection) ([]*extensions.SimpleExtensionURN, []*exten
 	})
 	typesCount := len(decls)
 
-	for id, anchor := range e.typeVariations {
+	for anchor, id := range e.typeVariationMap {
 		decls = append(decls, &extensions.SimpleExtensionDeclaration{
 			MappingType: &extensions.SimpleExtensionDeclaration_ExtensionTypeVariation_{
 				ExtensionTypeVariation: &extensions.SimpleExtensionDeclaration_ExtensionTypeVariation{
@@ -422,11 +424,11 @@ func (e *set) ToProto(c *Collection) ([]*extensions.SimpleExtensionURN, []*exten
 
 	typeDecls := decls[typesCount:]
 	sort.Slice(typeDecls, func(i, j int) bool {
-		return decls[i].GetExtensionTypeVariation().TypeVariationAnchor < decls[j].GetExtensionTypeVariation().TypeVariationAnchor
+		return typeDecls[i].GetExtensionTypeVariation().TypeVariationAnchor < typeDecls[j].GetExtensionTypeVariation().TypeVariationAnchor
 	})
 
 	typeVarCount := len(decls)
-	for id, anchor := range e.funcs {
+	for anchor, id := range e.funcMap {
 		decls = append(decls, &extensions.SimpleExtensionDeclaration{
 			MappingType: &extensions.SimpleExtensionDeclaration_ExtensionFunction_{
 				ExtensionFunction: &extensions.SimpleExtensionDeclaration_ExtensionFunction{
@@ -440,7 +442,7 @@ func (e *set) ToProto(c *Collection) ([]*extensions.SimpleExtensionURN, []*exten
 
 	typeVarDecls := decls[typeVarCount:]
 	sort.Slice(typeVarDecls, func(i, j int) bool {
-		return decls[i].GetExtensionFunction().GetFunctionAnchor() < decls[j].GetExtensionFunction().GetFunctionAnchor()
+		return typeVarDecls[i].GetExtensionFunction().GetFunctionAnchor() < typeVarDecls[j].GetExtensionFunction().GetFunctionAnchor()
 	})
 
 	return urns, decls
@@ -511,12 +513,9 @@ func (e *set) DecodeType(anchor uint32) (id TypeID, ok bool) {
 func (e *set) GetTypeAnchor(id TypeID) uint32 {
 	a, ok := e.types[id]
 	if !ok {
-		_, err := e.addOrGetURN(id.URN)
-		if err != nil {
-			panic(err)
-		}
-		a = uint32(len(e.types)) + 1
-		e.encodeType(a, id)
+		e.addOrGetURN(id.URN)
+		a = unusedAnchor(e.typesMap)
+		_ = e.encodeType(a, id) // a is unused
 	}
 	return a
 }
@@ -524,12 +523,9 @@ func (e *set) GetTypeAnchor(id TypeID) uint32 {
 func (e *set) GetFuncAnchor(id FunctionID) uint32 {
 	a, ok := e.funcs[id]
 	if !ok {
-		_, err := e.addOrGetURN(id.URN)
-		if err != nil {
-			panic(err)
-		}
-		a = uint32(len(e.funcs)) + 1
-		e.encodeFunc(a, id)
+		e.addOrGetURN(id.URN)
+		a = unusedAnchor(e.funcMap)
+		_ = e.encodeFunc(a, id) // a is unused
 	}
 	return a
 }
@@ -537,56 +533,68 @@ func (e *set) GetFuncAnchor(id FunctionID) uint32 {
 func (e *set) GetTypeVariationAnchor(id TypeVariationID) uint32 {
 	a, ok := e.typeVariations[id]
 	if !ok {
-		_, err := e.addOrGetURN(id.URN)
-		if err != nil {
-			panic(err)
-		}
-		// add 1 to the length to avoid an anchor of 0
-		// so that it's easier to tell when there is no
-		// type variation.
-		a = uint32(len(e.typeVariations)) + 1
-		e.encodeTypeVariation(a, id)
+		e.addOrGetURN(id.URN)
+		// an anchor of 0 is avoided so that it's easier
+		// to tell when there is no type variation.
+		a = unusedAnchor(e.typeVariationMap)
+		_ = e.encodeTypeVariation(a, id) // a is unused
 	}
 	return a
 }
 
-func (e *set) encodeType(anchor uint32, id TypeID) {
-	e.typesMap[anchor] = id
-	e.types[id] = anchor
+// unusedAnchor gives an anchor, never 0, which does not denote anything yet:
+// the anchors of a set which was read from a plan need not be consecutive.
+func unusedAnchor[T any](used map[uint32]T) uint32 {
+	anchor := uint32(len(used)) + 1
+	for {
+		if _, ok := used[anchor]; !ok && anchor != 0 {
+			return anchor
+		}
+		anchor++
+	}
 }
 
-func (e *set) encodeTypeVariation(anchor uint32, id TypeVariationID) {
-	e.typeVariationMap[anchor] = id
-	e.typeVariations[id] = anchor
+// encode records that anchor denotes id. An anchor can't denote anything else
+// as well, and an id keeps the first anchor it is given.
+func encode[T comparable](anchor uint32, id T, ids map[uint32]T, anchors map[T]uint32) error {
+	if existing, ok := ids[anchor]; ok && existing != id {
+		return fmt.Errorf("%w: extension anchor %d denotes both %v and %v", substraitgo.ErrKeyExists, anchor, existing, id)
+	}
+	ids[anchor] = id
+	if _, ok := anchors[id]; !ok {
+		anchors[id] = anchor
+	}
+	return nil
 }
 
-func (e *set) encodeFunc(anchor uint32, id FunctionID) {
-	e.funcMap[anchor] = id
-	e.funcs[id] = anchor
+func (e *set) encodeType(anchor uint32, id TypeID) error {
+	return encode(anchor, id, e.typesMap, e.types)
 }
 
-func (e *set) FindURN(urn string) (uint32, bool) {
-	for k, v := range e.urns {
-		if v == urn {
-			return k, true
-		}
-	}
-	return 0, false
+func (e *set) encodeTypeVariation(anchor uint32, id TypeVariationID) error {
+	return encode(anchor, id, e.typeVariationMap, e.typeVariations)
+}
+
+func (e *set) encodeFunc(anchor uint32, id FunctionID) error {
+	return encode(anchor, id, e.funcMap, e.funcs)
 }
 
-func (e *set) addOrGetURN(urn string) (uint32, error) {
+func (e *set) FindURN(urn string) (anchor uint32, found bool) {
 	for k, v := range e.urns {
-		if v == urn {
-			return k, nil
+		if v == urn && (!found || k < anchor) {
+			anchor, found = k, true
 		}
 	}
-	sz := uint32(len(e.urns)) + 1
-	if _, ok := e.urns[sz]; ok {
-		return 0, fmt.Errorf("%w: URN anchor %d already exists", substraitgo.ErrKeyExists, sz)
-	}
+	return anchor, found
+}
 
-	e.urns[sz] = urn
-	return sz, nil
+func (e *set) addOrGetURN(urn string) uint32 {
+	if anchor, ok := e.FindURN(urn); ok {
+		return anchor
+	}
+	anchor := unusedAnchor(e.urns)
+	e.urns[anchor] = urn
+	return anchor
 }
 
 type TopLevel interface {
@@ -597,6 +605,10 @@ type TopLevel interface {
 func GetExtensionSet(plan TopLevel, c *Collection) (Set, error) {
 	urns := make(map[uint32]string)
 	for _, urn := range plan.GetExtensionUrns() {
+		if existing, ok := urns[urn.ExtensionUrnAnchor]; ok && existing != urn.Urn {
+			return nil, fmt.Errorf("%w: extension URN anchor %d denotes both '%s' and '%s'",
+				substraitgo.ErrKeyExists, urn.ExtensionUrnAnchor, existing, urn.Urn)
+		}
 		urns[urn.ExtensionUrnAnchor] = urn.Urn
 	}
 
@@ -630,30 +642,36 @@ func GetExtensionSet(plan TopLevel, c *Collection) (Set, error) {
 			if err != nil {
 				return nil, err
 			}
-			ret.encodeTypeVariation(etv.TypeVariationAnchor, TypeVariationID{
+			if err := ret.encodeTypeVariation(etv.TypeVariationAnchor, TypeVariationID{
 				URN:  urn,
 				Name: etv.Name,
-			})
+			}); err != nil {
+				return nil, err
+			}
 		case *extensions.SimpleExtensionDeclaration_ExtensionType_:
 			et := e.ExtensionType
 			urn, err := resolveRefToURN(et.ExtensionUrnReference)
 			if err != nil {
 				return nil, err
 			}
-			ret.encodeType(et.TypeAnchor, TypeID{
+			if err := ret.encodeType(et.TypeAnchor, TypeID{
 				URN:  urn,
 				Name: et.Name,
-			})
+			}); err != nil {
+				return nil, err
+			}
 		case *extensions.SimpleExtensionDeclaration_ExtensionFunction_:
 			ef := e.ExtensionFunction
 			urn, err := resolveRefToURN(ef.ExtensionUrnReference)
 			if err != nil {
 				return nil, err
 			}
-			ret.encodeFunc(ef.FunctionAnchor, FunctionID{
+			if err := ret.encodeFunc(ef.FunctionAnchor, FunctionID{
 				URN:  urn,
 				Name: ef.Name,
-			})
+			}); err != nil {
+				return nil, err
+			}
 		}
 	}
 
-- 
2.43.0


From a9759f07098d7946e801fdcce95ffd7e27970cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:03 +0000
Subject: [PATCH 13/69] fix: loading an extension file finds functions by
 simple name and leaves no trace when it fails

---
 extensions/extension_mgr.go | 97 ++++++++++++++++++++-----------------
 1 file changed, 52 insertions(+), 45 deletions(-)

diff --git a/extensions/extension_mgr.go b/extensions/extension_mgr.go
index 2ae5e78..ffc4c14 100644
--- a/extensions/extension_mgr.go
+++ b/extensions/extension_mgr.go
@@ -7,6 +7,7 @@ import (
 	"fmt"
 	"io"
 	"io/fs"
+	"maps"
 	"path"
 	"regexp"
 	"sort"
@@ -154,20 +155,12 @@ type extFn[T variants] interface {
 	GetVariants(urn string) []T
 }
 
-func addToMaps[T variants](id FunctionID, fn extFn[T], m map[FunctionID]T, simpleMap map[string]string) {
-	variants := fn.GetVariants(id.URN)
-	for _, v := range variants {
+// addToMaps adds the variants of fn to m and counts them by simple name.
+func addToMaps[T variants](id FunctionID, fn extFn[T], m map[FunctionID]T, simpleNames map[string][]string) {
+	for _, v := range fn.GetVariants(id.URN) {
 		id.Name = v.CompoundName()
 		m[id] = v
-	}
-
-	if len(variants) == 1 {
-		v := variants[0]
-		if _, ok := simpleMap[v.Name()]; ok {
-			delete(simpleMap, v.Name())
-		} else {
-			simpleMap[v.Name()] = v.CompoundName()
-		}
+		simpleNames[v.Name()] = append(simpleNames[v.Name()], v.CompoundName())
 	}
 }
 
@@ -197,8 +190,6 @@ func (c *Collection) init() {
 }
 
 func (c *Collection) Load(r io.Reader) error {
-	c.init()
-
 	var file SimpleExtensionFile
 	dec := yaml.NewDecoder(r)
 	if err := dec.Decode(&file); err != nil {
@@ -229,50 +220,31 @@ func (c *Collection) Load(r io.Reader) error {
 		return err
 	}
 
-	c.urnSet[urn] = void
-
-	if file.Metadata != nil {
-		c.fileMetadataMap[urn] = file.Metadata
-	}
-
-	typeID := TypeID{URN: urn}
-	for _, t := range file.Types {
-		typeID.Name = t.Name
-		c.typeMap[typeID] = t
-	}
-
-	typeVariationID := TypeVariationID{URN: urn}
-	for _, t := range file.TypeVariations {
-		typeVariationID.Name = t.Name
-		c.typeVariationMap[typeVariationID] = t
-	}
-
 	id := FunctionID{URN: urn}
 
+	// collect the functions first, so that a failure leaves the collection
+	// as it was.
+	scalars := make(map[FunctionID]*ScalarFunctionVariant)
+	aggregates := make(map[FunctionID]*AggregateFunctionVariant)
+	windows := make(map[FunctionID]*WindowFunctionVariant)
+
 	// if there is only one implementation for a given function
 	// it should be findable by its simple name in addition to the
 	// compound name.
-	simpleNames := make(map[string]string)
+	simpleNames := make(map[string][]string)
 
 	for _, f := range file.ScalarFunctions {
 		if err := defaults.Set(&f); err != nil {
 			return fmt.Errorf("failure setting defaults for scalar functions: %w", err)
 		}
-		addToMaps[*ScalarFunctionVariant](id, &f, c.scalarMap, simpleNames)
+		addToMaps[*ScalarFunctionVariant](id, &f, scalars, simpleNames)
 	}
 
 	for _, f := range file.AggregateFunctions {
 		if err := defaults.Set(&f); err != nil {
 			return fmt.Errorf("failure setting defaults for aggregate functions: %w", err)
 		}
-		addToMaps[*AggregateFunctionVariant](id, &f, c.aggregateMap, simpleNames)
-	}
-
-	for _, f := range file.WindowFunctions {
-		if err := defaults.Set(&f); err != nil {
-			return fmt.Errorf("failure setting defaults for window functions: %w", err)
-		}
-		addToMaps[*WindowFunctionVariant](id, &f, c.windowMap, simpleNames)
+		addToMaps[*AggregateFunctionVariant](id, &f, aggregates, simpleNames)
 	}
 
 	// Aggregate functions can be used as Window Functions
@@ -295,13 +267,48 @@ func (c *Collection) Load(r io.Reader) error {
 		if err := defaults.Set(&wf); err != nil {
 			return fmt.Errorf("failure setting defaults for window functions: %w", err)
 		}
-		addToMaps[*WindowFunctionVariant](id, &wf, c.windowMap, simpleNames)
+		// these are the same functions as far as their simple names are concerned
+		addToMaps[*WindowFunctionVariant](id, &wf, windows, make(map[string][]string))
+	}
+
+	// A function which is defined as a window function takes precedence over
+	// an aggregate function used as one.
+	for _, f := range file.WindowFunctions {
+		if err := defaults.Set(&f); err != nil {
+			return fmt.Errorf("failure setting defaults for window functions: %w", err)
+		}
+		addToMaps[*WindowFunctionVariant](id, &f, windows, simpleNames)
+	}
+
+	c.init()
+	c.urnSet[urn] = void
+
+	if file.Metadata != nil {
+		c.fileMetadataMap[urn] = file.Metadata
 	}
 
+	typeID := TypeID{URN: urn}
+	for _, t := range file.Types {
+		typeID.Name = t.Name
+		c.typeMap[typeID] = t
+	}
+
+	typeVariationID := TypeVariationID{URN: urn}
+	for _, t := range file.TypeVariations {
+		typeVariationID.Name = t.Name
+		c.typeVariationMap[typeVariationID] = t
+	}
+
+	maps.Copy(c.scalarMap, scalars)
+	maps.Copy(c.aggregateMap, aggregates)
+	maps.Copy(c.windowMap, windows)
+
 	// add simple name aliases
 	for k, v := range simpleNames {
-		id.Name = k
-		c.simpleNameMap[id] = v
+		if len(v) == 1 {
+			id.Name = k
+			c.simpleNameMap[id] = v[0]
+		}
 	}
 
 	return nil
-- 
2.43.0


From 5dc14484eb2ff1fdbd10b01cfb7fafd729526160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:23 +0000
Subject: [PATCH 14/69] fix: malformed function arguments of an extension file
 are errors, not panics

---
 extensions/simple_extension.go | 107 +++++++++++++++++++--------------
 1 file changed, 62 insertions(+), 45 deletions(-)

diff --git a/extensions/simple_extension.go b/extensions/simple_extension.go
index f83216d..c682a55 100644
--- a/extensions/simple_extension.go
+++ b/extensions/simple_extension.go
@@ -4,7 +4,6 @@ package extensions
 
 import (
 	"fmt"
-	"reflect"
 	"strings"
 
 	substraitgo "github.com/substrait-io/substrait-go/v8"
@@ -120,80 +119,98 @@ func (a *FuncParameterList) UnmarshalYAML(fn func(interface{}) error) error {
 		return err
 	}
 
-	*a = make(FuncParameterList, len(args))
+	params := make(FuncParameterList, len(args))
 	for i, arg := range args {
-		var (
-			name, desc string
-		)
-		if n, ok := arg["name"]; ok {
-			name = n.(string)
+		name, err := yamlField[string](arg, "name")
+		if err != nil {
+			return err
 		}
-		if d, ok := arg["description"]; ok {
-			desc = d.(string)
+		desc, err := yamlField[string](arg, "description")
+		if err != nil {
+			return err
 		}
 
-		if opt, ok := arg["options"]; ok {
-			vals := opt.([]any)
+		if _, ok := arg["options"]; ok {
+			vals, err := yamlField[[]any](arg, "options")
+			if err != nil {
+				return err
+			}
 			values := make([]string, len(vals))
 			for j, v := range vals {
-				values[j] = v.(string)
+				if values[j], ok = v.(string); !ok {
+					return fmt.Errorf("%w: option %v of function argument %q should be a string",
+						substraitgo.ErrInvalidSimpleExtention, v, name)
+				}
 			}
-			(*a)[i] = EnumArg{
+			params[i] = EnumArg{
 				Name:        name,
 				Description: desc,
 				Options:     values,
 			}
 		} else if val, ok := arg["value"]; ok {
-			var constant bool
-			if c, ok := arg["constant"]; ok {
-				constant = c.(bool)
+			constant, err := yamlField[bool](arg, "constant")
+			if err != nil {
+				return err
+			}
+			typeExpr, err := yamlTypeExpression(val)
+			if err != nil {
+				return err
 			}
 
-			arg := ValueArg{
+			params[i] = ValueArg{
 				Name:        name,
 				Description: desc,
-				Value:       new(parser.TypeExpression),
+				Value:       typeExpr,
 				Constant:    constant,
 			}
-			err := arg.Value.UnmarshalYAML(func(v any) error {
-				rv := reflect.ValueOf(v)
-				if rv.Type().Kind() != reflect.Ptr {
-					return substraitgo.ErrInvalidType
-				}
-				rv.Elem().Set(reflect.ValueOf(val))
-				return nil
-			})
+		} else if typ, ok := arg["type"]; ok {
+			typeExpr, err := yamlTypeExpression(typ)
 			if err != nil {
-				return fmt.Errorf("failure reading YAML %v", err)
+				return err
 			}
 
-			(*a)[i] = arg
-
-		} else if typ, ok := arg["type"]; ok {
-			arg := TypeArg{
+			params[i] = TypeArg{
 				Name:        name,
 				Description: desc,
-				Type:        new(parser.TypeExpression),
+				Type:        typeExpr,
 			}
-			err := arg.Type.UnmarshalYAML(func(v any) error {
-				rv := reflect.ValueOf(v)
-				if rv.Type().Kind() != reflect.Ptr {
-					return substraitgo.ErrInvalidType
-				}
-				rv.Elem().Set(reflect.ValueOf(typ))
-				return nil
-			})
-			if err != nil {
-				return fmt.Errorf("failure reading YAML %v", err)
-			}
-
-			(*a)[i] = arg
+		} else {
+			return fmt.Errorf("%w: function argument %d should have a value, a type or options",
+				substraitgo.ErrInvalidSimpleExtention, i)
 		}
 	}
 
+	*a = params
 	return nil
 }
 
+// yamlField gives the field of an argument definition, the zero value if it
+// is missing.
+func yamlField[T any](arg map[string]any, key string) (out T, err error) {
+	field, ok := arg[key]
+	if !ok || field == nil {
+		return out, nil
+	}
+	if out, ok = field.(T); !ok {
+		return out, fmt.Errorf("%w: %s of a function argument should be a %T, not %T",
+			substraitgo.ErrInvalidSimpleExtention, key, out, field)
+	}
+	return out, nil
+}
+
+func yamlTypeExpression(val any) (*parser.TypeExpression, error) {
+	text, ok := val.(string)
+	if !ok {
+		return nil, fmt.Errorf("%w: the type of a function argument should be a string, not %T",
+			substraitgo.ErrInvalidSimpleExtention, val)
+	}
+	typ, err := parser.ParseType(text)
+	if err != nil {
+		return nil, fmt.Errorf("failure reading YAML %w", err)
+	}
+	return &parser.TypeExpression{ValueType: typ}, nil
+}
+
 type Option struct {
 	Description string `yaml:",omitempty"`
 	Values      []string
-- 
2.43.0


From 27160529ca447efacbaad3867fbdd6af373f3e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:29 +0000
Subject: [PATCH 15/69] fix: resolving the type of a function without a return
 type is an error, not a panic

---
 extensions/simple_extension.go | 7 +++++++
 extensions/variants.go         | 9 ++++++---
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/extensions/simple_extension.go b/extensions/simple_extension.go
index c682a55..e3dd6c1 100644
--- a/extensions/simple_extension.go
+++ b/extensions/simple_extension.go
@@ -273,6 +273,13 @@ func (s *ScalarFunctionImpl) signatureKey() string {
 	return b.String()
 }
 
+func (s *ScalarFunctionImpl) returnType() types.FuncDefArgType {
+	if s.Return == nil {
+		return nil
+	}
+	return s.Return.ValueType
+}
+
 type ScalarFunction struct {
 	Name        string               `yaml:",omitempty"`
 	Description string               `yaml:",omitempty,flow"`
diff --git a/extensions/variants.go b/extensions/variants.go
index 082b5a2..196037c 100644
--- a/extensions/variants.go
+++ b/extensions/variants.go
@@ -84,6 +84,9 @@ func validateType(funcParameter FuncParameter, actual types.Type, idx int, nullH
 //	registry: the Set of extensions to look up/add user defined types to
 func EvaluateTypeExpression(urn string, nullHandling NullabilityHandling, returnTypeExpr types.FuncDefArgType,
 	funcParameters FuncParameterList, variadic *VariadicBehavior, argumentTypes []types.Type, registry Set) (types.Type, error) {
+	if returnTypeExpr == nil {
+		return nil, fmt.Errorf("%w: the function does not define a return type", substraitgo.ErrInvalidType)
+	}
 	if variadic != nil {
 		numVariadicArgs := len(argumentTypes) - (len(funcParameters) - 1)
 		if numVariadicArgs < 0 {
@@ -397,7 +400,7 @@ func (s *ScalarFunctionVariant) Nullability() NullabilityHandling { return s.imp
 func (s *ScalarFunctionVariant) URN() string                      { return s.urn }
 func (s *ScalarFunctionVariant) Metadata() map[string]any         { return s.metadata }
 func (s *ScalarFunctionVariant) ResolveType(argumentTypes []types.Type, registry Set) (types.Type, error) {
-	return EvaluateTypeExpression(s.urn, s.impl.Nullability, s.impl.Return.ValueType, s.impl.Args, s.impl.Variadic, argumentTypes, registry)
+	return EvaluateTypeExpression(s.urn, s.impl.Nullability, s.impl.returnType(), s.impl.Args, s.impl.Variadic, argumentTypes, registry)
 }
 func (s *ScalarFunctionVariant) CompoundName() string {
 	return s.name + ":" + s.impl.signatureKey()
@@ -511,7 +514,7 @@ func (s *AggregateFunctionVariant) Nullability() NullabilityHandling { return s.
 func (s *AggregateFunctionVariant) URN() string                      { return s.urn }
 func (s *AggregateFunctionVariant) Metadata() map[string]any         { return s.metadata }
 func (s *AggregateFunctionVariant) ResolveType(argumentTypes []types.Type, registry Set) (types.Type, error) {
-	return EvaluateTypeExpression(s.urn, s.impl.Nullability, s.impl.Return.ValueType, s.impl.Args, s.impl.Variadic, argumentTypes, registry)
+	return EvaluateTypeExpression(s.urn, s.impl.Nullability, s.impl.returnType(), s.impl.Args, s.impl.Variadic, argumentTypes, registry)
 }
 func (s *AggregateFunctionVariant) CompoundName() string {
 	return s.name + ":" + s.impl.signatureKey()
@@ -633,7 +636,7 @@ func (s *WindowFunctionVariant) Nullability() NullabilityHandling { return s.imp
 func (s *WindowFunctionVariant) URN() string                      { return s.urn }
 func (s *WindowFunctionVariant) Metadata() map[string]any         { return s.metadata }
 func (s *WindowFunctionVariant) ResolveType(argumentTypes []types.Type, registry Set) (types.Type, error) {
-	return EvaluateTypeExpression(s.urn, s.impl.Nullability, s.impl.Return.ValueType, s.impl.Args, s.impl.Variadic, argumentTypes, registry)
+	return EvaluateTypeExpression(s.urn, s.impl.Nullability, s.impl.returnType(), s.impl.Args, s.impl.Variadic, argumentTypes, registry)
 }
 func (s *WindowFunctionVariant) CompoundName() string {
 	return s.name + ":" + s.impl.signatureKey()
-- 
2.43.0


From 3fd94d5f0c7682bdf734dc3d31ae7cb21d180bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:13 +0000
Subject: [PATCH 16/69] fix: a malformed enumeration value in an extension file
 is an error, not a panic

---
 extensions/extension_mgr.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/extensions/extension_mgr.go b/extensions/extension_mgr.go
index ffc4c14..7d002bd 100644
--- a/extensions/extension_mgr.go
+++ b/extensions/extension_mgr.go
@@ -189,10 +189,22 @@ func (c *Collection) init() {
 	}
 }
 
+func decodeExtensionFile(r io.Reader) (file SimpleExtensionFile, err error) {
+	// the YAML decoder panics on some malformed documents, for instance when
+	// there is a number in place of one of the enumeration strings.
+	defer func() {
+		if p := recover(); p != nil {
+			err = fmt.Errorf("%w: %v", substraitgo.ErrInvalidSimpleExtention, p)
+		}
+	}()
+
+	err = yaml.NewDecoder(r).Decode(&file)
+	return file, err
+}
+
 func (c *Collection) Load(r io.Reader) error {
-	var file SimpleExtensionFile
-	dec := yaml.NewDecoder(r)
-	if err := dec.Decode(&file); err != nil {
+	file, err := decodeExtensionFile(r)
+	if err != nil {
 		return err
 	}
 
-- 
2.43.0


From f3fee9a88c84aea1fc47b3133cc44f31c542d03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:52 +0000
Subject: [PATCH 17/69] fix: malformed type messages give no type instead of a
 panic, time values are split exactly

---
 types/types.go | 115 ++++++++++++++++++++++++++++---------------------
 1 file changed, 66 insertions(+), 49 deletions(-)

diff --git a/types/types.go b/types/types.go
index e33600d..d5887d9 100644
--- a/types/types.go
+++ b/types/types.go
@@ -221,9 +221,10 @@ type (
 )
 
 // TypeFromProto returns the appropriate Type object from a protobuf
-// type message.
+// type message, or nil if the message does not denote a type: no or an unknown
+// kind, an invalid precision, or a component that is missing or malformed.
 func TypeFromProto(t *proto.Type) Type {
-	switch t := t.Kind.(type) {
+	switch t := t.GetKind().(type) {
 	case *proto.Type_Bool:
 		return &BooleanType{
 			Nullability:      Nullability(t.Bool.Nullability),
@@ -295,7 +296,7 @@ func TypeFromProto(t *proto.Type) Type {
 			var err error
 			precision, err = ProtoToTimePrecision(*t.IntervalDay.Precision)
 			if err != nil {
-				panic(fmt.Sprintf("Invalid precision %v", err))
+				return nil
 			}
 		}
 		return &IntervalDayType{
@@ -306,7 +307,7 @@ func TypeFromProto(t *proto.Type) Type {
 	case *proto.Type_IntervalCompound_:
 		precision, err := ProtoToTimePrecision(t.IntervalCompound.Precision)
 		if err != nil {
-			panic(fmt.Sprintf("Invalid precision %v", err))
+			return nil
 		}
 		return &IntervalCompoundType{
 			nullability:      Nullability(t.IntervalCompound.Nullability),
@@ -351,7 +352,7 @@ func TypeFromProto(t *proto.Type) Type {
 	case *proto.Type_PrecisionTime_:
 		precision, err := ProtoToTimePrecision(t.PrecisionTime.Precision)
 		if err != nil {
-			panic(fmt.Sprintf("Invalid precision %v", err))
+			return nil
 		}
 		return &PrecisionTimeType{
 			Nullability:      Nullability(t.PrecisionTime.Nullability),
@@ -361,7 +362,7 @@ func TypeFromProto(t *proto.Type) Type {
 	case *proto.Type_PrecisionTimestamp_:
 		precision, err := ProtoToTimePrecision(t.PrecisionTimestamp.Precision)
 		if err != nil {
-			panic(fmt.Sprintf("Invalid precision %v", err))
+			return nil
 		}
 		return &PrecisionTimestampType{
 			Nullability:      Nullability(t.PrecisionTimestamp.Nullability),
@@ -371,7 +372,7 @@ func TypeFromProto(t *proto.Type) Type {
 	case *proto.Type_PrecisionTimestampTz:
 		precision, err := ProtoToTimePrecision(t.PrecisionTimestampTz.Precision)
 		if err != nil {
-			panic(fmt.Sprintf("Invalid precision %v", err))
+			return nil
 		}
 		return &PrecisionTimestampTzType{PrecisionTimestampType{
 			Nullability:      Nullability(t.PrecisionTimestampTz.Nullability),
@@ -381,7 +382,9 @@ func TypeFromProto(t *proto.Type) Type {
 	case *proto.Type_Struct_:
 		fields := make([]Type, len(t.Struct.Types))
 		for i, f := range t.Struct.Types {
-			fields[i] = TypeFromProto(f)
+			if fields[i] = TypeFromProto(f); fields[i] == nil {
+				return nil
+			}
 		}
 		return &StructType{
 			Nullability:      Nullability(t.Struct.Nullability),
@@ -391,30 +394,46 @@ func TypeFromProto(t *proto.Type) Type {
 	case *proto.Type_Func_:
 		params := make([]Type, len(t.Func.ParameterTypes))
 		for i, p := range t.Func.ParameterTypes {
-			params[i] = TypeFromProto(p)
+			if params[i] = TypeFromProto(p); params[i] == nil {
+				return nil
+			}
+		}
+		returnType := TypeFromProto(t.Func.ReturnType)
+		if returnType == nil {
+			return nil
 		}
 		return &FuncType{
 			Nullability:    Nullability(t.Func.Nullability),
 			ParameterTypes: params,
-			ReturnType:     TypeFromProto(t.Func.ReturnType),
+			ReturnType:     returnType,
 		}
 	case *proto.Type_List_:
+		elemType := TypeFromProto(t.List.Type)
+		if elemType == nil {
+			return nil
+		}
 		return &ListType{
 			Nullability:      Nullability(t.List.Nullability),
 			TypeVariationRef: t.List.TypeVariationReference,
-			Type:             TypeFromProto(t.List.Type),
+			Type:             elemType,
 		}
 	case *proto.Type_Map_:
+		keyType, valueType := TypeFromProto(t.Map.Key), TypeFromProto(t.Map.Value)
+		if keyType == nil || valueType == nil {
+			return nil
+		}
 		return &MapType{
 			Nullability:      Nullability(t.Map.Nullability),
 			TypeVariationRef: t.Map.TypeVariationReference,
-			Key:              TypeFromProto(t.Map.Key),
-			Value:            TypeFromProto(t.Map.Value),
+			Key:              keyType,
+			Value:            valueType,
 		}
 	case *proto.Type_UserDefined_:
 		params := make([]TypeParam, len(t.UserDefined.TypeParameters))
 		for i, p := range t.UserDefined.TypeParameters {
-			params[i] = TypeParamFromProto(p)
+			if params[i] = TypeParamFromProto(p); params[i] == nil {
+				return nil
+			}
 		}
 		return &UserDefinedType{
 			Nullability:      Nullability(t.UserDefined.Nullability),
@@ -423,7 +442,7 @@ func TypeFromProto(t *proto.Type) Type {
 			TypeParameters:   params,
 		}
 	}
-	panic("unimplemented type from proto")
+	return nil
 }
 
 type (
@@ -1592,15 +1611,20 @@ func (p StringParameter) Evaluate(symbolTable map[string]any) (any, error) {
 }
 
 // TypeParamFromProto converts a protobuf Type_Parameter message to
-// a TypeParam object for processing.
+// a TypeParam object for processing, or nil if no parameter or a malformed
+// data type is set.
 func TypeParamFromProto(p *proto.Type_Parameter) TypeParam {
-	switch p := p.Parameter.(type) {
+	switch p := p.GetParameter().(type) {
 	case *proto.Type_Parameter_Null:
 		return NullParameter{}
 	case *proto.Type_Parameter_Boolean:
 		return BooleanParameter(p.Boolean)
 	case *proto.Type_Parameter_DataType:
-		return &DataTypeParameter{TypeFromProto(p.DataType)}
+		dataType := TypeFromProto(p.DataType)
+		if dataType == nil {
+			return nil
+		}
+		return &DataTypeParameter{dataType}
 	case *proto.Type_Parameter_Integer:
 		return IntegerParameter(p.Integer)
 	case *proto.Type_Parameter_Enum:
@@ -1709,16 +1733,16 @@ func NewNamedStructFromProto(n *proto.NamedStruct) NamedStruct {
 		return NamedStruct{}
 	}
 
-	fields := make([]Type, len(n.Struct.Types))
-	for i, f := range n.Struct.Types {
+	fields := make([]Type, len(n.GetStruct().GetTypes()))
+	for i, f := range n.GetStruct().GetTypes() {
 		fields[i] = TypeFromProto(f)
 	}
 
 	return NamedStruct{
 		Names: n.Names,
 		Struct: StructType{
-			Nullability:      Nullability(n.Struct.Nullability),
-			TypeVariationRef: n.Struct.TypeVariationReference,
+			Nullability:      Nullability(n.GetStruct().GetNullability()),
+			TypeVariationRef: n.GetStruct().GetTypeVariationReference(),
 			Types:            fields,
 		},
 	}
@@ -1736,6 +1760,14 @@ func (n NamedStruct) String() string {
 
 	// names are in depth-first order
 	nameIdx := 0
+	nextName := func() string {
+		nameIdx++
+		if nameIdx > len(n.Names) {
+			// fewer names than fields
+			return "?"
+		}
+		return n.Names[nameIdx-1]
+	}
 
 	var writeType func(t Type)
 
@@ -1747,8 +1779,7 @@ func (n NamedStruct) String() string {
 				if i != 0 {
 					b.WriteString(", ")
 				}
-				b.WriteString(n.Names[nameIdx])
-				nameIdx++
+				b.WriteString(nextName())
 				b.WriteString(": ")
 				writeType(c)
 			}
@@ -1776,9 +1807,8 @@ func (n NamedStruct) String() string {
 		if i != 0 {
 			b.WriteString(", ")
 		}
-		b.WriteString(n.Names[nameIdx])
+		b.WriteString(nextName())
 		b.WriteString(": ")
-		nameIdx++
 
 		writeType(t)
 	}
@@ -1867,7 +1897,7 @@ func timeFromPrecisionUnits(units int64, precision TimePrecision) time.Time {
 
 func (t Time) ToTimeString() string {
 	tm := time.UnixMicro(int64(t))
-	return tm.UTC().Format(time.TimeOnly)
+	return tm.UTC().Format("15:04:05.999999")
 }
 
 func (t Time) ToIsoTimeString() string {
@@ -1915,29 +1945,16 @@ func (t TimestampTz) ToIsoTimeString() string {
 	return tm.UTC().Format("2006-01-02T15:04:05.999999999")
 }
 
+// GetTimeValueByPrecision returns the number of units of the given precision
+// from the unix epoch to tm, rounded down.
 func GetTimeValueByPrecision(tm time.Time, precision TimePrecision) int64 {
-	switch precision {
-	case PrecisionSeconds:
-		return tm.Unix()
-	case PrecisionDeciSeconds:
-		return tm.UnixMilli() / 100
-	case PrecisionCentiSeconds:
-		return tm.UnixMilli() / 10
-	case PrecisionMilliSeconds:
-		return tm.UnixMilli()
-	case PrecisionEMinus4Seconds:
-		return tm.UnixMicro() / 100
-	case PrecisionEMinus5Seconds:
-		return tm.UnixMicro() / 10
-	case PrecisionMicroSeconds:
-		return tm.UnixMicro()
-	case PrecisionEMinus7Seconds:
-		return tm.UnixNano() / 100
-	case PrecisionEMinus8Seconds:
-		return tm.UnixNano() / 10
-	case PrecisionNanoSeconds:
-		return tm.UnixNano()
-	default:
+	if precision < PrecisionSeconds || precision > PrecisionNanoSeconds {
 		panic(fmt.Sprintf("unknown TimePrecision %v", precision))
 	}
+	unitsPerSecond, nanosPerUnit := int64(1), int64(time.Second)
+	for range precision {
+		unitsPerSecond *= 10
+		nanosPerUnit /= 10
+	}
+	return tm.Unix()*unitsPerSecond + int64(tm.Nanosecond())/nanosPerUnit
 }
-- 
2.43.0


From 7301dcf90f2b6a7c86df86e3217680a0a87d534d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:52 +0000
Subject: [PATCH 18/69] fix: decimal strings keep scales up to 38 and refuse
 what is not a number

---
 expr/decimal_util.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/expr/decimal_util.go b/expr/decimal_util.go
index 53886a1..c6fee40 100644
--- a/expr/decimal_util.go
+++ b/expr/decimal_util.go
@@ -11,6 +11,8 @@ import (
 
 var decimalPattern = regexp.MustCompile(`^[+-]?\d*(\.\d*)?([eE][+-]?\d*)?$`)
 
+const maxDecimalPrecision = 38
+
 // DecimalStringToBytes converts a decimal string to a 16-byte byte array.
 // 16-byte bytes represents a little-endian 128-bit integer, to be divided by 10^Scale to get the decimal value.
 // This function also returns the precision and scale of the decimal value.
@@ -43,14 +45,22 @@ func DecimalToBytes(dec *apd.Decimal) ([16]byte, int32, int32, error) {
 		scale     int32
 	)
 
+	if dec.Form != apd.Finite {
+		return result, 0, 0, fmt.Errorf("%s is not a number", dec.String())
+	}
+	if dec.Exponent > maxDecimalPrecision || dec.Exponent < -maxDecimalPrecision {
+		return result, 0, 0, fmt.Errorf("exponent %d of number exceeds maximum precision of 38", dec.Exponent)
+	}
+
 	if dec.Exponent > 0 {
 		precision = int32(apd.NumDigits(&dec.Coeff)) + dec.Exponent
 		scale = 0
 	} else {
 		scale = -dec.Exponent
-		precision = max(int32(apd.NumDigits(&dec.Coeff)), scale+1)
+		// one digit before the decimal point, as long as there is room for it
+		precision = max(int32(apd.NumDigits(&dec.Coeff)), min(scale+1, maxDecimalPrecision))
 	}
-	if precision > 38 {
+	if precision > maxDecimalPrecision {
 		return result, precision, scale, fmt.Errorf("number %s exceeds maximum precision of 38 (%d)", dec.String(), precision)
 	}
 
-- 
2.43.0


From 54bf3c50701478a949c89bbafc2d63c4cec5126c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:52 +0000
Subject: [PATCH 19/69] fix: literals keep their value, type and variation
 through protobuf and refuse malformed messages

---
 expr/expression.go                |   9 +-
 expr/interval_compound_literal.go |  18 +-
 expr/interval_year_to_month.go    |  28 ++-
 expr/literals.go                  | 307 +++++++++++++++++++++++++-----
 plan/internal/helper.go           |  13 +-
 plan/plan.go                      |  13 +-
 6 files changed, 314 insertions(+), 74 deletions(-)

diff --git a/expr/expression.go b/expr/expression.go
index 0ea24aa..588108d 100644
--- a/expr/expression.go
+++ b/expr/expression.go
@@ -59,7 +59,10 @@ func ExprFromProto(e *proto.Expression, baseSchema *types.RecordType, reg Extens
 
 	switch et := e.RexType.(type) {
 	case *proto.Expression_Literal_:
-		return LiteralFromProto(et.Literal), nil
+		if lit := LiteralFromProto(et.Literal); lit != nil {
+			return lit, nil
+		}
+		return nil, fmt.Errorf("%w: invalid literal", substraitgo.ErrInvalidExpr)
 	case *proto.Expression_Selection:
 		return FieldReferenceFromProto(et.Selection, baseSchema, reg)
 	case *proto.Expression_ScalarFunction_:
@@ -192,7 +195,9 @@ func ExprFromProto(e *proto.Expression, baseSchema *types.RecordType, reg Extens
 			Then Expression
 		}, len(et.SwitchExpression.Ifs))
 		for i, clause := range et.SwitchExpression.Ifs {
-			ifs[i].If = LiteralFromProto(clause.If)
+			if ifs[i].If = LiteralFromProto(clause.If); ifs[i].If == nil {
+				return nil, fmt.Errorf("%w: invalid literal in switch clause", substraitgo.ErrInvalidExpr)
+			}
 			ifs[i].Then, err = ExprFromProto(clause.Then, baseSchema, reg)
 			if err != nil {
 				return nil, err
diff --git a/expr/interval_compound_literal.go b/expr/interval_compound_literal.go
index ec9790b..8dc69ad 100644
--- a/expr/interval_compound_literal.go
+++ b/expr/interval_compound_literal.go
@@ -17,10 +17,12 @@ type IntervalCompoundLiteral struct {
 	SubSeconds         int64
 	SubSecondPrecision types.TimePrecision
 	Nullability        types.Nullability
+	TypeVariationRef   uint32
 }
 
 func (m IntervalCompoundLiteral) getType() types.Type {
-	return types.NewIntervalCompoundType().WithPrecision(m.SubSecondPrecision).WithNullability(m.Nullability)
+	return types.NewIntervalCompoundType().WithPrecision(m.SubSecondPrecision).
+		WithTypeVariationRef(m.TypeVariationRef).WithNullability(m.Nullability)
 }
 
 func (m IntervalCompoundLiteral) ToProtoLiteral() *proto.Expression_Literal {
@@ -35,7 +37,8 @@ func (m IntervalCompoundLiteral) ToProtoLiteral() *proto.Expression_Literal {
 		intrCompPB.IntervalYearToMonth = yearToMonthProto
 	}
 
-	if m.Days != 0 || m.Seconds != 0 || m.SubSeconds != 0 {
+	// the precision is part of the type, so that it must not be lost
+	if m.Days != 0 || m.Seconds != 0 || m.SubSeconds != 0 || m.SubSecondPrecision != 0 {
 		dayToSecondProto := &proto.Expression_Literal_IntervalDayToSecond{
 			Days:          m.Days,
 			Seconds:       m.Seconds,
@@ -59,7 +62,7 @@ func (m IntervalCompoundLiteral) ToProto() *proto.Expression {
 }
 
 func intervalCompoundLiteralFromProto(l *proto.Expression_Literal) Literal {
-	icLiteral := IntervalCompoundLiteral{Nullability: getNullability(l.Nullable)}
+	icLiteral := IntervalCompoundLiteral{Nullability: getNullability(l.Nullable), TypeVariationRef: l.TypeVariationReference}
 	yearToMonth := l.GetIntervalCompound().GetIntervalYearToMonth()
 	if yearToMonth != nil {
 		icLiteral.Years = yearToMonth.Years
@@ -97,8 +100,11 @@ func (m IntervalCompoundLiteral) ValueString() string {
 		m.Years, m.Months, m.Days, m.Seconds, m.SubSeconds)
 }
 func (m IntervalCompoundLiteral) Equals(rhs Expression) bool {
-	if other, ok := rhs.(IntervalCompoundLiteral); ok {
-		return m.getType().Equals(other.GetType()) && (m == other)
+	switch other := rhs.(type) {
+	case IntervalCompoundLiteral:
+		return m == other
+	case *IntervalCompoundLiteral:
+		return other != nil && m == *other
 	}
 	return false
 }
@@ -119,7 +125,7 @@ func validateIntervalDayToSecondProto(idts *proto.Expression_Literal_IntervalDay
 	}
 	if _, ok := idts.PrecisionMode.(*proto.Expression_Literal_IntervalDayToSecond_Microseconds); ok {
 		// if microsecond precision then subseconds must be set to zero
-		if idts.Subseconds > 0 {
+		if idts.Subseconds != 0 {
 			return errors.New("both deprecated microseconds and subseconds can't be non zero")
 		}
 	}
diff --git a/expr/interval_year_to_month.go b/expr/interval_year_to_month.go
index 8006aa5..cbb0072 100644
--- a/expr/interval_year_to_month.go
+++ b/expr/interval_year_to_month.go
@@ -9,13 +9,14 @@ import (
 
 // IntervalYearToMonthLiteral implements Literal interface for interval year to month type
 type IntervalYearToMonthLiteral struct {
-	Years       int32
-	Months      int32
-	Nullability types.Nullability
+	Years            int32
+	Months           int32
+	Nullability      types.Nullability
+	TypeVariationRef uint32
 }
 
 func (m IntervalYearToMonthLiteral) getType() types.Type {
-	return types.NewIntervalYearToMonthType().WithNullability(m.Nullability)
+	return types.NewIntervalYearToMonthType().WithTypeVariationRef(m.TypeVariationRef).WithNullability(m.Nullability)
 }
 
 func (m IntervalYearToMonthLiteral) ToProtoLiteral() *proto.Expression_Literal {
@@ -40,9 +41,10 @@ func (m IntervalYearToMonthLiteral) ToProto() *proto.Expression {
 
 func intervalYearToMonthLiteralFromProto(l *proto.Expression_Literal) Literal {
 	return IntervalYearToMonthLiteral{
-		Years:       l.GetIntervalYearToMonth().Years,
-		Months:      l.GetIntervalYearToMonth().Months,
-		Nullability: getNullability(l.Nullable),
+		Years:            l.GetIntervalYearToMonth().Years,
+		Months:           l.GetIntervalYearToMonth().Months,
+		Nullability:      getNullability(l.Nullable),
+		TypeVariationRef: l.TypeVariationReference,
 	}
 }
 
@@ -55,8 +57,16 @@ func (m IntervalYearToMonthLiteral) ValueString() string {
 	return fmt.Sprintf("%d years, %d months", m.Years, m.Months)
 }
 func (m IntervalYearToMonthLiteral) Equals(rhs Expression) bool {
-	if other, ok := rhs.(IntervalYearToMonthLiteral); ok {
-		return m.getType().Equals(other.GetType()) && (m == other)
+	switch other := rhs.(type) {
+	case IntervalYearToMonthLiteral:
+		return m == other
+	case *IntervalYearToMonthLiteral:
+		return other != nil && m == *other
+	case *ProtoLiteral:
+		// the other representation of the same literal
+		v, ok := other.Value.(*types.IntervalYearToMonth)
+		return ok && m.getType().Equals(other.Type) &&
+			m.Years == v.GetYears() && m.Months == v.GetMonths()
 	}
 	return false
 }
diff --git a/expr/literals.go b/expr/literals.go
index f43e5cc..ee62a4f 100644
--- a/expr/literals.go
+++ b/expr/literals.go
@@ -9,15 +9,18 @@ import (
 	"encoding/hex"
 	"fmt"
 	"math"
+	"math/big"
 	"reflect"
 	"slices"
 	"strings"
 	"time"
+	"unicode/utf8"
 
 	"github.com/google/uuid"
 	substraitgo "github.com/substrait-io/substrait-go/v8"
 	"github.com/substrait-io/substrait-go/v8/types"
 	proto "github.com/substrait-io/substrait-protobuf/go/substraitpb"
+	protobuf "google.golang.org/protobuf/proto"
 )
 
 // PrimitiveLiteralValue is a type constraint that represents
@@ -224,7 +227,9 @@ func (t *PrimitiveLiteral[T]) ToProto() *proto.Expression {
 
 func (t *PrimitiveLiteral[T]) Equals(rhs Expression) bool {
 	if other, ok := rhs.(*PrimitiveLiteral[T]); ok {
-		return t.Type.Equals(other.Type) && t.Value == other.Value
+		return t.Type.Equals(other.Type) &&
+			// a NaN is the same literal as a NaN
+			(t.Value == other.Value || t.Value != t.Value && other.Value != other.Value)
 	}
 	return false
 }
@@ -544,7 +549,8 @@ func (t *ProtoLiteral) ValueString() string {
 	case *types.IntervalDayType:
 		x, _ := t.Value.(*proto.Expression_Literal_IntervalDayToSecond)
 		// Validity is required by construction.
-		return fmt.Sprintf("%d days, %d seconds, %d subseconds", x.GetDays(), x.GetSeconds(), x.GetSubseconds())
+		_, subseconds := intervalDaySubseconds(x)
+		return fmt.Sprintf("%d days, %d seconds, %d subseconds", x.GetDays(), x.GetSeconds(), subseconds)
 	}
 	return fmt.Sprintf("%s", t.Value)
 }
@@ -568,20 +574,52 @@ func (t *ProtoLiteral) IsoValueString() string {
 	case *types.IntervalDayType:
 		x, _ := t.Value.(*proto.Expression_Literal_IntervalDayToSecond)
 		// Validity is required by construction.
-		sb := strings.Builder{}
-		sb.WriteString("P")
-		if x.GetDays() > 0 {
-			sb.WriteString(fmt.Sprintf("%dD", x.GetDays()))
-		}
-		if x.GetSeconds() > 0 || x.GetSubseconds() > 0 {
-			sb.WriteString("T")
-			duration := time.Duration(x.GetSeconds()) * time.Second
-			duration += types.SubSecondsToDuration(x.GetSubseconds(), literalType.Precision)
-			sb.WriteString(strings.ToUpper(duration.String()))
+		return isoIntervalDay(x)
+	}
+	return t.ValueString()
+}
+
+// isoIntervalDay returns the ISO 8601 duration of an interval: PnDTnHnMn.nS.
+// The parts of a negative number of days or seconds are written as negative.
+func isoIntervalDay(x *proto.Expression_Literal_IntervalDayToSecond) string {
+	precision, subseconds := intervalDaySubseconds(x)
+	unit := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(precision)), nil)
+	total := new(big.Int).Mul(big.NewInt(int64(x.GetSeconds())), unit)
+	total.Add(total, big.NewInt(subseconds))
+
+	sb := strings.Builder{}
+	sb.WriteString("P")
+	if x.GetDays() != 0 {
+		fmt.Fprintf(&sb, "%dD", x.GetDays())
+	}
+	if total.Sign() == 0 {
+		if x.GetDays() == 0 {
+			sb.WriteString("T0S")
 		}
 		return sb.String()
 	}
-	return t.ValueString()
+
+	sign := ""
+	if total.Sign() < 0 {
+		sign = "-"
+		total.Neg(total)
+	}
+	seconds, fraction := new(big.Int).QuoRem(total, unit, new(big.Int))
+	minutes, second := new(big.Int).QuoRem(seconds, big.NewInt(60), new(big.Int))
+	hours, minute := new(big.Int).QuoRem(minutes, big.NewInt(60), new(big.Int))
+	sb.WriteString("T")
+	if hours.Sign() != 0 {
+		fmt.Fprintf(&sb, "%s%dH", sign, hours)
+	}
+	if minutes.Sign() != 0 {
+		fmt.Fprintf(&sb, "%s%dM", sign, minute)
+	}
+	fmt.Fprintf(&sb, "%s%d", sign, second)
+	if fraction.Sign() != 0 {
+		sb.WriteString(strings.TrimRight(fmt.Sprintf(".%0*d", int(precision), fraction), "0"))
+	}
+	sb.WriteString("S")
+	return sb.String()
 }
 
 func (*ProtoLiteral) isRootRef()            {}
@@ -682,12 +720,31 @@ func (t *ProtoLiteral) ToProto() *proto.Expression {
 
 func (t *ProtoLiteral) Equals(rhs Expression) bool {
 	if other, ok := rhs.(*ProtoLiteral); ok {
-		return t.Type.Equals(other.Type) &&
-			reflect.DeepEqual(t.Value, other.Value)
+		return t.Type.Equals(other.Type) && protoLiteralValuesEqual(t.Value, other.Value)
+	}
+	if other, ok := rhs.(IntervalYearToMonthLiteral); ok {
+		return other.Equals(t)
 	}
 	return false
 }
 
+// protoLiteralValuesEqual compares the values of two proto literals of the
+// same type. Protobuf messages are compared by content only.
+func protoLiteralValuesEqual(a, b any) bool {
+	switch a := a.(type) {
+	case protobuf.Message:
+		b, ok := b.(protobuf.Message)
+		return ok && protobuf.Equal(a, b)
+	case *proto.Expression_Literal_UserDefined_Value:
+		b, ok := b.(*proto.Expression_Literal_UserDefined_Value)
+		return ok && protobuf.Equal(a.Value, b.Value)
+	case *proto.Expression_Literal_UserDefined_Struct:
+		b, ok := b.(*proto.Expression_Literal_UserDefined_Struct)
+		return ok && protobuf.Equal(a.Struct, b.Struct)
+	}
+	return reflect.DeepEqual(a, b)
+}
+
 func (t *ProtoLiteral) ToProtoFuncArg() *proto.FunctionArgument {
 	return &proto.FunctionArgument{
 		ArgType: &proto.FunctionArgument_Value{Value: t.ToProto()},
@@ -707,14 +764,22 @@ func newDecimalWithType(literal *ProtoLiteral, decType *types.DecimalType) (Lite
 	if err != nil {
 		return nil, err
 	}
-	return NewLiteral[*types.Decimal](&types.Decimal{Value: decimalBytes[:16], Precision: precision, Scale: scale}, decType.GetNullability() == types.NullabilityNullable)
+	return &ProtoLiteral{
+		Value: decimalBytes[:16],
+		Type: &types.DecimalType{
+			Nullability:      decType.Nullability,
+			TypeVariationRef: decType.TypeVariationRef,
+			Precision:        precision,
+			Scale:            scale,
+		},
+	}, nil
 }
 
 func newVarCharWithType(literal *ProtoLiteral, vcharType *types.VarCharType) (Literal, error) {
 	if _, ok := literal.GetType().(*types.VarCharType); !ok {
 		return nil, fmt.Errorf("literal type is not varchar")
 	}
-	if len(literal.Value.(string)) > int(vcharType.GetLength()) {
+	if utf8.RuneCountInString(literal.Value.(string)) > int(vcharType.GetLength()) {
 		return nil, fmt.Errorf("varchar literal value length is greater than type length")
 	}
 	return &ProtoLiteral{Value: literal.Value, Type: vcharType}, nil
@@ -722,7 +787,10 @@ func newVarCharWithType(literal *ProtoLiteral, vcharType *types.VarCharType) (Li
 
 func newPrecisionTimeWithType(literal *ProtoLiteral, ptType *types.PrecisionTimeType) (Literal, error) {
 	if litType, ok := literal.GetType().(*types.PrecisionTimeType); ok {
-		value := types.GetTimeValueByPrecision(types.Time(literal.Value.(int64)).ToPrecisionTime(litType.Precision), ptType.Precision)
+		value, err := PrecisionTimeValue(types.Time(literal.Value.(int64)).ToPrecisionTime(litType.Precision), ptType.Precision)
+		if err != nil {
+			return nil, err
+		}
 		return &ProtoLiteral{Value: value, Type: ptType}, nil
 	}
 	return nil, fmt.Errorf("literal type is not precision time")
@@ -730,7 +798,10 @@ func newPrecisionTimeWithType(literal *ProtoLiteral, ptType *types.PrecisionTime
 
 func newPrecisionTimestampWithType(literal *ProtoLiteral, ptsType *types.PrecisionTimestampType) (Literal, error) {
 	if litType, ok := literal.GetType().(*types.PrecisionTimestampType); ok {
-		value := types.GetTimeValueByPrecision(types.Timestamp(literal.Value.(int64)).ToPrecisionTime(litType.Precision), ptsType.Precision)
+		value, err := PrecisionTimeValue(types.Timestamp(literal.Value.(int64)).ToPrecisionTime(litType.Precision), ptsType.Precision)
+		if err != nil {
+			return nil, err
+		}
 		return &ProtoLiteral{Value: value, Type: ptsType}, nil
 	}
 	return nil, fmt.Errorf("literal type is not precision timestamp")
@@ -738,7 +809,10 @@ func newPrecisionTimestampWithType(literal *ProtoLiteral, ptsType *types.Precisi
 
 func newPrecisionTimestampTzWithType(literal *ProtoLiteral, ptstzType *types.PrecisionTimestampTzType) (Literal, error) {
 	if litType, ok := literal.GetType().(*types.PrecisionTimestampTzType); ok {
-		value := types.GetTimeValueByPrecision(types.Timestamp(literal.Value.(int64)).ToPrecisionTime(litType.Precision), ptstzType.Precision)
+		value, err := PrecisionTimeValue(types.Timestamp(literal.Value.(int64)).ToPrecisionTime(litType.Precision), ptstzType.Precision)
+		if err != nil {
+			return nil, err
+		}
 		return &ProtoLiteral{Value: value, Type: ptstzType}, nil
 	}
 	return nil, fmt.Errorf("literal type is not precision timestamp tz")
@@ -746,16 +820,19 @@ func newPrecisionTimestampTzWithType(literal *ProtoLiteral, ptstzType *types.Pre
 
 func newIntervalDayWithType(literal *ProtoLiteral, intervalDayType *types.IntervalDayType) (Literal, error) {
 	if _, ok := literal.GetType().(*types.IntervalDayType); ok {
+		if _, err := types.ProtoToTimePrecision(intervalDayType.Precision.ToProtoVal()); err != nil {
+			return nil, err
+		}
 		intervalValue := literal.Value.(*proto.Expression_Literal_IntervalDayToSecond)
-		precisionDiff := intervalValue.GetPrecision() - intervalDayType.Precision.ToProtoVal()
-		ss := intervalValue.GetSubseconds()
-		if precisionDiff != 0 {
-			factor := int64(math.Pow10(int(math.Abs(float64(precisionDiff)))))
-			if precisionDiff > 0 {
-				ss /= factor
-			} else {
-				ss *= factor
+		precision, ss := intervalDaySubseconds(intervalValue)
+		for ; precision > intervalDayType.Precision; precision-- {
+			ss /= 10
+		}
+		for ; precision < intervalDayType.Precision; precision++ {
+			if ss > math.MaxInt64/10 || ss < math.MinInt64/10 {
+				return nil, fmt.Errorf("interval literal subseconds do not fit precision %d", intervalDayType.Precision)
 			}
+			ss *= 10
 		}
 		return &ProtoLiteral{
 			Value: &types.IntervalDayToSecond{
@@ -771,6 +848,32 @@ func newIntervalDayWithType(literal *ProtoLiteral, intervalDayType *types.Interv
 	return nil, fmt.Errorf("literal type is not interval day")
 }
 
+// intervalDaySubseconds returns the subseconds of an interval value and their
+// precision, which is microseconds unless the value says otherwise.
+func intervalDaySubseconds(v *proto.Expression_Literal_IntervalDayToSecond) (types.TimePrecision, int64) {
+	switch mode := v.GetPrecisionMode().(type) {
+	case *proto.Expression_Literal_IntervalDayToSecond_Precision:
+		return types.TimePrecision(mode.Precision), v.GetSubseconds()
+	case *proto.Expression_Literal_IntervalDayToSecond_Microseconds:
+		return types.PrecisionMicroSeconds, int64(mode.Microseconds)
+	}
+	return types.PrecisionMicroSeconds, v.GetSubseconds()
+}
+
+// PrecisionTimeValue returns the number of units of the given precision from
+// the unix epoch to tm, rounded down, or an error if that number does not fit.
+func PrecisionTimeValue(tm time.Time, precision types.TimePrecision) (int64, error) {
+	if _, err := types.ProtoToTimePrecision(precision.ToProtoVal()); err != nil {
+		return 0, err
+	}
+	value := types.GetTimeValueByPrecision(tm, precision)
+	rest := tm.Sub(types.Timestamp(value).ToPrecisionTime(precision))
+	if rest < 0 || rest >= types.SubSecondsToDuration(1, precision) {
+		return 0, fmt.Errorf("time %s does not fit precision %d", tm, precision)
+	}
+	return value, nil
+}
+
 func getNullability(nullable bool) types.Nullability {
 	if nullable {
 		return types.NullabilityNullable
@@ -797,7 +900,7 @@ func NewFixedCharLiteral(val types.FixedChar, nullable bool) *PrimitiveLiteral[t
 		Value: val,
 		Type: &types.FixedCharType{
 			Nullability: getNullability(nullable),
-			Length:      int32(len(val)),
+			Length:      int32(utf8.RuneCountInString(string(val))),
 		},
 	}
 }
@@ -926,6 +1029,9 @@ func NewLiteral[T allLiteralTypes](val T, nullable bool) (Literal, error) {
 	case types.FixedChar:
 		return NewFixedCharLiteral(v, nullable), nil
 	case types.UUID:
+		if len(v) != 16 {
+			return nil, fmt.Errorf("uuid value must be 16 bytes")
+		}
 		return NewByteSliceLiteral(v, nullable), nil
 	case []byte:
 		return NewByteSliceLiteral(v, nullable), nil
@@ -934,8 +1040,14 @@ func NewLiteral[T allLiteralTypes](val T, nullable bool) (Literal, error) {
 	case StructLiteralValue:
 		return NewNestedLiteral(v, nullable), nil
 	case ListLiteralValue:
+		if len(v) == 0 {
+			return nil, fmt.Errorf("%w: list literal without elements, use NewEmptyListLiteral", substraitgo.ErrInvalidExpr)
+		}
 		return NewNestedLiteral(v, nullable), nil
 	case MapLiteralValue:
+		if len(v) == 0 {
+			return nil, fmt.Errorf("%w: map literal without entries, use NewEmptyMapLiteral", substraitgo.ErrInvalidExpr)
+		}
 		return NewNestedLiteral(v, nullable), nil
 	case *types.IntervalYearToMonth:
 		return &ProtoLiteral{
@@ -945,11 +1057,15 @@ func NewLiteral[T allLiteralTypes](val T, nullable bool) (Literal, error) {
 			},
 		}, nil
 	case *types.IntervalDayToSecond:
+		precision, _ := intervalDaySubseconds(v)
+		if _, err := types.ProtoToTimePrecision(precision.ToProtoVal()); err != nil {
+			return nil, err
+		}
 		return &ProtoLiteral{
 			Value: v,
 			Type: &types.IntervalDayType{
 				Nullability: getNullability(nullable),
-				Precision:   types.TimePrecision(v.GetPrecision()),
+				Precision:   precision,
 			},
 		}, nil
 	case *types.Decimal:
@@ -965,9 +1081,17 @@ func NewLiteral[T allLiteralTypes](val T, nullable bool) (Literal, error) {
 			},
 		}, nil
 	case *types.UserDefinedLiteral:
+		if _, ok := v.TypeAnchorType.(*proto.Expression_Literal_UserDefined_TypeReference); !ok {
+			return nil, fmt.Errorf("%w: user-defined literal without type reference", substraitgo.ErrInvalidExpr)
+		}
+		if v.Val == nil {
+			return nil, fmt.Errorf("%w: user-defined literal without value", substraitgo.ErrInvalidExpr)
+		}
 		params := make([]types.TypeParam, len(v.TypeParameters))
 		for i, p := range v.TypeParameters {
-			params[i] = types.TypeParamFromProto(p)
+			if params[i] = types.TypeParamFromProto(p); params[i] == nil {
+				return nil, fmt.Errorf("%w: invalid type parameter %d of user-defined literal", substraitgo.ErrInvalidExpr, i)
+			}
 		}
 
 		return &ProtoLiteral{
@@ -979,6 +1103,9 @@ func NewLiteral[T allLiteralTypes](val T, nullable bool) (Literal, error) {
 			},
 		}, nil
 	case *types.VarChar:
+		if v.Length > math.MaxInt32 {
+			return nil, fmt.Errorf("varchar length %d out of range", v.Length)
+		}
 		return &ProtoLiteral{
 			Value: v.Value,
 			Type: &types.VarCharType{
@@ -987,10 +1114,19 @@ func NewLiteral[T allLiteralTypes](val T, nullable bool) (Literal, error) {
 			},
 		}, nil
 	case *types.PrecisionTime:
+		if _, err := types.ProtoToTimePrecision(v.GetPrecision()); err != nil {
+			return nil, err
+		}
 		return NewPrecisionTimeLiteral(v.Value, types.TimePrecision(v.Precision), getNullability(nullable)), nil
 	case *types.PrecisionTimestamp:
+		if _, err := types.ProtoToTimePrecision(v.PrecisionTimestamp.GetPrecision()); err != nil {
+			return nil, err
+		}
 		return NewPrecisionTimestampLiteral(v.PrecisionTimestamp.Value, types.TimePrecision(v.PrecisionTimestamp.Precision), getNullability(nullable)), nil
 	case *types.PrecisionTimestampTz:
+		if _, err := types.ProtoToTimePrecision(v.PrecisionTimestampTz.GetPrecision()); err != nil {
+			return nil, err
+		}
 		return NewPrecisionTimestampTzLiteral(v.PrecisionTimestampTz.Value, types.TimePrecision(v.PrecisionTimestampTz.Precision), getNullability(nullable)), nil
 	}
 
@@ -998,11 +1134,11 @@ func NewLiteral[T allLiteralTypes](val T, nullable bool) (Literal, error) {
 }
 
 // LiteralFromProto constructs the appropriate Literal struct from
-// a protobuf message.
+// a protobuf message, or returns nil if the message is not a valid literal.
 func LiteralFromProto(l *proto.Expression_Literal) Literal {
-	nullability := getNullability(l.Nullable)
+	nullability := getNullability(l.GetNullable())
 
-	switch lit := l.LiteralType.(type) {
+	switch lit := l.GetLiteralType().(type) {
 	case *proto.Expression_Literal_Boolean:
 		return &PrimitiveLiteral[bool]{
 			Value: lit.Boolean,
@@ -1011,6 +1147,9 @@ func LiteralFromProto(l *proto.Expression_Literal) Literal {
 				Nullability:      nullability,
 			}}
 	case *proto.Expression_Literal_I8:
+		if lit.I8 < math.MinInt8 || lit.I8 > math.MaxInt8 {
+			return nil
+		}
 		return &PrimitiveLiteral[int8]{
 			Value: int8(lit.I8),
 			Type: &types.Int8Type{
@@ -1018,6 +1157,9 @@ func LiteralFromProto(l *proto.Expression_Literal) Literal {
 				Nullability:      nullability,
 			}}
 	case *proto.Expression_Literal_I16:
+		if lit.I16 < math.MinInt16 || lit.I16 > math.MaxInt16 {
+			return nil
+		}
 		return &PrimitiveLiteral[int16]{
 			Value: int16(lit.I16),
 			Type: &types.Int16Type{
@@ -1109,11 +1251,14 @@ func LiteralFromProto(l *proto.Expression_Literal) Literal {
 		return &PrimitiveLiteral[types.FixedChar]{
 			Value: types.FixedChar(lit.FixedChar),
 			Type: &types.FixedCharType{
-				Length:           int32(len(lit.FixedChar)),
+				Length:           int32(utf8.RuneCountInString(lit.FixedChar)),
 				TypeVariationRef: l.TypeVariationReference,
 				Nullability:      nullability,
 			}}
 	case *proto.Expression_Literal_VarChar_:
+		if lit.VarChar.Length > math.MaxInt32 {
+			return nil
+		}
 		return &ProtoLiteral{
 			Value: lit.VarChar.Value,
 			Type: &types.VarCharType{
@@ -1131,6 +1276,9 @@ func LiteralFromProto(l *proto.Expression_Literal) Literal {
 				Nullability:      nullability,
 			}}
 	case *proto.Expression_Literal_Decimal_:
+		if len(lit.Decimal.Value) != 16 {
+			return nil
+		}
 		return &ProtoLiteral{
 			Value: lit.Decimal.Value,
 			Type: &types.DecimalType{
@@ -1148,6 +1296,9 @@ func LiteralFromProto(l *proto.Expression_Literal) Literal {
 				Nullability:      nullability,
 			}}
 	case *proto.Expression_Literal_Uuid:
+		if len(lit.Uuid) != 16 {
+			return nil
+		}
 		return &ByteSliceLiteral[types.UUID]{
 			Value: lit.Uuid,
 			Type: &types.UUIDType{
@@ -1155,12 +1306,18 @@ func LiteralFromProto(l *proto.Expression_Literal) Literal {
 				Nullability:      nullability,
 			}}
 	case *proto.Expression_Literal_Null:
-		return &NullLiteral{Type: types.TypeFromProto(lit.Null)}
+		nullType := types.TypeFromProto(lit.Null)
+		if nullType == nil {
+			return nil
+		}
+		return &NullLiteral{Type: nullType}
 	case *proto.Expression_Literal_Struct_:
 		typeList := make([]types.Type, len(lit.Struct.Fields))
 		fields := make([]Literal, len(lit.Struct.Fields))
 		for i, f := range lit.Struct.Fields {
-			fields[i] = LiteralFromProto(f)
+			if fields[i] = LiteralFromProto(f); fields[i] == nil {
+				return nil
+			}
 			typeList[i] = fields[i].GetType()
 		}
 
@@ -1172,10 +1329,17 @@ func LiteralFromProto(l *proto.Expression_Literal) Literal {
 				Types:            typeList,
 			}}
 	case *proto.Expression_Literal_Map_:
+		if len(lit.Map.KeyValues) == 0 {
+			// the types of an empty map are only known from EmptyMap
+			return nil
+		}
 		ret := make(MapLiteralValue, len(lit.Map.KeyValues))
 		for i, kv := range lit.Map.KeyValues {
-			ret[i].Key = LiteralFromProto(kv.Key)
-			ret[i].Value = LiteralFromProto(kv.Value)
+			ret[i].Key = LiteralFromProto(kv.GetKey())
+			ret[i].Value = LiteralFromProto(kv.GetValue())
+			if ret[i].Key == nil || ret[i].Value == nil {
+				return nil
+			}
 		}
 		return &MapLiteral{
 			Value: ret,
@@ -1186,9 +1350,15 @@ func LiteralFromProto(l *proto.Expression_Literal) Literal {
 				Value:            ret[0].Value.GetType(),
 			}}
 	case *proto.Expression_Literal_List_:
+		if len(lit.List.Values) == 0 {
+			// the type of an empty list is only known from EmptyList
+			return nil
+		}
 		ret := make(ListLiteralValue, len(lit.List.Values))
 		for i, v := range lit.List.Values {
-			ret[i] = LiteralFromProto(v)
+			if ret[i] = LiteralFromProto(v); ret[i] == nil {
+				return nil
+			}
 		}
 		return &NestedLiteral[ListLiteralValue]{
 			Value: ListLiteralValue(ret),
@@ -1198,26 +1368,42 @@ func LiteralFromProto(l *proto.Expression_Literal) Literal {
 				Type:             ret[0].GetType(),
 			}}
 	case *proto.Expression_Literal_EmptyList:
+		elemType := types.TypeFromProto(lit.EmptyList.Type)
+		if elemType == nil {
+			return nil
+		}
 		return &NestedLiteral[ListLiteralValue]{
 			Value: nil,
 			Type: &types.ListType{
 				Nullability:      nullability,
 				TypeVariationRef: l.TypeVariationReference,
-				Type:             types.TypeFromProto(lit.EmptyList.Type),
+				Type:             elemType,
 			}}
 	case *proto.Expression_Literal_EmptyMap:
+		keyType, valueType := types.TypeFromProto(lit.EmptyMap.Key), types.TypeFromProto(lit.EmptyMap.Value)
+		if keyType == nil || valueType == nil {
+			return nil
+		}
 		return &MapLiteral{
 			Value: nil,
 			Type: &types.MapType{
 				Nullability:      nullability,
 				TypeVariationRef: l.TypeVariationReference,
-				Key:              types.TypeFromProto(lit.EmptyMap.Key),
-				Value:            types.TypeFromProto(lit.EmptyMap.Value),
+				Key:              keyType,
+				Value:            valueType,
 			}}
 	case *proto.Expression_Literal_UserDefined_:
+		if _, ok := lit.UserDefined.TypeAnchorType.(*proto.Expression_Literal_UserDefined_TypeReference); !ok {
+			return nil
+		}
+		if lit.UserDefined.Val == nil {
+			return nil
+		}
 		params := make([]types.TypeParam, len(lit.UserDefined.TypeParameters))
 		for i, p := range lit.UserDefined.TypeParameters {
-			params[i] = types.TypeParamFromProto(p)
+			if params[i] = types.TypeParamFromProto(p); params[i] == nil {
+				return nil
+			}
 		}
 
 		return &ProtoLiteral{
@@ -1238,33 +1424,50 @@ func LiteralFromProto(l *proto.Expression_Literal) Literal {
 		if precTime.Value < 0 {
 			return nil
 		}
-		return NewPrecisionTimeLiteral(precTime.Value, precision, nullability)
+		return &ProtoLiteral{
+			Value: precTime.Value,
+			Type: &types.PrecisionTimeType{
+				Precision:        precision,
+				Nullability:      nullability,
+				TypeVariationRef: l.TypeVariationReference,
+			},
+		}
 	case *proto.Expression_Literal_PrecisionTimestamp_:
 		precTimeStamp := lit.PrecisionTimestamp
 		precision, err := types.ProtoToTimePrecision(precTimeStamp.Precision)
 		if err != nil {
 			return nil
 		}
-		if precTimeStamp.Value < 0 {
-			return nil
+		return &ProtoLiteral{
+			Value: precTimeStamp.Value,
+			Type: &types.PrecisionTimestampType{
+				Precision:        precision,
+				Nullability:      nullability,
+				TypeVariationRef: l.TypeVariationReference,
+			},
 		}
-		return NewPrecisionTimestampLiteral(precTimeStamp.Value, precision, nullability)
 	case *proto.Expression_Literal_PrecisionTimestampTz:
 		precTimeStamp := lit.PrecisionTimestampTz
 		precision, err := types.ProtoToTimePrecision(precTimeStamp.Precision)
 		if err != nil {
 			return nil
 		}
-		if precTimeStamp.Value < 0 {
-			return nil
+		return &ProtoLiteral{
+			Value: precTimeStamp.Value,
+			Type: &types.PrecisionTimestampTzType{
+				PrecisionTimestampType: types.PrecisionTimestampType{
+					Precision:        precision,
+					Nullability:      nullability,
+					TypeVariationRef: l.TypeVariationReference,
+				},
+			},
 		}
-		return NewPrecisionTimestampTzLiteral(precTimeStamp.Value, precision, nullability)
 	case *proto.Expression_Literal_IntervalYearToMonth_:
 		return intervalYearToMonthLiteralFromProto(l)
 	case *proto.Expression_Literal_IntervalCompound_:
 		return intervalCompoundLiteralFromProto(l)
 	}
-	panic("unimplemented literal type")
+	return nil
 }
 
 // NewPrecisionTimeLiteral creates a new PrecisionTime from an integer value, representing time since
diff --git a/plan/internal/helper.go b/plan/internal/helper.go
index aa0424b..0bd8d66 100644
--- a/plan/internal/helper.go
+++ b/plan/internal/helper.go
@@ -1,6 +1,9 @@
 package internal
 
 import (
+	"fmt"
+
+	substraitgo "github.com/substrait-io/substrait-go/v8"
 	"github.com/substrait-io/substrait-go/v8/expr"
 	proto "github.com/substrait-io/substrait-protobuf/go/substraitpb"
 )
@@ -17,10 +20,14 @@ func VirtualTableExpressionFromProto(s *proto.Expression_Nested_Struct, reg expr
 	return fields, nil
 }
 
-func VirtualTableExprFromLiteralProto(s *proto.Expression_Literal_Struct) expr.VirtualTableExpressionValue {
+func VirtualTableExprFromLiteralProto(s *proto.Expression_Literal_Struct) (expr.VirtualTableExpressionValue, error) {
 	fields := make(expr.VirtualTableExpressionValue, len(s.Fields))
 	for i, f := range s.Fields {
-		fields[i] = expr.LiteralFromProto(f)
+		lit := expr.LiteralFromProto(f)
+		if lit == nil {
+			return nil, fmt.Errorf("%w: invalid literal in virtual table", substraitgo.ErrInvalidExpr)
+		}
+		fields[i] = lit
 	}
-	return fields
+	return fields, nil
 }
diff --git a/plan/plan.go b/plan/plan.go
index 43fbb1b..a0da394 100644
--- a/plan/plan.go
+++ b/plan/plan.go
@@ -261,9 +261,14 @@ func FromProtoWithDecoder(plan *proto.Plan, c *extensions.Collection, decoders m
 	if len(plan.ParameterBindings) > 0 {
 		ret.parameterBindings = make([]DynamicParameterBinding, len(plan.ParameterBindings))
 		for i, pb := range plan.ParameterBindings {
+			value := expr.LiteralFromProto(pb.Value)
+			if value == nil {
+				return nil, fmt.Errorf("%w: invalid literal bound to dynamic parameter %d",
+					substraitgo.ErrInvalidExpr, pb.ParameterAnchor)
+			}
 			ret.parameterBindings[i] = DynamicParameterBinding{
 				ParameterAnchor: pb.ParameterAnchor,
-				Value:           expr.LiteralFromProto(pb.Value),
+				Value:           value,
 			}
 		}
 	}
@@ -473,7 +478,11 @@ func RelFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 			}
 			var values []expr.VirtualTableExpressionValue
 			for _, v := range readType.VirtualTable.Values {
-				values = append(values, internal.VirtualTableExprFromLiteralProto(v))
+				row, err := internal.VirtualTableExprFromLiteralProto(v)
+				if err != nil {
+					return nil, err
+				}
+				values = append(values, row)
 			}
 			for _, v := range readType.VirtualTable.Expressions {
 				row, err := internal.VirtualTableExpressionFromProto(v, reg)
-- 
2.43.0


From 836924b899962a7e4c9b196db5c6b0c54939251e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:52 +0000
Subject: [PATCH 20/69] fix: literal constructors from text and Go values
 refuse what they cannot hold exactly

---
 literal/utils.go | 187 ++++++++++++++++++++++++++---------------------
 1 file changed, 103 insertions(+), 84 deletions(-)

diff --git a/literal/utils.go b/literal/utils.go
index 01041fe..f9dd292 100644
--- a/literal/utils.go
+++ b/literal/utils.go
@@ -1,10 +1,14 @@
 package literal
 
 import (
+	"errors"
 	"fmt"
+	"math"
 	"regexp"
 	"strconv"
+	"strings"
 	"time"
+	"unicode/utf8"
 
 	"github.com/cockroachdb/apd/v3"
 	"github.com/google/uuid"
@@ -48,6 +52,9 @@ func NewString(value string, nullable bool) expr.Literal {
 }
 
 func NewDate(days int, nullable bool) (expr.Literal, error) {
+	if days < math.MinInt32 || days > math.MaxInt32 {
+		return nil, fmt.Errorf("invalid date value %d", days)
+	}
 	return expr.NewLiteral(types.Date(days), nullable)
 }
 
@@ -56,18 +63,20 @@ func NewDateFromString(value string, nullable bool) (expr.Literal, error) {
 	if err != nil {
 		return nil, err
 	}
+	// tm is at midnight, so that the division is exact
 	return NewDate(int(tm.Unix()/86400), nullable)
 }
 
 // NewTime creates a new Time literal from the given hours, minutes, seconds and microseconds.
 // The total microseconds should be in the range [0, 86400_000_000) to represent a valid time within a day.
 func NewTime(hours, minutes, seconds, microseconds int32, nullable bool) (expr.Literal, error) {
-	duration := time.Duration(hours)*time.Hour + time.Duration(minutes)*time.Minute + time.Duration(seconds)*time.Second + time.Duration(microseconds)*time.Microsecond
-	micros := duration.Microseconds()
+	// in microseconds no int32 value can overflow
+	micros := int64(hours)*time.Hour.Microseconds() + int64(minutes)*time.Minute.Microseconds() +
+		int64(seconds)*time.Second.Microseconds() + int64(microseconds)
 	if micros < 0 || micros >= (24*time.Hour).Microseconds() {
 		return nil, fmt.Errorf("invalid time value %d:%d:%d.%d", hours, minutes, seconds, microseconds)
 	}
-	return expr.NewLiteral(types.Time(duration.Microseconds()), nullable)
+	return expr.NewLiteral(types.Time(micros), nullable)
 }
 
 // NewTimeFromMicros creates a new Time literal from the given microseconds.
@@ -88,13 +97,17 @@ func NewTimeFromString(value string, nullable bool) (expr.Literal, error) {
 	return NewTimeFromMicros(micros, nullable)
 }
 
-func parseTimeFromString(value string) (time.Time, error) {
+func parseTimestampFromString(value string) (time.Time, error) {
 	if t, err := time.Parse(time.RFC3339, value); err == nil {
 		return t, nil
 	}
 
 	layoutWithoutOffset := "2006-01-02T15:04:05"
-	if t, err := time.Parse(layoutWithoutOffset, value); err == nil {
+	return time.Parse(layoutWithoutOffset, value)
+}
+
+func parseTimeFromString(value string) (time.Time, error) {
+	if t, err := parseTimestampFromString(value); err == nil {
 		return t, nil
 	}
 	timeOnlyInMicros := "15:04:05.9999999"
@@ -108,11 +121,15 @@ func parseTimeFromString(value string) (time.Time, error) {
 // NewTimestamp creates a new Timestamp literal from a time.Time timestamp value.
 // This uses the number of microseconds elapsed since January 1, 1970 00:00:00 UTC
 func NewTimestamp(timestamp time.Time, nullable bool) (expr.Literal, error) {
-	return expr.NewLiteral(types.Timestamp(timestamp.UnixMicro()), nullable)
+	micros, err := expr.PrecisionTimeValue(timestamp, types.PrecisionMicroSeconds)
+	if err != nil {
+		return nil, err
+	}
+	return expr.NewLiteral(types.Timestamp(micros), nullable)
 }
 
 func NewTimestampFromString(value string, nullable bool) (expr.Literal, error) {
-	tm, err := parseTimeFromString(value)
+	tm, err := parseTimestampFromString(value)
 	if err != nil {
 		return nil, err
 	}
@@ -126,11 +143,15 @@ func NewTimestampFromMicros(micros int64, nullable bool) (expr.Literal, error) {
 // NewTimestampTZ creates a new TimestampTz literal from a time.Time timestamp value.
 // This uses the number of microseconds elapsed since January 1, 1970 00:00:00 UTC
 func NewTimestampTZ(timestamp time.Time, nullable bool) (expr.Literal, error) {
-	return expr.NewLiteral(types.TimestampTz(timestamp.UnixMicro()), nullable)
+	micros, err := expr.PrecisionTimeValue(timestamp, types.PrecisionMicroSeconds)
+	if err != nil {
+		return nil, err
+	}
+	return expr.NewLiteral(types.TimestampTz(micros), nullable)
 }
 
 func NewTimestampTZFromString(value string, nullable bool) (expr.Literal, error) {
-	tm, err := parseTimeFromString(value)
+	tm, err := parseTimestampFromString(value)
 	if err != nil {
 		return nil, err
 	}
@@ -149,40 +170,25 @@ func NewIntervalYearsToMonthFromString(yearsToMonth string, nullable bool) (expr
 	return NewIntervalYearsToMonth(years, months, nullable)
 }
 
+var intervalYearsToMonthPattern = regexp.MustCompile(`^P(?:([+-]?\d+)Y)?(?:([+-]?\d+)M)?$`)
+
 func parseIntervalYearsToMonth(interval string) (int32, int32, error) {
-	if len(interval) < 3 || interval[0] != 'P' {
+	matches := intervalYearsToMonthPattern.FindStringSubmatch(interval)
+	if matches == nil || matches[1] == "" && matches[2] == "" {
 		return 0, 0, fmt.Errorf("invalid interval format: %s", interval)
 	}
-	interval = interval[1:]
-	yIndex := -1
-	mIndex := -1
-	for i, c := range interval {
-		if c == 'Y' {
-			yIndex = i
-		} else if c == 'M' {
-			mIndex = i
-		}
-	}
-	if yIndex == -1 && mIndex == -1 {
-		return 0, 0, fmt.Errorf("invalid interval format: %s", interval)
-	}
-	var months, years int
-	var err error
-	if yIndex != -1 {
-		years, err = strconv.Atoi(interval[:yIndex])
-		if err != nil {
-			return 0, 0, err
+	var values [2]int32
+	for i, text := range matches[1:] {
+		if text == "" {
+			continue
 		}
-		interval = interval[yIndex+1:]
-		mIndex -= yIndex + 1
-	}
-	if mIndex > 0 {
-		months, err = strconv.Atoi(interval[:mIndex])
+		value, err := strconv.ParseInt(text, 10, 32)
 		if err != nil {
-			return 0, 0, err
+			return 0, 0, fmt.Errorf("invalid interval format: %s: %w", interval, err)
 		}
+		values[i] = int32(value)
 	}
-	return int32(years), int32(months), nil
+	return values[0], values[1], nil
 }
 
 func NewIntervalYearsToMonth(years, months int32, nullable bool) (expr.Literal, error) {
@@ -204,63 +210,64 @@ func NewIntervalDaysToSecondFromString(daysToSecond string, nullable bool) (expr
 	}, nullable)
 }
 
+// interval of format P[n]DT[n]H[n]M[n]S
+// Ex: 3DT4H5M6.789S
+var intervalDaysToSecondPattern = regexp.MustCompile(`^P(?:(\d+)D)?(T(?:(\d+)H)?(?:(\d+)M)?(?:(\d*)(?:\.(\d+))?S)?)?$`)
+
 func parseIntervalDaysToSecond(interval string) (int32, int32, int64, int32, error) {
-	if len(interval) < 3 || interval[0] != 'P' {
-		return 0, 0, 0, 0, fmt.Errorf("invalid interval format: %s", interval)
+	fail := func(err error) (int32, int32, int64, int32, error) {
+		return 0, 0, 0, 0, fmt.Errorf("invalid interval %s: %w", interval, err)
 	}
 
-	// Parse interval of format P[n]DT[n]H[n]M[n]S
-	// Ex: 3DT4H5M6.789S
-	regex := `^P(?:(\d+)D)?(?:T(?:(\d+)H)?(?:(\d+)M)?(?:(\d*(\.\d+)?)S)?)?$`
-	r := regexp.MustCompile(regex)
-
-	// Find matches
-	matches := r.FindStringSubmatch(interval)
-	if matches == nil {
-		return 0, 0, 0, 0, fmt.Errorf("invalid interval format: %s", interval)
+	matches := intervalDaysToSecondPattern.FindStringSubmatch(interval)
+	if matches == nil || interval == "P" || strings.HasSuffix(interval, "T") {
+		return fail(errors.New("format is not P[n]DT[n]H[n]M[n]S"))
+	}
+	days, hours, minutes, seconds, fraction := matches[1], matches[3], matches[4], matches[5], matches[6]
+	if seconds == "" && fraction == "" && strings.HasSuffix(interval, "S") {
+		return fail(errors.New("no number of seconds"))
 	}
 
-	// Parse each component
+	dayCount := int64(0)
 	var err error
-	var days, hours, minutes, seconds int
-	var secFloat float64
-	var subSeconds int64
-	if matches[1] != "" {
-		days, err = strconv.Atoi(matches[1])
-		if err != nil {
-			return 0, 0, 0, 0, fmt.Errorf("invalid day value: %v", err)
+	if days != "" {
+		if dayCount, err = strconv.ParseInt(days, 10, 32); err != nil {
+			return fail(err)
 		}
 	}
-	if matches[2] != "" {
-		hours, err = strconv.Atoi(matches[2])
-		if err != nil {
-			return 0, 0, 0, 0, fmt.Errorf("invalid hour value: %v", err)
+	totalSeconds := int64(0)
+	for _, part := range []struct {
+		text    string
+		seconds int64
+	}{{hours, 3600}, {minutes, 60}, {seconds, 1}} {
+		if part.text == "" {
+			continue
 		}
-	}
-	if matches[3] != "" {
-		minutes, err = strconv.Atoi(matches[3])
+		value, err := strconv.ParseInt(part.text, 10, 32)
 		if err != nil {
-			return 0, 0, 0, 0, fmt.Errorf("invalid minute value: %v", err)
+			return fail(err)
 		}
+		totalSeconds += value * part.seconds
 	}
-	if matches[4] != "" {
-		secFloat, err = strconv.ParseFloat(matches[4], 64)
-		if err != nil {
-			return 0, 0, 0, 0, fmt.Errorf("invalid fractional second value: %v", err)
-		}
+	if totalSeconds > math.MaxInt32 {
+		return fail(errors.New("too many seconds"))
 	}
 
-	seconds = int(secFloat)
-	secFloat -= float64(seconds)
-	seconds += hours*3600 + minutes*60
-	nanoSeconds := int64(secFloat * 1e9)
-	subSeconds = int64(secFloat * 1e6)
-	precision := int32(types.PrecisionMicroSeconds)
-	if nanoSeconds > subSeconds*1e3 {
-		subSeconds = nanoSeconds
-		precision = int32(types.PrecisionNanoSeconds)
+	// microseconds, or nanoseconds if those are needed
+	fraction = strings.TrimRight(fraction, "0")
+	precision := types.PrecisionMicroSeconds
+	if len(fraction) > int(precision) {
+		precision = types.PrecisionNanoSeconds
+	}
+	if len(fraction) > int(precision) {
+		return fail(errors.New("more than 9 decimal places of seconds"))
+	}
+	fraction += strings.Repeat("0", int(precision)-len(fraction))
+	subSeconds, err := strconv.ParseInt(fraction, 10, 64)
+	if err != nil {
+		return fail(err)
 	}
-	return int32(days), int32(seconds), subSeconds, precision, nil
+	return int32(dayCount), int32(totalSeconds), subSeconds, precision.ToProtoVal(), nil
 }
 
 func NewIntervalDaysToSecond(days, seconds int32, micros int64, nullable bool) (expr.Literal, error) {
@@ -295,7 +302,7 @@ func NewFixedBinary(value []byte, nullable bool) (expr.Literal, error) {
 }
 
 func NewVarChar(value string, nullable bool) (expr.Literal, error) {
-	return expr.NewLiteral(&types.VarChar{Value: value, Length: uint32(len(value))}, nullable)
+	return expr.NewLiteral(&types.VarChar{Value: value, Length: uint32(utf8.RuneCountInString(value))}, nullable)
 }
 
 // NewDecimalFromTwosComplement create a Decimal literal from twosComplement.
@@ -343,7 +350,11 @@ var epochTM = time.Unix(0, 0).UTC()
 func NewPrecisionTimeFromTime(precision types.TimePrecision, tm time.Time, nullable bool) (expr.Literal, error) {
 	// truncate the date so that we only keep the duration since midnight
 	tm = epochTM.Add(tm.Sub(tm.Truncate(24 * time.Hour)))
-	return NewPrecisionTime(precision, types.GetTimeValueByPrecision(tm, precision), nullable)
+	value, err := expr.PrecisionTimeValue(tm, precision)
+	if err != nil {
+		return nil, err
+	}
+	return NewPrecisionTime(precision, value, nullable)
 }
 
 func NewPrecisionTimeFromString(precision types.TimePrecision, value string, nullable bool) (expr.Literal, error) {
@@ -356,7 +367,11 @@ func NewPrecisionTimeFromString(precision types.TimePrecision, value string, nul
 
 // NewPrecisionTimestampFromTime creates a new PrecisionTimestamp literal from a time.Time timestamp value with given precision.
 func NewPrecisionTimestampFromTime(precision types.TimePrecision, tm time.Time, nullable bool) (expr.Literal, error) {
-	return NewPrecisionTimestamp(precision, types.GetTimeValueByPrecision(tm, precision), nullable)
+	value, err := expr.PrecisionTimeValue(tm, precision)
+	if err != nil {
+		return nil, err
+	}
+	return NewPrecisionTimestamp(precision, value, nullable)
 }
 
 // NewPrecisionTimestamp creates a new PrecisionTimestamp literal with given precision and value.
@@ -370,7 +385,7 @@ func NewPrecisionTimestamp(precision types.TimePrecision, value int64, nullable
 }
 
 func NewPrecisionTimestampFromString(precision types.TimePrecision, value string, nullable bool) (expr.Literal, error) {
-	tm, err := parseTimeFromString(value)
+	tm, err := parseTimestampFromString(value)
 	if err != nil {
 		return nil, err
 	}
@@ -379,7 +394,11 @@ func NewPrecisionTimestampFromString(precision types.TimePrecision, value string
 
 // NewPrecisionTimestampTzFromTime creates a new PrecisionTimestampTz literal from a time.Time timestamp value with given precision.
 func NewPrecisionTimestampTzFromTime(precision types.TimePrecision, tm time.Time, nullable bool) (expr.Literal, error) {
-	return NewPrecisionTimestampTz(precision, types.GetTimeValueByPrecision(tm, precision), nullable)
+	value, err := expr.PrecisionTimeValue(tm, precision)
+	if err != nil {
+		return nil, err
+	}
+	return NewPrecisionTimestampTz(precision, value, nullable)
 }
 
 // NewPrecisionTimestampTz creates a new PrecisionTimestampTz literal with given precision and value.
@@ -393,7 +412,7 @@ func NewPrecisionTimestampTz(precision types.TimePrecision, value int64, nullabl
 }
 
 func NewPrecisionTimestampTzFromString(precision types.TimePrecision, value string, nullable bool) (expr.Literal, error) {
-	tm, err := parseTimeFromString(value)
+	tm, err := parseTimestampFromString(value)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From c10cfbb5f17b5888e4a3c734acd50724cb6df4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:51 +0000
Subject: [PATCH 21/69] fix: byte literals are not given a type they are too
 long for, a decimal zero fits any scale

---
 expr/decimal_util.go | 3 +++
 expr/literals.go     | 8 +++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/expr/decimal_util.go b/expr/decimal_util.go
index c6fee40..e795707 100644
--- a/expr/decimal_util.go
+++ b/expr/decimal_util.go
@@ -183,6 +183,9 @@ func modifyDecimalPrecisionAndScale(decimalBytes [16]byte, scale, targetPrecisio
 }
 
 func validatePrecisionAndScale(dec *apd.Decimal, targetPrecision int32, targetScale int32) error {
+	if dec.IsZero() {
+		return nil
+	}
 	// Validate the minimum precision and scale.
 	minPrecision, minScale := getMinimumPrecisionAndScale(dec)
 	if targetScale < minScale {
diff --git a/expr/literals.go b/expr/literals.go
index ee62a4f..9f3838d 100644
--- a/expr/literals.go
+++ b/expr/literals.go
@@ -489,13 +489,19 @@ func (t *ByteSliceLiteral[T]) Visit(VisitFunc) Expression { return t }
 func (*ByteSliceLiteral[T]) IsScalar() bool               { return true }
 
 func (t *ByteSliceLiteral[T]) WithType(newType types.Type) (Literal, error) {
-	switch newType.(type) {
+	switch typ := newType.(type) {
 	case *types.FixedBinaryType:
+		if len(t.Value) > int(typ.Length) {
+			return nil, fmt.Errorf("byte slice literal value is longer than %s", newType)
+		}
 		return &ByteSliceLiteral[types.FixedBinary]{
 			Value: types.FixedBinary(t.Value),
 			Type:  newType,
 		}, nil
 	case *types.UUIDType:
+		if len(t.Value) != 16 {
+			return nil, fmt.Errorf("uuid value must be 16 bytes")
+		}
 		return &ByteSliceLiteral[types.UUID]{
 			Value: types.UUID(t.Value),
 			Type:  newType,
-- 
2.43.0


From f46057f9cbb0be725976ec3b9b650e9909a88228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:40 +0000
Subject: [PATCH 22/69] fix: function calls compare argument counts and bounds
 types, custom aggregates keep their declaration

---
 expr/functions.go | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/expr/functions.go b/expr/functions.go
index cd16c14..265cce1 100644
--- a/expr/functions.go
+++ b/expr/functions.go
@@ -421,6 +421,8 @@ func (s *ScalarFunction) Equals(rhs Expression) bool {
 		return false
 	case !s.outputType.Equals(other.outputType):
 		return false
+	case len(s.args) != len(other.args):
+		return false
 	}
 
 	for i := range s.args {
@@ -651,7 +653,7 @@ func (w *WindowFunction) Equals(other Expression) bool {
 		return false
 	case w.phase != rhs.phase || w.invocation != rhs.invocation:
 		return false
-	case w.LowerBound != rhs.LowerBound || w.UpperBound != rhs.UpperBound:
+	case w.BoundsType != rhs.BoundsType || w.LowerBound != rhs.LowerBound || w.UpperBound != rhs.UpperBound:
 		return false
 	case !slices.EqualFunc(w.options, rhs.options, func(l, r *types.FunctionOption) bool {
 		return l.Name == r.Name && slices.Equal(l.Preference, r.Preference)
@@ -815,13 +817,14 @@ func NewCustomAggregateFunc(
 	}
 
 	return &AggregateFunction{
-		funcRef:    reg.GetFuncAnchor(v.ID()),
-		outputType: outputType,
-		options:    opts,
-		args:       args,
-		invocation: invoke,
-		phase:      phase,
-		Sorts:      sorts,
+		funcRef:     reg.GetFuncAnchor(v.ID()),
+		declaration: v,
+		outputType:  outputType,
+		options:     opts,
+		args:        args,
+		invocation:  invoke,
+		phase:       phase,
+		Sorts:       sorts,
 	}, nil
 }
 
-- 
2.43.0


From 13f3b989eb17c1f621aca6ec116a5901907649c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:47 +0000
Subject: [PATCH 23/69] fix: malformed types and empty switches in expression
 messages are errors, a switch without default can be read

---
 expr/expression.go | 60 ++++++++++++++++++++++++++++++++++++----------
 expr/functions.go  | 14 +++++++----
 2 files changed, 57 insertions(+), 17 deletions(-)

diff --git a/expr/expression.go b/expr/expression.go
index 588108d..9992d78 100644
--- a/expr/expression.go
+++ b/expr/expression.go
@@ -41,17 +41,25 @@ func MustExpr(e Expression, err error) Expression {
 }
 
 func FuncArgFromProto(e *proto.FunctionArgument, baseSchema *types.RecordType, reg ExtensionRegistry) (types.FuncArg, error) {
-	switch et := e.ArgType.(type) {
+	switch et := e.GetArgType().(type) {
 	case *proto.FunctionArgument_Enum:
 		return types.Enum(et.Enum), nil
 	case *proto.FunctionArgument_Type:
-		return types.TypeFromProto(et.Type), nil
+		return typeFromProto(et.Type)
 	case *proto.FunctionArgument_Value:
 		return ExprFromProto(et.Value, baseSchema, reg)
 	}
 	return nil, substraitgo.ErrNotImplemented
 }
 
+// typeFromProto is types.TypeFromProto with an error for a missing or malformed type.
+func typeFromProto(t *proto.Type) (types.Type, error) {
+	if out := types.TypeFromProto(t); out != nil {
+		return out, nil
+	}
+	return nil, fmt.Errorf("%w: missing or malformed type", substraitgo.ErrInvalidType)
+}
+
 func ExprFromProto(e *proto.Expression, baseSchema *types.RecordType, reg ExtensionRegistry) (Expression, error) {
 	if e == nil {
 		return nil, fmt.Errorf("%w: protobuf Expression is nil", substraitgo.ErrInvalidExpr)
@@ -77,6 +85,10 @@ func ExprFromProto(e *proto.Expression, baseSchema *types.RecordType, reg Extens
 		if et.ScalarFunction.OutputType == nil {
 			return nil, fmt.Errorf("%w: scalar function missing output type", substraitgo.ErrInvalidExpr)
 		}
+		outputType, err := typeFromProto(et.ScalarFunction.OutputType)
+		if err != nil {
+			return nil, err
+		}
 
 		id, ok := reg.DecodeFunc(et.ScalarFunction.FunctionReference)
 		if !ok {
@@ -85,7 +97,7 @@ func ExprFromProto(e *proto.Expression, baseSchema *types.RecordType, reg Extens
 
 		decl, ok := reg.LookupScalarFunction(et.ScalarFunction.FunctionReference)
 		if !ok {
-			return NewCustomScalarFunc(reg, extensions.NewScalarFuncVariant(id), types.TypeFromProto(et.ScalarFunction.OutputType), et.ScalarFunction.Options, args...)
+			return NewCustomScalarFunc(reg, extensions.NewScalarFuncVariant(id), outputType, et.ScalarFunction.Options, args...)
 		}
 
 		return &ScalarFunction{
@@ -93,7 +105,7 @@ func ExprFromProto(e *proto.Expression, baseSchema *types.RecordType, reg Extens
 			declaration: decl,
 			args:        args,
 			options:     et.ScalarFunction.Options,
-			outputType:  types.TypeFromProto(et.ScalarFunction.OutputType),
+			outputType:  outputType,
 		}, nil
 	case *proto.Expression_WindowFunction_:
 		var err error
@@ -121,6 +133,10 @@ func ExprFromProto(e *proto.Expression, baseSchema *types.RecordType, reg Extens
 		if et.WindowFunction.OutputType == nil {
 			return nil, fmt.Errorf("%w: window function missing output type", substraitgo.ErrInvalidExpr)
 		}
+		outputType, err := typeFromProto(et.WindowFunction.OutputType)
+		if err != nil {
+			return nil, err
+		}
 
 		id, ok := reg.DecodeFunc(et.WindowFunction.FunctionReference)
 		if !ok {
@@ -128,7 +144,7 @@ func ExprFromProto(e *proto.Expression, baseSchema *types.RecordType, reg Extens
 		}
 		decl, ok := reg.LookupWindowFunction(et.WindowFunction.FunctionReference)
 		if !ok {
-			fn, err := NewCustomWindowFunc(reg, extensions.NewWindowFuncVariant(id), types.TypeFromProto(et.WindowFunction.OutputType),
+			fn, err := NewCustomWindowFunc(reg, extensions.NewWindowFuncVariant(id), outputType,
 				et.WindowFunction.Options, et.WindowFunction.Invocation, et.WindowFunction.Phase, args...)
 			if err != nil {
 				return nil, err
@@ -147,7 +163,7 @@ func ExprFromProto(e *proto.Expression, baseSchema *types.RecordType, reg Extens
 			declaration: decl,
 			args:        args,
 			options:     et.WindowFunction.Options,
-			outputType:  types.TypeFromProto(et.WindowFunction.OutputType),
+			outputType:  outputType,
 			phase:       et.WindowFunction.Phase,
 			invocation:  et.WindowFunction.Invocation,
 			Partitions:  parts,
@@ -185,9 +201,16 @@ func ExprFromProto(e *proto.Expression, baseSchema *types.RecordType, reg Extens
 			return nil, err
 		}
 
-		elseExpr, err := ExprFromProto(et.SwitchExpression.Else, baseSchema, reg)
-		if err != nil {
-			return nil, err
+		// the default case is optional
+		var elseExpr Expression
+		if et.SwitchExpression.Else != nil {
+			if elseExpr, err = ExprFromProto(et.SwitchExpression.Else, baseSchema, reg); err != nil {
+				return nil, err
+			}
+		}
+
+		if len(et.SwitchExpression.Ifs) == 0 {
+			return nil, fmt.Errorf("%w: must have at least one switch case", substraitgo.ErrInvalidExpr)
 		}
 
 		ifs := make([]struct {
@@ -257,13 +280,18 @@ func ExprFromProto(e *proto.Expression, baseSchema *types.RecordType, reg Extens
 			return nil, fmt.Errorf("%w: cast expression missing type", substraitgo.ErrInvalidExpr)
 		}
 
+		castType, err := typeFromProto(et.Cast.Type)
+		if err != nil {
+			return nil, err
+		}
+
 		input, err := ExprFromProto(et.Cast.Input, baseSchema, reg)
 		if err != nil {
 			return nil, err
 		}
 
 		return &Cast{
-			Type:            types.TypeFromProto(et.Cast.Type),
+			Type:            castType,
 			Input:           input,
 			FailureBehavior: et.Cast.FailureBehavior,
 		}, nil
@@ -337,8 +365,12 @@ func ExprFromProto(e *proto.Expression, baseSchema *types.RecordType, reg Extens
 		if et.DynamicParameter == nil {
 			return nil, fmt.Errorf("%w: dynamic parameter is nil", substraitgo.ErrInvalidExpr)
 		}
+		outputType, err := typeFromProto(et.DynamicParameter.Type)
+		if err != nil {
+			return nil, err
+		}
 		return &DynamicParameter{
-			OutputType:         types.TypeFromProto(et.DynamicParameter.Type),
+			OutputType:         outputType,
 			ParameterReference: et.DynamicParameter.ParameterReference,
 		}, nil
 	case *proto.Expression_Enum_:
@@ -358,7 +390,11 @@ func ExprFromProto(e *proto.Expression, baseSchema *types.RecordType, reg Extens
 
 		paramTypes := make([]types.Type, len(et.Lambda.Parameters.Types))
 		for i, pt := range et.Lambda.Parameters.Types {
-			paramTypes[i] = types.TypeFromProto(pt)
+			paramType, err := typeFromProto(pt)
+			if err != nil {
+				return nil, err
+			}
+			paramTypes[i] = paramType
 		}
 		params := &types.StructType{
 			Types:            paramTypes,
diff --git a/expr/functions.go b/expr/functions.go
index 265cce1..36881fc 100644
--- a/expr/functions.go
+++ b/expr/functions.go
@@ -80,7 +80,7 @@ func (s *SortField) ToProto() *proto.SortField {
 func SortFieldFromProto(
 	f *proto.SortField, baseSchema *types.RecordType, reg ExtensionRegistry,
 ) (sf SortField, err error) {
-	sf.Expr, err = ExprFromProto(f.Expr, baseSchema, reg)
+	sf.Expr, err = ExprFromProto(f.GetExpr(), baseSchema, reg)
 	if err != nil {
 		return
 	}
@@ -831,11 +831,15 @@ func NewCustomAggregateFunc(
 func NewAggregateFunctionFromProto(
 	agg *proto.AggregateFunction, baseSchema *types.RecordType, reg ExtensionRegistry,
 ) (*AggregateFunction, error) {
-	if agg.OutputType == nil {
+	if agg.GetOutputType() == nil {
 		return nil, fmt.Errorf("%w: missing output type", substraitgo.ErrInvalidExpr)
 	}
 
-	var err error
+	outputType, err := typeFromProto(agg.OutputType)
+	if err != nil {
+		return nil, err
+	}
+
 	args := make([]types.FuncArg, len(agg.Arguments))
 	for i, a := range agg.Arguments {
 		if args[i], err = FuncArgFromProto(a, baseSchema, reg); err != nil {
@@ -856,7 +860,7 @@ func NewAggregateFunctionFromProto(
 	}
 	decl, ok := reg.LookupAggregateFunction(agg.FunctionReference)
 	if !ok {
-		return NewCustomAggregateFunc(reg, extensions.NewAggFuncVariant(id), types.TypeFromProto(agg.OutputType), agg.Options, agg.Invocation, agg.Phase, sorts, args...)
+		return NewCustomAggregateFunc(reg, extensions.NewAggFuncVariant(id), outputType, agg.Options, agg.Invocation, agg.Phase, sorts, args...)
 	}
 
 	return &AggregateFunction{
@@ -864,7 +868,7 @@ func NewAggregateFunctionFromProto(
 		declaration: decl,
 		args:        args,
 		options:     agg.Options,
-		outputType:  types.TypeFromProto(agg.OutputType),
+		outputType:  outputType,
 		phase:       agg.Phase,
 		invocation:  agg.Invocation,
 		Sorts:       sorts,
-- 
2.43.0


From 7ded57d703576f1e9d692019add8c34cca94386c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:19 +0000
Subject: [PATCH 24/69] fix: visiting window functions, in-lists and
 conditionals without default reaches every operand and survives a rewrite

---
 expr/expression.go | 31 ++++++++++++++++--------------
 expr/functions.go  | 48 ++++++++++++++++++++++++++++++----------------
 2 files changed, 48 insertions(+), 31 deletions(-)

diff --git a/expr/expression.go b/expr/expression.go
index 9992d78..552d242 100644
--- a/expr/expression.go
+++ b/expr/expression.go
@@ -615,9 +615,9 @@ func (ex *IfThen) Equals(other Expression) bool {
 	}
 
 	switch {
-	case ex.elseClause != nil && !ex.elseClause.Equals(rhs.elseClause):
+	case (ex.elseClause == nil) != (rhs.elseClause == nil):
 		return false
-	case ex.elseClause != nil && rhs.elseClause == nil:
+	case ex.elseClause != nil && !ex.elseClause.Equals(rhs.elseClause):
 		return false
 	}
 
@@ -644,7 +644,10 @@ func (ex *IfThen) Visit(visit VisitFunc) Expression {
 		}
 	}
 
-	afterElse := visit(ex.elseClause)
+	afterElse := ex.elseClause
+	if afterElse != nil {
+		afterElse = visit(ex.elseClause)
+	}
 	if out == nil {
 		if afterElse == ex.elseClause {
 			return ex
@@ -824,7 +827,7 @@ func NewSwitch(match Expression, elseClause Expression, switchCases ...struct {
 
 	return &SwitchExpr{
 		match:      match,
-		ifs:        switchCases,
+		ifs:        slices.Clone(switchCases),
 		elseClause: elseClause,
 	}, nil
 }
@@ -954,9 +957,9 @@ func (ex *SwitchExpr) Equals(other Expression) bool {
 	switch {
 	case !ex.match.Equals(rhs.match):
 		return false
-	case ex.elseClause != nil && !ex.elseClause.Equals(rhs.elseClause):
+	case (ex.elseClause == nil) != (rhs.elseClause == nil):
 		return false
-	case ex.elseClause == nil && rhs.elseClause != nil:
+	case ex.elseClause != nil && !ex.elseClause.Equals(rhs.elseClause):
 		return false
 	}
 
@@ -1004,7 +1007,11 @@ func (ex *SwitchExpr) Visit(visit VisitFunc) Expression {
 		}
 	}
 
-	afterElse := visit(ex.elseClause)
+	// the default case is optional
+	afterElse := ex.elseClause
+	if afterElse != nil {
+		afterElse = visit(ex.elseClause)
+	}
 	if out == nil {
 		if afterElse == ex.elseClause {
 			return ex
@@ -1246,8 +1253,8 @@ func (ex *MultiOrList) Visit(visit VisitFunc) Expression {
 	}
 
 	for i, opts := range ex.Options {
-		if out != nil && len(out.Options[i]) == 0 {
-			out.Options[i] = make([]Expression, len(ex.Options[i]))
+		if out != nil {
+			out.Options[i] = make([]Expression, len(opts))
 		}
 
 		for j, o := range opts {
@@ -1258,13 +1265,9 @@ func (ex *MultiOrList) Visit(visit VisitFunc) Expression {
 					Value:   slices.Clone(ex.Value),
 					Options: make([][]Expression, len(ex.Options)),
 				}
-				for k := 0; k < i; k++ {
+				for k := 0; k <= i; k++ {
 					out.Options[k] = slices.Clone(ex.Options[k])
 				}
-
-				for k := 0; k < j; k++ {
-					out.Options[i][k] = ex.Options[i][k]
-				}
 			}
 
 			if out != nil {
diff --git a/expr/functions.go b/expr/functions.go
index 36881fc..c9a937f 100644
--- a/expr/functions.go
+++ b/expr/functions.go
@@ -737,35 +737,49 @@ func (w *WindowFunction) ToProtoFuncArg() *proto.FunctionArgument {
 	}
 }
 
+// Visit presents the arguments, then the partition and the sort expressions.
 func (w *WindowFunction) Visit(visit VisitFunc) Expression {
-	var args []types.FuncArg
+	out := *w
+	changed := false
 	for i, arg := range w.args {
-		var after types.FuncArg
-		switch t := arg.(type) {
-		case Expression:
-			after = visit(t)
-		default:
-			after = arg
+		ex, ok := arg.(Expression)
+		if !ok {
+			continue
+		}
+		if after := visit(ex); after != ex {
+			if !changed {
+				out.args = slices.Clone(w.args)
+				changed = true
+			}
+			out.args[i] = after
 		}
+	}
 
-		if args == nil && arg != after {
-			args = make([]types.FuncArg, len(w.args))
-			for j := 0; j < i; j++ {
-				args[j] = w.args[j]
+	partitionsChanged := false
+	for i, part := range w.Partitions {
+		if after := visit(part); after != part {
+			if !partitionsChanged {
+				out.Partitions = slices.Clone(w.Partitions)
+				partitionsChanged = true
 			}
+			out.Partitions[i] = after
 		}
+	}
 
-		if args != nil {
-			args[i] = after
+	sortsChanged := false
+	for i, sort := range w.Sorts {
+		if after := visit(sort.Expr); after != sort.Expr {
+			if !sortsChanged {
+				out.Sorts = slices.Clone(w.Sorts)
+				sortsChanged = true
+			}
+			out.Sorts[i].Expr = after
 		}
 	}
 
-	if args == nil {
+	if !changed && !partitionsChanged && !sortsChanged {
 		return w
 	}
-
-	out := *w
-	out.args = args
 	return &out
 }
 
-- 
2.43.0


From cd98ba1bfeccefad20a50030a169f04db3817c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:41 +0000
Subject: [PATCH 25/69] fix: lambda, outer and masked references are checked
 and typed when read, incomplete references are errors

---
 expr/expression.go      |   4 +-
 expr/field_reference.go | 177 ++++++++++++++++++++++++++++++++++------
 expr/utils.go           |  27 ++++++
 plan/subquery.go        |  11 +--
 4 files changed, 185 insertions(+), 34 deletions(-)

diff --git a/expr/expression.go b/expr/expression.go
index 552d242..8797b1c 100644
--- a/expr/expression.go
+++ b/expr/expression.go
@@ -406,12 +406,12 @@ func ExprFromProto(e *proto.Expression, baseSchema *types.RecordType, reg Extens
 			return nil, fmt.Errorf("%w: lambda parameters struct must have NULLABILITY_REQUIRED", substraitgo.ErrInvalidExpr)
 		}
 
-		body, err := ExprFromProto(et.Lambda.Body, baseSchema, reg)
+		// parameter references in the body are checked and typed against the parameters in scope
+		body, err := ExprFromProto(et.Lambda.Body, baseSchema, reg.withLambdaParams(params))
 		if err != nil {
 			return nil, err
 		}
 
-		// TODO (#189): add validation and type resolution for lambda parameter references
 		return &Lambda{Parameters: params, Body: body}, nil
 	}
 	return nil, fmt.Errorf("%w: ExprFromProto: %s", substraitgo.ErrNotImplemented, e)
diff --git a/expr/field_reference.go b/expr/field_reference.go
index 362d7bd..77f3f34 100644
--- a/expr/field_reference.go
+++ b/expr/field_reference.go
@@ -10,6 +10,7 @@ import (
 	substraitgo "github.com/substrait-io/substrait-go/v8"
 	"github.com/substrait-io/substrait-go/v8/types"
 	proto "github.com/substrait-io/substrait-protobuf/go/substraitpb"
+	pb "google.golang.org/protobuf/proto"
 )
 
 // RootRefType is a marker interface for types that can be used as a Root
@@ -136,7 +137,7 @@ func (r *MapKeyRef) GetType(parentType types.Type) (types.Type, error) {
 		return nil, substraitgo.ErrInvalidType
 	}
 
-	if !r.MapKey.GetType().Equals(mt.Key) {
+	if r.MapKey == nil || mt.Key == nil || !r.MapKey.GetType().Equals(mt.Key) {
 		return nil, substraitgo.ErrInvalidType
 	}
 
@@ -342,8 +343,8 @@ func (e *MaskExpression) Select() MaskStructSelect {
 }
 
 func MaskExpressionFromProto(p *proto.Expression_MaskExpression) *MaskExpression {
-	sel := make(MaskStructSelect, len(p.Select.StructItems))
-	for i, item := range p.Select.StructItems {
+	sel := make(MaskStructSelect, len(p.GetSelect().GetStructItems()))
+	for i, item := range p.GetSelect().GetStructItems() {
 		sel[i].field = item.Field
 		if item.Child != nil {
 			sel[i].child = maskSelectFromProto(item.Child)
@@ -352,7 +353,12 @@ func MaskExpressionFromProto(p *proto.Expression_MaskExpression) *MaskExpression
 	return &MaskExpression{sel: sel, maintainSingular: p.MaintainSingularStruct}
 }
 
+// maskSelectFromProto gives nil for a missing selection.
 func maskSelectFromProto(p *proto.Expression_MaskExpression_Select) MaskSelect {
+	if p == nil {
+		return nil
+	}
+
 	switch s := p.Type.(type) {
 	case *proto.Expression_MaskExpression_Select_Struct:
 		items := make(MaskStructSelect, len(s.Struct.StructItems))
@@ -393,13 +399,78 @@ func maskSelectFromProto(p *proto.Expression_MaskExpression_Select) MaskSelect {
 		}
 		return &ret
 	}
-	panic("unimplemented mask select type")
+	return nil
 }
 
 type MaskSelect interface {
 	ToProto() *proto.Expression_MaskExpression_Select
 }
 
+func maskSelectToProto(m MaskSelect) *proto.Expression_MaskExpression_Select {
+	if m == nil {
+		return nil
+	}
+	return m.ToProto()
+}
+
+// GetType returns the type that is left of a value of the given type, or an
+// error if the mask selects something the type doesn't have.
+func (e *MaskExpression) GetType(parent types.Type) (types.Type, error) {
+	return e.maskedType(e.sel, parent)
+}
+
+func (e *MaskExpression) maskedType(sel MaskSelect, parent types.Type) (types.Type, error) {
+	switch m := sel.(type) {
+	case nil:
+		return parent, nil
+	case MaskStructSelect:
+		st, ok := parent.(*types.StructType)
+		if !ok {
+			return nil, substraitgo.ErrInvalidType
+		}
+		fields := make([]types.Type, len(m))
+		for i, item := range m {
+			if item.field < 0 || int(item.field) >= len(st.Types) {
+				return nil, substraitgo.ErrInvalidType
+			}
+			var err error
+			if fields[i], err = e.maskedType(item.child, st.Types[item.field]); err != nil {
+				return nil, err
+			}
+		}
+		if len(fields) == 1 && !e.maintainSingular {
+			return fields[0], nil
+		}
+		return &types.StructType{Nullability: st.Nullability, TypeVariationRef: st.TypeVariationRef, Types: fields}, nil
+	case *MaskListSelect:
+		lt, ok := parent.(*types.ListType)
+		if !ok {
+			return nil, substraitgo.ErrInvalidType
+		}
+		elem, err := e.maskedType(m.child, lt.Type)
+		if err != nil {
+			return nil, err
+		}
+		if len(m.selection) == 1 && !e.maintainSingular {
+			if _, ok := m.selection[0].(*MaskListElement); ok {
+				return elem, nil
+			}
+		}
+		return &types.ListType{Nullability: lt.Nullability, TypeVariationRef: lt.TypeVariationRef, Type: elem}, nil
+	case *MaskMapSelect:
+		mt, ok := parent.(*types.MapType)
+		if !ok {
+			return nil, substraitgo.ErrInvalidType
+		}
+		value, err := e.maskedType(m.child, mt.Value)
+		if err != nil {
+			return nil, err
+		}
+		return &types.MapType{Nullability: mt.Nullability, TypeVariationRef: mt.TypeVariationRef, Key: mt.Key, Value: value}, nil
+	}
+	return nil, substraitgo.ErrNotImplemented
+}
+
 type MaskStructSelect []MaskStructItem
 
 func (m MaskStructSelect) toProtoStructSelect() *proto.Expression_MaskExpression_StructSelect {
@@ -447,6 +518,10 @@ type MaskListSelect struct {
 func (m *MaskListSelect) ToProto() *proto.Expression_MaskExpression_Select {
 	selection := make([]*proto.Expression_MaskExpression_ListSelect_ListSelectItem, len(m.selection))
 	for i, s := range m.selection {
+		if s == nil {
+			selection[i] = &proto.Expression_MaskExpression_ListSelect_ListSelectItem{}
+			continue
+		}
 		selection[i] = s.ToProto()
 	}
 
@@ -454,7 +529,7 @@ func (m *MaskListSelect) ToProto() *proto.Expression_MaskExpression_Select {
 		Type: &proto.Expression_MaskExpression_Select_List{
 			List: &proto.Expression_MaskExpression_ListSelect{
 				Selection: selection,
-				Child:     m.child.ToProto(),
+				Child:     maskSelectToProto(m.child),
 			},
 		},
 	}
@@ -520,7 +595,7 @@ func (m *MaskMapSelect) Child() MaskSelect {
 func (m *MaskMapSelect) ToProto() *proto.Expression_MaskExpression_Select {
 	ret := &proto.Expression_MaskExpression_Select_Map{
 		Map: &proto.Expression_MaskExpression_MapSelect{
-			Child: m.child.ToProto(),
+			Child: maskSelectToProto(m.child),
 		},
 	}
 
@@ -637,7 +712,14 @@ func (f *FieldReference) String() string {
 	if f.knownType != nil {
 		typ = " => " + f.knownType.String()
 	}
-	return b.String() + f.Reference.(ReferenceSegment).String() + typ
+	var ref string
+	switch r := f.Reference.(type) {
+	case ReferenceSegment:
+		ref = r.String()
+	case *MaskExpression:
+		ref = ".mask"
+	}
+	return b.String() + ref + typ
 }
 
 func (f *FieldReference) ToProtoFuncArg() *proto.FunctionArgument {
@@ -695,6 +777,11 @@ func (f *FieldReference) ToProto() *proto.Expression {
 
 func (f *FieldReference) Equals(rhs Expression) bool {
 	if rhs, ok := rhs.(*FieldReference); ok {
+		// the type is not known when the reference was read without a schema
+		if f.knownType != nil && rhs.knownType != nil && !f.knownType.Equals(rhs.knownType) {
+			return false
+		}
+
 		switch root := f.Root.(type) {
 		case OuterReference:
 			rhsRoot, ok := rhs.Root.(OuterReference)
@@ -742,7 +829,7 @@ func (f *FieldReference) Equals(rhs Expression) bool {
 				return false
 			}
 
-			return ref == rhs
+			return pb.Equal(ref.ToProto(), rhs.ToProto())
 		}
 	}
 
@@ -767,40 +854,76 @@ func FieldReferenceFromProto(p *proto.Expression_FieldReference, baseSchema *typ
 		err       error
 	)
 
-	switch rt := p.RootType.(type) {
+	// rootType is the type the reference starts from. It is not known for root
+	// references when there is no schema.
+	var rootType types.Type
+	switch rt := p.GetRootType().(type) {
 	case *proto.Expression_FieldReference_Expression:
-		if root, err = ExprFromProto(rt.Expression, baseSchema, reg); err != nil {
+		rootExpr, err := ExprFromProto(rt.Expression, baseSchema, reg)
+		if err != nil {
 			return nil, err
 		}
+		root, rootType = rootExpr, rootExpr.GetType()
 	case *proto.Expression_FieldReference_OuterReference_:
-		root = OuterReference(rt.OuterReference.StepsOut)
-	case *proto.Expression_FieldReference_RootReference_:
-		root = RootReference
+		outer, err := reg.outerSchema(rt.OuterReference.GetStepsOut())
+		if err != nil {
+			return nil, err
+		}
+		root = OuterReference(rt.OuterReference.GetStepsOut())
+		if outer != nil {
+			rootType = outer.AsStructType()
+		}
 	case *proto.Expression_FieldReference_LambdaParameterReference_:
-		root = LambdaParameterReference{StepsOut: rt.LambdaParameterReference.StepsOut}
+		steps := rt.LambdaParameterReference.GetStepsOut()
+		if uint64(steps) >= uint64(len(reg.lambdaParams)) {
+			return nil, fmt.Errorf("%w: lambda parameter reference %d steps out is not inside that many lambdas",
+				substraitgo.ErrInvalidExpr, steps)
+		}
+		root = LambdaParameterReference{StepsOut: steps}
+		rootType = reg.lambdaParams[len(reg.lambdaParams)-1-int(steps)]
+	default:
+		root = RootReference
+		if baseSchema != nil {
+			rootType = baseSchema.AsStructType()
+		}
 	}
 
-	switch rt := p.ReferenceType.(type) {
+	switch rt := p.GetReferenceType().(type) {
 	case *proto.Expression_FieldReference_DirectReference:
 		refseg := RefSegmentFromProto(rt.DirectReference)
-		if root == RootReference && baseSchema != nil {
-			baseType := baseSchema.AsStructType()
-			knownType, err = refseg.GetType(baseType)
-			if err != nil {
-				return nil, err
-			}
-		} else if rootExpr, ok := root.(Expression); ok {
-			knownType, err = refseg.GetType(rootExpr.GetType())
-			if err != nil {
+		if err := validateRefSegment(refseg); err != nil {
+			return nil, err
+		}
+		if rootType != nil {
+			if knownType, err = refseg.GetType(rootType); err != nil {
 				return nil, err
 			}
 		}
-
 		ref = refseg
-
 	case *proto.Expression_FieldReference_MaskedReference:
-		ref = MaskExpressionFromProto(rt.MaskedReference)
+		mask := MaskExpressionFromProto(rt.MaskedReference)
+		if rootType != nil {
+			if knownType, err = mask.GetType(rootType); err != nil {
+				return nil, err
+			}
+		}
+		ref = mask
+	default:
+		return nil, fmt.Errorf("%w: field reference without a reference", substraitgo.ErrInvalidExpr)
 	}
 
 	return &FieldReference{Root: root, Reference: ref, knownType: knownType}, nil
 }
+
+// validateRefSegment checks that a path read from a message is complete.
+func validateRefSegment(seg ReferenceSegment) error {
+	if seg == nil {
+		return fmt.Errorf("%w: incomplete reference segment", substraitgo.ErrInvalidExpr)
+	}
+	for ; seg != nil; seg = seg.GetChild() {
+		if key, ok := seg.(*MapKeyRef); ok && key.MapKey == nil {
+			return fmt.Errorf("%w: map key reference without a valid key", substraitgo.ErrInvalidExpr)
+		}
+	}
+	return nil
+}
diff --git a/expr/utils.go b/expr/utils.go
index 69ca42b..1f2e94e 100644
--- a/expr/utils.go
+++ b/expr/utils.go
@@ -4,7 +4,9 @@ package expr
 
 import (
 	"fmt"
+	"slices"
 
+	substraitgo "github.com/substrait-io/substrait-go/v8"
 	"github.com/substrait-io/substrait-go/v8/extensions"
 	"github.com/substrait-io/substrait-go/v8/types"
 	proto "github.com/substrait-io/substrait-protobuf/go/substraitpb"
@@ -38,6 +40,31 @@ type ExtensionRegistry struct {
 
 	// extensionRelDecoders maps type URLs to decoders for extension relation details.
 	extensionRelDecoders map[string]ExtensionRelDecoder
+
+	// lambdaParams and outerSchemas are what lambda parameter references and
+	// outer references refer to while an expression is being read, innermost last.
+	lambdaParams []*types.StructType
+	outerSchemas []*types.RecordType
+}
+
+// WithOuterSchema returns the registry to read the relations of a subquery with:
+// outer references one step out refer to the given schema.
+func (e ExtensionRegistry) WithOuterSchema(schema *types.RecordType) ExtensionRegistry {
+	e.outerSchemas = append(slices.Clip(e.outerSchemas), schema)
+	return e
+}
+
+func (e ExtensionRegistry) withLambdaParams(params *types.StructType) ExtensionRegistry {
+	e.lambdaParams = append(slices.Clip(e.lambdaParams), params)
+	return e
+}
+
+func (e ExtensionRegistry) outerSchema(stepsOut uint32) (*types.RecordType, error) {
+	if stepsOut == 0 || uint64(stepsOut) > uint64(len(e.outerSchemas)) {
+		return nil, fmt.Errorf("%w: outer reference %d steps out is not inside that many subqueries",
+			substraitgo.ErrInvalidExpr, stepsOut)
+	}
+	return e.outerSchemas[len(e.outerSchemas)-int(stepsOut)], nil
 }
 
 // subqueryConverter converts subqueries and the Relations within from the native
diff --git a/plan/subquery.go b/plan/subquery.go
index 02516ec..37c533a 100644
--- a/plan/subquery.go
+++ b/plan/subquery.go
@@ -21,9 +21,10 @@ type ExpressionConverter struct {
 
 // SubqueryFromProto creates a subquery expression from a protobuf message
 func (r *ExpressionConverter) SubqueryFromProto(sub *proto.Expression_Subquery, baseSchema *types.RecordType, reg expr.ExtensionRegistry) (expr.Expression, error) {
-	switch subType := sub.SubqueryType.(type) {
+	inner := reg.WithOuterSchema(baseSchema)
+	switch subType := sub.GetSubqueryType().(type) {
 	case *proto.Expression_Subquery_Scalar_:
-		rel, err := RelFromProto(subType.Scalar.Input, reg)
+		rel, err := RelFromProto(subType.Scalar.Input, inner)
 		if err != nil {
 			return nil, err
 		}
@@ -39,7 +40,7 @@ func (r *ExpressionConverter) SubqueryFromProto(sub *proto.Expression_Subquery,
 			needles[i] = expr
 		}
 
-		rel, err := RelFromProto(subType.InPredicate.Haystack, reg)
+		rel, err := RelFromProto(subType.InPredicate.Haystack, inner)
 		if err != nil {
 			return nil, err
 		}
@@ -47,7 +48,7 @@ func (r *ExpressionConverter) SubqueryFromProto(sub *proto.Expression_Subquery,
 		return NewInPredicateSubquery(needles, rel), nil
 
 	case *proto.Expression_Subquery_SetPredicate_:
-		tuples, err := RelFromProto(subType.SetPredicate.Tuples, reg)
+		tuples, err := RelFromProto(subType.SetPredicate.Tuples, inner)
 		if err != nil {
 			return nil, fmt.Errorf("error parsing tuples in set predicate: %w", err)
 		}
@@ -58,7 +59,7 @@ func (r *ExpressionConverter) SubqueryFromProto(sub *proto.Expression_Subquery,
 			return nil, fmt.Errorf("error parsing left expression in set comparison: %w", err)
 		}
 
-		right, err := RelFromProto(subType.SetComparison.Right, reg)
+		right, err := RelFromProto(subType.SetComparison.Right, inner)
 		if err != nil {
 			return nil, fmt.Errorf("error parsing right relation in set comparison: %w", err)
 		}
-- 
2.43.0


From 86d6a6a5b706e123dc758818036480ec934d9825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:14 +0000
Subject: [PATCH 26/69] fix: building expressions from incomplete or ill-typed
 parts is an error, lambda bodies are checked however they were built

---
 expr/builder.go    | 107 +++++++++++++++++++++++++++++++++++----------
 expr/expression.go |  28 ++++++++++++
 expr/functions.go  |  22 +++++++++-
 3 files changed, 132 insertions(+), 25 deletions(-)

diff --git a/expr/builder.go b/expr/builder.go
index 14b515e..ee56963 100644
--- a/expr/builder.go
+++ b/expr/builder.go
@@ -8,6 +8,7 @@ package expr
 
 import (
 	"fmt"
+	"slices"
 
 	substraitgo "github.com/substrait-io/substrait-go/v8"
 	"github.com/substrait-io/substrait-go/v8/extensions"
@@ -242,19 +243,58 @@ func (lb *lambdaBuilder) Build() (*Lambda, error) {
 	// This allows nested lambdas to validate stepsOut references against
 	// outer lambda parameters.
 	lb.b.pushLambdaContext(lb.params)
-
-	bodyExpr, err := lb.body.BuildExpr()
-
 	// Pop our params from context stack (always, even on error)
-	lb.b.popLambdaContext()
+	defer lb.b.popLambdaContext()
 
+	bodyExpr, err := lb.body.BuildExpr()
 	if err != nil {
 		return nil, fmt.Errorf("failed to build lambda body: %w", err)
 	}
 
+	// The body may also contain references that were not built here.
+	if err := validateLambdaRefs(bodyExpr, lb.b.lambdaContext); err != nil {
+		return nil, fmt.Errorf("failed to build lambda body: %w", err)
+	}
+
 	return &Lambda{Parameters: lb.params, Body: bodyExpr}, nil
 }
 
+// validateLambdaRefs checks that the lambda parameter references in ex are to
+// parameters of the given lambdas (innermost last), with the type they have there.
+func validateLambdaRefs(ex Expression, lambdas []*types.StructType) (err error) {
+	if ref, ok := ex.(*FieldReference); ok {
+		switch root := ref.Root.(type) {
+		case Expression:
+			return validateLambdaRefs(root, lambdas)
+		case LambdaParameterReference:
+			seg, ok := ref.Reference.(ReferenceSegment)
+			if !ok {
+				return nil
+			}
+			if uint64(root.StepsOut) >= uint64(len(lambdas)) {
+				return fmt.Errorf("%w: lambda parameter reference with stepsOut %d references non-existent outer lambda",
+					substraitgo.ErrInvalidExpr, root.StepsOut)
+			}
+			typ, err := seg.GetType(lambdas[len(lambdas)-1-int(root.StepsOut)])
+			if err != nil || ref.knownType != nil && !ref.knownType.Equals(typ) {
+				return fmt.Errorf("%w: reference %s does not fit the parameters of the lambda it is used in",
+					substraitgo.ErrInvalidExpr, ref)
+			}
+		}
+		return nil
+	}
+	if inner, ok := ex.(*Lambda); ok {
+		lambdas = append(slices.Clip(lambdas), inner.Parameters)
+	}
+	ex.Visit(func(child Expression) Expression {
+		if err == nil {
+			err = validateLambdaRefs(child, lambdas)
+		}
+		return child
+	})
+	return err
+}
+
 // BuildExpr implements the Builder interface.
 func (lb *lambdaBuilder) BuildExpr() (Expression, error) {
 	return lb.Build()
@@ -271,8 +311,27 @@ type exprWrapper struct {
 	err        error
 }
 
-func (e exprWrapper) BuildFuncArg() (types.FuncArg, error) { return e.expression, e.err }
-func (e exprWrapper) BuildExpr() (Expression, error)       { return e.expression, e.err }
+func (e exprWrapper) BuildFuncArg() (types.FuncArg, error) { return e.BuildExpr() }
+func (e exprWrapper) BuildExpr() (Expression, error) {
+	if e.err == nil && e.expression == nil {
+		return nil, fmt.Errorf("%w: nil expression", substraitgo.ErrInvalidExpr)
+	}
+	return e.expression, e.err
+}
+
+func buildFuncArgs(builders []FuncArgBuilder) ([]types.FuncArg, error) {
+	args := make([]types.FuncArg, len(builders))
+	for i, b := range builders {
+		if b == nil {
+			return nil, fmt.Errorf("%w: nil function argument", substraitgo.ErrInvalidExpr)
+		}
+		var err error
+		if args[i], err = b.BuildFuncArg(); err != nil {
+			return nil, err
+		}
+	}
+	return args, nil
+}
 
 type enumWrapper string
 
@@ -291,6 +350,9 @@ type castBuilder struct {
 func (cb *castBuilder) BuildExpr() (Expression, error)       { return cb.Build() }
 func (cb *castBuilder) BuildFuncArg() (types.FuncArg, error) { return cb.Build() }
 func (cb *castBuilder) Build() (*Cast, error) {
+	if cb.toType == nil || cb.input == nil {
+		return nil, fmt.Errorf("%w: cast must have an input and a type", substraitgo.ErrInvalidExpr)
+	}
 	in, err := cb.input.BuildExpr()
 	if err != nil {
 		return nil, err
@@ -337,12 +399,9 @@ type scalarFuncBuilder struct {
 }
 
 func (sb *scalarFuncBuilder) Build() (*ScalarFunction, error) {
-	var err error
-	args := make([]types.FuncArg, len(sb.args))
-	for i, a := range sb.args {
-		if args[i], err = a.BuildFuncArg(); err != nil {
-			return nil, err
-		}
+	args, err := buildFuncArgs(sb.args)
+	if err != nil {
+		return nil, err
 	}
 
 	return NewScalarFunc(sb.b.Reg, sb.id, sb.opts, args...)
@@ -380,16 +439,16 @@ type windowFuncBuilder struct {
 }
 
 func (wb *windowFuncBuilder) Build() (*WindowFunction, error) {
-	var err error
-	args := make([]types.FuncArg, len(wb.args))
-	for i, a := range wb.args {
-		if args[i], err = a.BuildFuncArg(); err != nil {
-			return nil, err
-		}
+	args, err := buildFuncArgs(wb.args)
+	if err != nil {
+		return nil, err
 	}
 
 	parts := make([]Expression, len(wb.partitions))
 	for i, p := range wb.partitions {
+		if p == nil {
+			return nil, fmt.Errorf("%w: nil partition expression", substraitgo.ErrInvalidExpr)
+		}
 		if parts[i], err = p.BuildExpr(); err != nil {
 			return nil, err
 		}
@@ -403,6 +462,9 @@ func (wb *windowFuncBuilder) Build() (*WindowFunction, error) {
 	wf.Sorts, wf.BoundsType, wf.LowerBound, wf.UpperBound = wb.sortList, wb.boundsType, wb.lowerBound, wb.upperBound
 	wf.Partitions = parts
 
+	if err := validateSorts(wf.Sorts); err != nil {
+		return nil, err
+	}
 	if err := wf.validate(); err != nil {
 		return nil, err
 	}
@@ -480,12 +542,9 @@ type aggregateFuncBuilder struct {
 }
 
 func (ab *aggregateFuncBuilder) Build() (*AggregateFunction, error) {
-	var err error
-	args := make([]types.FuncArg, len(ab.args))
-	for i, a := range ab.args {
-		if args[i], err = a.BuildFuncArg(); err != nil {
-			return nil, err
-		}
+	args, err := buildFuncArgs(ab.args)
+	if err != nil {
+		return nil, err
 	}
 
 	return NewAggregateFunc(ab.b.Reg, ab.id, ab.opts, ab.invocation, ab.phase, ab.sortList, args...)
diff --git a/expr/expression.go b/expr/expression.go
index 8797b1c..4b8e602 100644
--- a/expr/expression.go
+++ b/expr/expression.go
@@ -506,10 +506,23 @@ func NewIfThen(firstIf IfThenPair, elseClause Expression, elsifs ...IfThenPair)
 	}
 
 	outputType := elseClause.GetType()
+	if outputType == nil {
+		return nil, fmt.Errorf("%w: the type of the else expression is not known", substraitgo.ErrInvalidExpr)
+	}
 	if firstIf.If == nil {
 		return nil, fmt.Errorf("%w: cannot have nil If expression", substraitgo.ErrInvalidExpr)
 	}
 
+	for _, ifthen := range append([]IfThenPair{firstIf}, elsifs...) {
+		if ifthen.If == nil {
+			continue
+		}
+		if _, ok := ifthen.If.GetType().(*types.BooleanType); !ok {
+			return nil, fmt.Errorf("%w: If condition must be boolean, got %s",
+				substraitgo.ErrInvalidExpr, ifthen.If.GetType())
+		}
+	}
+
 	if firstIf.Then == nil || !outputType.Equals(firstIf.Then.GetType()) {
 		return nil, fmt.Errorf("%w: type mismatch in If creation, expected %s",
 			substraitgo.ErrInvalidExpr, outputType)
@@ -793,6 +806,21 @@ func NewSwitch(match Expression, elseClause Expression, switchCases ...struct {
 		return nil, fmt.Errorf("%w: cannot construct Switch with nil match", substraitgo.ErrInvalidExpr)
 	}
 
+	results := []Expression{match}
+	if elseClause != nil {
+		results = append(results, elseClause)
+	}
+	for _, c := range switchCases {
+		if c.Then != nil {
+			results = append(results, c.Then)
+		}
+	}
+	for _, e := range results {
+		if e.GetType() == nil {
+			return nil, fmt.Errorf("%w: the type of %s is not known", substraitgo.ErrInvalidExpr, e)
+		}
+	}
+
 	// we don't care about the nullability for this comparison
 	matchType := match.GetType().WithNullability(types.NullabilityUnspecified)
 	if len(switchCases) == 0 {
diff --git a/expr/functions.go b/expr/functions.go
index c9a937f..c37c032 100644
--- a/expr/functions.go
+++ b/expr/functions.go
@@ -77,6 +77,15 @@ func (s *SortField) ToProto() *proto.SortField {
 	return ret
 }
 
+func validateSorts(sorts []SortField) error {
+	for i, s := range sorts {
+		if s.Expr == nil || s.Kind == nil {
+			return fmt.Errorf("%w: sort field %d must have an expression and a kind", substraitgo.ErrInvalidExpr, i)
+		}
+	}
+	return nil
+}
+
 func SortFieldFromProto(
 	f *proto.SortField, baseSchema *types.RecordType, reg ExtensionRegistry,
 ) (sf SortField, err error) {
@@ -219,7 +228,15 @@ func resolveVariant[T variant](
 		case types.Enum:
 			argTypes = append(argTypes, types.CommonEnumType)
 		case Expression:
-			argTypes = append(argTypes, a.GetType())
+			typ := a.GetType()
+			if typ == nil {
+				return nil, nil, fmt.Errorf("%w: the type of function argument %s is not known", substraitgo.ErrInvalidExpr, a)
+			}
+			argTypes = append(argTypes, typ)
+		case nil:
+			return nil, nil, fmt.Errorf("%w: nil function argument", substraitgo.ErrInvalidExpr)
+		default:
+			return nil, nil, fmt.Errorf("%w: function argument %s", substraitgo.ErrNotImplemented, a)
 		}
 	}
 
@@ -804,6 +821,9 @@ func NewAggregateFunc(
 	if err != nil {
 		return nil, err
 	}
+	if err := validateSorts(sorts); err != nil {
+		return nil, err
+	}
 
 	// We use the fully qualified ID for resolving an anchor, to make sure we
 	// are using the correct compound name
-- 
2.43.0


From c4a0adc1687eb94450eb53e9fd40d48bcfe44fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:01 +0000
Subject: [PATCH 27/69] fix: schemas with malformed types or miscounted names,
 scalar subqueries without one column and empty expression references are
 errors

---
 expr/expression.go | 17 ++++++++++++++++-
 plan/relations.go  |  3 +++
 plan/subquery.go   |  6 ++++++
 types/types.go     | 16 ++++++++++++++++
 4 files changed, 41 insertions(+), 1 deletion(-)

diff --git a/expr/expression.go b/expr/expression.go
index 4b8e602..7d080b5 100644
--- a/expr/expression.go
+++ b/expr/expression.go
@@ -1750,6 +1750,9 @@ func ExtendedFromProto(ex *proto.ExtendedExpression, c *extensions.Collection) (
 		reg  = NewExtensionRegistry(extSet, c)
 		refs = make([]ExpressionReference, len(ex.ReferredExpr))
 	)
+	if err := base.Validate(); err != nil {
+		return nil, err
+	}
 
 	for i, r := range ex.ReferredExpr {
 		refs[i].OutputNames = r.OutputNames
@@ -1768,6 +1771,9 @@ func ExtendedFromProto(ex *proto.ExtendedExpression, c *extensions.Collection) (
 				return nil, err
 			}
 			refs[i].SetMeasure(agg)
+		default:
+			return nil, fmt.Errorf("%w: referred expression %d has neither an expression nor a measure",
+				substraitgo.ErrInvalidExpr, i)
 		}
 	}
 
@@ -1783,7 +1789,16 @@ func ExtendedFromProto(ex *proto.ExtendedExpression, c *extensions.Collection) (
 }
 
 func (ex *Extended) ToProto() *proto.ExtendedExpression {
-	urns, decls := ex.reg.ExtensionsToProto()
+	reg := ex.reg
+	if reg.Set == nil {
+		// not made by ExtendedFromProto
+		set := ex.Extensions
+		if set == nil {
+			set = extensions.NewSet()
+		}
+		reg = NewExtensionRegistry(set, extensions.GetDefaultCollectionWithNoError())
+	}
+	urns, decls := reg.ExtensionsToProto()
 	refs := make([]*proto.ExpressionReference, len(ex.ReferredExpr))
 	for i, ref := range ex.ReferredExpr {
 		refs[i] = ref.ToProto()
diff --git a/plan/relations.go b/plan/relations.go
index 4f501c6..427e521 100644
--- a/plan/relations.go
+++ b/plan/relations.go
@@ -68,6 +68,9 @@ func (b *baseReadRel) fromProtoReadRel(rel *proto.ReadRel, reg expr.ExtensionReg
 	}
 
 	b.baseSchema = types.NewNamedStructFromProto(rel.BaseSchema)
+	if err := b.baseSchema.Validate(); err != nil {
+		return err
+	}
 	var err error
 	if rel.Filter != nil {
 		b.filter, err = expr.ExprFromProto(rel.Filter, types.NewRecordTypeFromStruct(b.baseSchema.Struct), reg)
diff --git a/plan/subquery.go b/plan/subquery.go
index 37c533a..a4525f0 100644
--- a/plan/subquery.go
+++ b/plan/subquery.go
@@ -28,6 +28,12 @@ func (r *ExpressionConverter) SubqueryFromProto(sub *proto.Expression_Subquery,
 		if err != nil {
 			return nil, err
 		}
+		if isRecordTypeSupported(rel) {
+			if schema := rel.RecordType(); len(schema.Types()) != 1 {
+				return nil, fmt.Errorf("%w: a scalar subquery must return exactly one column, found %d",
+					substraitgo.ErrInvalidRel, len(schema.Types()))
+			}
+		}
 		return NewScalarSubquery(rel), nil
 
 	case *proto.Expression_Subquery_InPredicate_:
diff --git a/types/types.go b/types/types.go
index d5887d9..5c2516b 100644
--- a/types/types.go
+++ b/types/types.go
@@ -1748,6 +1748,22 @@ func NewNamedStructFromProto(n *proto.NamedStruct) NamedStruct {
 	}
 }
 
+// Validate reports a schema that does not describe columns: one with a type
+// missing or malformed, or without exactly one name per field, in depth-first
+// order.
+func (n NamedStruct) Validate() error {
+	for i, t := range n.Struct.Types {
+		if t == nil {
+			return fmt.Errorf("%w: schema has no valid type for column %d", substraitgo.ErrInvalidType, i)
+		}
+	}
+	if expected := n.Struct.DepthFirstNameCount(); expected != len(n.Names) {
+		return fmt.Errorf("%w: schema has %d name(s) but requires %d",
+			substraitgo.ErrInvalidType, len(n.Names), expected)
+	}
+	return nil
+}
+
 func (n NamedStruct) ToProto() *proto.NamedStruct {
 	return &proto.NamedStruct{
 		Names:  n.Names,
-- 
2.43.0


From 58c4ebee6a3e98f08009297a97668aa82f62a1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:58 +0000
Subject: [PATCH 28/69] fix: calls of functions with abbreviated or unknown
 signatures can be read and keep their name

---
 extensions/variants.go | 60 ++++++++++++++++++++++++++++++++----------
 1 file changed, 46 insertions(+), 14 deletions(-)

diff --git a/extensions/variants.go b/extensions/variants.go
index 196037c..8774890 100644
--- a/extensions/variants.go
+++ b/extensions/variants.go
@@ -317,6 +317,16 @@ func getFuncDefFromArgList(paramTypeList FuncParameterList) ([]types.FuncDefArgT
 	return out, nil
 }
 
+// shortToTypeName are the type names that compound function names abbreviate.
+var shortToTypeName = map[string]string{
+	"bool":  "boolean",
+	"str":   "string",
+	"vbin":  "binary",
+	"ts":    "timestamp",
+	"tstz":  "timestamp_tz",
+	"iyear": "interval_year",
+}
+
 func parseFuncName(compoundName string) (name string, args FuncParameterList) {
 	name, argsStr, _ := strings.Cut(compoundName, ":")
 	if len(argsStr) == 0 {
@@ -324,9 +334,13 @@ func parseFuncName(compoundName string) (name string, args FuncParameterList) {
 	}
 	splitArgs := strings.Split(argsStr, "_")
 	for _, argStr := range splitArgs {
+		if full, ok := shortToTypeName[argStr]; ok {
+			argStr = full
+		}
 		parsed, err := parser.ParseType(argStr)
 		if err != nil {
-			panic(err)
+			// the short name does not say the whole type, or there is no such type
+			return name, nil
 		}
 		exp := ValueArg{Name: name, Value: &parser.TypeExpression{ValueType: parsed}}
 		args = append(args, exp)
@@ -358,9 +372,10 @@ func maxArgumentCount(paramTypeList FuncParameterList, variadicBehavior *Variadi
 func NewScalarFuncVariant(id FunctionID) *ScalarFunctionVariant {
 	simpleName, args := parseFuncName(id.Name)
 	return &ScalarFunctionVariant{
-		name: simpleName,
-		urn:  id.URN,
-		impl: ScalarFunctionImpl{Args: args},
+		name:      simpleName,
+		givenName: id.Name,
+		urn:       id.URN,
+		impl:      ScalarFunctionImpl{Args: args},
 	}
 }
 
@@ -370,8 +385,9 @@ func NewScalarFuncVariant(id FunctionID) *ScalarFunctionVariant {
 func NewScalarFuncVariantWithProps(id FunctionID, variadic *VariadicBehavior, sessionDependant, deterministic bool) *ScalarFunctionVariant {
 	simpleName, args := parseFuncName(id.Name)
 	return &ScalarFunctionVariant{
-		name: simpleName,
-		urn:  id.URN,
+		name:      simpleName,
+		givenName: id.Name,
+		urn:       id.URN,
 		impl: ScalarFunctionImpl{
 			Args:             args,
 			Variadic:         variadic,
@@ -383,6 +399,7 @@ func NewScalarFuncVariantWithProps(id FunctionID, variadic *VariadicBehavior, se
 
 type ScalarFunctionVariant struct {
 	name        string
+	givenName   string // of a variant made on the fly, the compound name it was made with
 	description string
 	urn         string
 	impl        ScalarFunctionImpl
@@ -403,6 +420,9 @@ func (s *ScalarFunctionVariant) ResolveType(argumentTypes []types.Type, registry
 	return EvaluateTypeExpression(s.urn, s.impl.Nullability, s.impl.returnType(), s.impl.Args, s.impl.Variadic, argumentTypes, registry)
 }
 func (s *ScalarFunctionVariant) CompoundName() string {
+	if s.givenName != "" {
+		return s.givenName
+	}
 	return s.name + ":" + s.impl.signatureKey()
 }
 func (s *ScalarFunctionVariant) ID() FunctionID {
@@ -434,8 +454,9 @@ func (s *ScalarFunctionVariant) MaxArgumentCount() int {
 func NewAggFuncVariant(id FunctionID) *AggregateFunctionVariant {
 	simpleName, args := parseFuncName(id.Name)
 	return &AggregateFunctionVariant{
-		name: simpleName,
-		urn:  id.URN,
+		name:      simpleName,
+		givenName: id.Name,
+		urn:       id.URN,
 		impl: AggregateFunctionImpl{
 			ScalarFunctionImpl: ScalarFunctionImpl{
 				Args: args,
@@ -478,8 +499,9 @@ func NewAggFuncVariantOpts(id FunctionID, opts AggVariantOptions) *AggregateFunc
 
 	simpleName, args := parseFuncName(id.Name)
 	return &AggregateFunctionVariant{
-		name: simpleName,
-		urn:  id.URN,
+		name:      simpleName,
+		givenName: id.Name,
+		urn:       id.URN,
 		impl: AggregateFunctionImpl{
 			ScalarFunctionImpl: ScalarFunctionImpl{
 				Args:             args,
@@ -497,6 +519,7 @@ func NewAggFuncVariantOpts(id FunctionID, opts AggVariantOptions) *AggregateFunc
 
 type AggregateFunctionVariant struct {
 	name        string
+	givenName   string // of a variant made on the fly, the compound name it was made with
 	description string
 	urn         string
 	impl        AggregateFunctionImpl
@@ -517,6 +540,9 @@ func (s *AggregateFunctionVariant) ResolveType(argumentTypes []types.Type, regis
 	return EvaluateTypeExpression(s.urn, s.impl.Nullability, s.impl.returnType(), s.impl.Args, s.impl.Variadic, argumentTypes, registry)
 }
 func (s *AggregateFunctionVariant) CompoundName() string {
+	if s.givenName != "" {
+		return s.givenName
+	}
 	return s.name + ":" + s.impl.signatureKey()
 }
 func (s *AggregateFunctionVariant) ID() FunctionID {
@@ -547,6 +573,7 @@ func (s *AggregateFunctionVariant) MaxArgumentCount() int {
 
 type WindowFunctionVariant struct {
 	name        string
+	givenName   string // of a variant made on the fly, the compound name it was made with
 	description string
 	urn         string
 	impl        WindowFunctionImpl
@@ -556,8 +583,9 @@ type WindowFunctionVariant struct {
 func NewWindowFuncVariant(id FunctionID) *WindowFunctionVariant {
 	simpleName, args := parseFuncName(id.Name)
 	return &WindowFunctionVariant{
-		name: simpleName,
-		urn:  id.URN,
+		name:      simpleName,
+		givenName: id.Name,
+		urn:       id.URN,
 		impl: WindowFunctionImpl{
 			AggregateFunctionImpl: AggregateFunctionImpl{
 				ScalarFunctionImpl: ScalarFunctionImpl{Args: args},
@@ -605,8 +633,9 @@ func NewWindowFuncVariantOpts(id FunctionID, opts WindowVariantOpts) *WindowFunc
 
 	simpleName, args := parseFuncName(id.Name)
 	return &WindowFunctionVariant{
-		name: simpleName,
-		urn:  id.URN,
+		name:      simpleName,
+		givenName: id.Name,
+		urn:       id.URN,
 		impl: WindowFunctionImpl{
 			AggregateFunctionImpl: AggregateFunctionImpl{
 				ScalarFunctionImpl: ScalarFunctionImpl{
@@ -639,6 +668,9 @@ func (s *WindowFunctionVariant) ResolveType(argumentTypes []types.Type, registry
 	return EvaluateTypeExpression(s.urn, s.impl.Nullability, s.impl.returnType(), s.impl.Args, s.impl.Variadic, argumentTypes, registry)
 }
 func (s *WindowFunctionVariant) CompoundName() string {
+	if s.givenName != "" {
+		return s.givenName
+	}
 	return s.name + ":" + s.impl.signatureKey()
 }
 func (s *WindowFunctionVariant) ID() FunctionID {
-- 
2.43.0


From 00b9fd43ca766f495d90e09cc3c227e8c36adf20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:58 +0000
Subject: [PATCH 29/69] fix: the type of a switch over untyped references is
 unknown, not a panic

---
 expr/expression.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/expr/expression.go b/expr/expression.go
index 7d080b5..1bb2e0a 100644
--- a/expr/expression.go
+++ b/expr/expression.go
@@ -927,7 +927,10 @@ func (ex *SwitchExpr) IsScalar() bool {
 func (ex *SwitchExpr) GetType() types.Type {
 	var t types.Type
 	for _, cond := range ex.ifs {
-		t = cond.Then.GetType()
+		// not known for references that were read without a schema
+		if t = cond.Then.GetType(); t == nil {
+			return nil
+		}
 		// check if any of the branches return a nullable type
 		// only return a non-nullable if *all* branches return
 		// non-nullable
-- 
2.43.0


From bb41937272f71ae03ad32f978e16f6c3064a0b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:23 +0000
Subject: [PATCH 30/69] fix: an empty emit mapping is kept, mappings outside
 the columns and incomplete relation messages are errors

---
 plan/common.go          |  26 +++-
 plan/internal/helper.go |   8 +-
 plan/plan.go            | 283 ++++++++++++++++++++++------------------
 plan/relations.go       |  28 ++--
 plan/subquery.go        |   8 +-
 5 files changed, 201 insertions(+), 152 deletions(-)

diff --git a/plan/common.go b/plan/common.go
index 6890c0d..49d2f99 100644
--- a/plan/common.go
+++ b/plan/common.go
@@ -132,16 +132,36 @@ type RelCommon struct {
 }
 
 func (rc *RelCommon) fromProtoCommon(c *proto.RelCommon) {
-	rc.hint = c.Hint
-	rc.advExtension = c.AdvancedExtension
+	rc.hint = c.GetHint()
+	rc.advExtension = c.GetAdvancedExtension()
 
 	if emit, ok := c.GetEmitKind().(*proto.RelCommon_Emit_); ok {
-		rc.mapping = emit.Emit.OutputMapping
+		rc.mapping = emit.Emit.GetOutputMapping()
+		if rc.mapping == nil {
+			// an emit without columns outputs no columns; a nil mapping
+			// would be a direct output
+			rc.mapping = []int32{}
+		}
 	} else {
 		rc.mapping = nil
 	}
 }
 
+// checkMapping checks that an output mapping only selects columns which the
+// relation has.
+func checkMapping(rel Rel) error {
+	if rel.OutputMapping() == nil {
+		return nil
+	}
+	columns := rel.directOutputSchema().FieldCount()
+	for _, m := range rel.OutputMapping() {
+		if m < 0 || m >= columns {
+			return errOutputMappingOutOfRange
+		}
+	}
+	return nil
+}
+
 func (rc *RelCommon) remap(initial types.RecordType) types.RecordType {
 	if rc.mapping == nil {
 		return initial
diff --git a/plan/internal/helper.go b/plan/internal/helper.go
index 0bd8d66..e3d9137 100644
--- a/plan/internal/helper.go
+++ b/plan/internal/helper.go
@@ -9,8 +9,8 @@ import (
 )
 
 func VirtualTableExpressionFromProto(s *proto.Expression_Nested_Struct, reg expr.ExtensionRegistry) (expr.VirtualTableExpressionValue, error) {
-	fields := make(expr.VirtualTableExpressionValue, len(s.Fields))
-	for i, f := range s.Fields {
+	fields := make(expr.VirtualTableExpressionValue, len(s.GetFields()))
+	for i, f := range s.GetFields() {
 		val, err := expr.ExprFromProto(f, nil, reg)
 		if err != nil {
 			return nil, err
@@ -21,8 +21,8 @@ func VirtualTableExpressionFromProto(s *proto.Expression_Nested_Struct, reg expr
 }
 
 func VirtualTableExprFromLiteralProto(s *proto.Expression_Literal_Struct) (expr.VirtualTableExpressionValue, error) {
-	fields := make(expr.VirtualTableExpressionValue, len(s.Fields))
-	for i, f := range s.Fields {
+	fields := make(expr.VirtualTableExpressionValue, len(s.GetFields()))
+	for i, f := range s.GetFields() {
 		lit := expr.LiteralFromProto(f)
 		if lit == nil {
 			return nil, fmt.Errorf("%w: invalid literal in virtual table", substraitgo.ErrInvalidExpr)
diff --git a/plan/plan.go b/plan/plan.go
index a0da394..18afe3d 100644
--- a/plan/plan.go
+++ b/plan/plan.go
@@ -87,7 +87,7 @@ type Relation struct {
 func (r *Relation) FromProto(p *proto.PlanRel, reg expr.ExtensionRegistry) error {
 	r.root, r.rel = nil, nil
 
-	switch rel := p.RelType.(type) {
+	switch rel := p.GetRelType().(type) {
 	case *proto.PlanRel_Rel:
 		input, err := RelFromProto(rel.Rel, reg)
 		if err != nil {
@@ -97,12 +97,12 @@ func (r *Relation) FromProto(p *proto.PlanRel, reg expr.ExtensionRegistry) error
 		r.rel = input
 		return nil
 	case *proto.PlanRel_Root:
-		input, err := RelFromProto(rel.Root.Input, reg)
+		input, err := RelFromProto(rel.Root.GetInput(), reg)
 		if err != nil {
 			return err
 		}
 
-		names := rel.Root.Names
+		names := rel.Root.GetNames()
 		if isRecordTypeSupported(input) {
 			if err := validateRootNamesForSchema(input.RecordType(), names); err != nil {
 				return err
@@ -322,20 +322,29 @@ func validateRootNamesForSchema(recordType types.RecordType, names []string) err
 // have incomplete implementations that panic or guess.
 // TODO(#210): remove this once RecordType() is fixed for all relation types.
 func isRecordTypeSupported(rel Rel) bool {
+	if isUndecodedExtension(rel) {
+		return false
+	}
+	if _, ok := rel.(*NamedTableWriteRel); ok {
+		return false // TODO(#210): panics when outputMode is unspecified
+	}
+	return true
+}
+
+// isUndecodedExtension reports whether the relation is an extension relation
+// of which the definition, and with it the columns, is not known.
+func isUndecodedExtension(rel Rel) bool {
+	var definition ExtensionRelDefinition
 	switch r := rel.(type) {
 	case *ExtensionSingleRel:
-		_, undecoded := r.Definition().(*UndecodedExtension)
-		return !undecoded
+		definition = r.Definition()
 	case *ExtensionLeafRel:
-		_, undecoded := r.Definition().(*UndecodedExtension)
-		return !undecoded
+		definition = r.Definition()
 	case *ExtensionMultiRel:
-		_, undecoded := r.Definition().(*UndecodedExtension)
-		return !undecoded
-	case *NamedTableWriteRel:
-		return false // TODO(#210): panics when outputMode is unspecified
+		definition = r.Definition()
 	}
-	return true
+	_, undecoded := definition.(*UndecodedExtension)
+	return undecoded
 }
 
 // Root is a relation with output field names.
@@ -451,40 +460,70 @@ func decodeExtensionDef(reg expr.ExtensionRegistry, detail *anypb.Any) (Extensio
 	return &UndecodedExtension{detail: detail}, nil
 }
 
+// RelFromProto constructs a relation from its message. An error is returned
+// if the relation is not valid or not supported.
 func RelFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
-	switch rel := rel.RelType.(type) {
+	out, err := relFromProto(rel, reg)
+	if err != nil {
+		return nil, err
+	}
+	if isUndecodedExtension(out) {
+		// the columns of the relation are not known
+		return out, nil
+	}
+	if err := checkMapping(out); err != nil {
+		return nil, err
+	}
+	return out, nil
+}
+
+// inputFromProto constructs a relation which is the input of another one and
+// thus needs to have known columns.
+func inputFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
+	out, err := RelFromProto(rel, reg)
+	if err != nil {
+		return nil, err
+	}
+	if err := checkMapping(out); err != nil {
+		return nil, err
+	}
+	return out, nil
+}
+
+func relFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
+	switch rel := rel.GetRelType().(type) {
 	case *proto.Rel_Read:
 		var out ReadRel
-		switch readType := rel.Read.ReadType.(type) {
+		switch readType := rel.Read.GetReadType().(type) {
 		case *proto.ReadRel_ExtensionTable_:
-			out = &ExtensionTableReadRel{detail: readType.ExtensionTable.Detail}
+			out = &ExtensionTableReadRel{detail: readType.ExtensionTable.GetDetail()}
 		case *proto.ReadRel_LocalFiles_:
-			items := make([]FileOrFiles, len(readType.LocalFiles.Items))
-			for i, item := range readType.LocalFiles.Items {
+			items := make([]FileOrFiles, len(readType.LocalFiles.GetItems()))
+			for i, item := range readType.LocalFiles.GetItems() {
 				items[i].fromProto(item)
 			}
 			out = &LocalFileReadRel{
 				items:        items,
-				advExtension: readType.LocalFiles.AdvancedExtension,
+				advExtension: readType.LocalFiles.GetAdvancedExtension(),
 			}
 		case *proto.ReadRel_NamedTable_:
 			out = &NamedTableReadRel{
-				names:        readType.NamedTable.Names,
-				advExtension: readType.NamedTable.AdvancedExtension,
+				names:        readType.NamedTable.GetNames(),
+				advExtension: readType.NamedTable.GetAdvancedExtension(),
 			}
 		case *proto.ReadRel_VirtualTable_:
-			if len(readType.VirtualTable.Values) > 0 && len(readType.VirtualTable.Expressions) > 0 {
+			if len(readType.VirtualTable.GetValues()) > 0 && len(readType.VirtualTable.GetExpressions()) > 0 {
 				return nil, fmt.Errorf("VirtualTable cannot declare both Values and Expressions")
 			}
 			var values []expr.VirtualTableExpressionValue
-			for _, v := range readType.VirtualTable.Values {
+			for _, v := range readType.VirtualTable.GetValues() {
 				row, err := internal.VirtualTableExprFromLiteralProto(v)
 				if err != nil {
 					return nil, err
 				}
 				values = append(values, row)
 			}
-			for _, v := range readType.VirtualTable.Expressions {
+			for _, v := range readType.VirtualTable.GetExpressions() {
 				row, err := internal.VirtualTableExpressionFromProto(v, reg)
 				if err != nil {
 					return nil, err
@@ -496,7 +535,7 @@ func RelFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 				values: values,
 			}
 		case *proto.ReadRel_IcebergTable_:
-			icebergTableType := readType.IcebergTable.TableType
+			icebergTableType := readType.IcebergTable.GetTableType()
 			if icebergTableType == nil {
 				return nil, fmt.Errorf("%w: IcebergTableType is required for IcebergTableReadRel", substraitgo.ErrInvalidRel)
 			}
@@ -505,11 +544,11 @@ func RelFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 			}
 			if direct, ok := icebergTableType.(*proto.ReadRel_IcebergTable_Direct); ok {
 				tableType := &Direct{
-					MetadataUri: direct.Direct.MetadataUri,
+					MetadataUri: direct.Direct.GetMetadataUri(),
 				}
-				if snapshotId, ok := direct.Direct.Snapshot.(*proto.ReadRel_IcebergTable_MetadataFileRead_SnapshotId); ok {
+				if snapshotId, ok := direct.Direct.GetSnapshot().(*proto.ReadRel_IcebergTable_MetadataFileRead_SnapshotId); ok {
 					tableType.SnapshotId = SnapshotId(snapshotId.SnapshotId)
-				} else if snapshotTimestamp, ok := direct.Direct.Snapshot.(*proto.ReadRel_IcebergTable_MetadataFileRead_SnapshotTimestamp); ok {
+				} else if snapshotTimestamp, ok := direct.Direct.GetSnapshot().(*proto.ReadRel_IcebergTable_MetadataFileRead_SnapshotTimestamp); ok {
 					tableType.SnapshotTimestamp = SnapshotTimestamp(snapshotTimestamp.SnapshotTimestamp)
 				}
 				out = &IcebergTableReadRel{
@@ -528,13 +567,13 @@ func RelFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 
 		return out, nil
 	case *proto.Rel_Filter:
-		input, err := RelFromProto(rel.Filter.Input, reg)
+		input, err := inputFromProto(rel.Filter.GetInput(), reg)
 		if err != nil {
 			return nil, fmt.Errorf("error getting input to FilterRel: %w", err)
 		}
 
 		base := input.RecordType()
-		cond, err := expr.ExprFromProto(rel.Filter.Condition, &base, reg)
+		cond, err := expr.ExprFromProto(rel.Filter.GetCondition(), &base, reg)
 		if err != nil {
 			return nil, fmt.Errorf("error getting condition for FilterRel: %w", err)
 		}
@@ -542,27 +581,25 @@ func RelFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 		out := &FilterRel{
 			input:        input,
 			cond:         cond,
-			advExtension: rel.Filter.AdvancedExtension,
-		}
-		if rel.Filter.Common != nil {
-			out.fromProtoCommon(rel.Filter.Common)
+			advExtension: rel.Filter.GetAdvancedExtension(),
 		}
+		out.fromProtoCommon(rel.Filter.GetCommon())
 		return out, nil
 	case *proto.Rel_Fetch:
-		input, err := RelFromProto(rel.Fetch.Input, reg)
+		input, err := inputFromProto(rel.Fetch.GetInput(), reg)
 		if err != nil {
 			return nil, fmt.Errorf("error getting input to FetchRel: %w", err)
 		}
 
 		var offset int64
-		if off, ok := rel.Fetch.OffsetMode.(*proto.FetchRel_Offset); ok {
+		if off, ok := rel.Fetch.GetOffsetMode().(*proto.FetchRel_Offset); ok {
 			offset = off.Offset
 		} else {
 			return nil, fmt.Errorf("%w: missing required Offset field for Fetch Relation", substraitgo.ErrInvalidRel)
 		}
 
 		var count int64
-		if cnt, ok := rel.Fetch.CountMode.(*proto.FetchRel_Count); ok {
+		if cnt, ok := rel.Fetch.GetCountMode().(*proto.FetchRel_Count); ok {
 			count = cnt.Count
 		} else {
 			return nil, fmt.Errorf("%w: missing required Count field for Fetch Relation", substraitgo.ErrInvalidRel)
@@ -572,14 +609,12 @@ func RelFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 			input:        input,
 			offset:       offset,
 			count:        count,
-			advExtension: rel.Fetch.AdvancedExtension,
-		}
-		if rel.Fetch.Common != nil {
-			out.fromProtoCommon(rel.Fetch.Common)
+			advExtension: rel.Fetch.GetAdvancedExtension(),
 		}
+		out.fromProtoCommon(rel.Fetch.GetCommon())
 		return out, nil
 	case *proto.Rel_Aggregate:
-		input, err := RelFromProto(rel.Aggregate.Input, reg)
+		input, err := inputFromProto(rel.Aggregate.GetInput(), reg)
 		if err != nil {
 			return nil, fmt.Errorf("error getting input to AggregateRel: %w", err)
 		}
@@ -587,22 +622,22 @@ func RelFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 		base := input.RecordType()
 		var groupingExpressions []expr.Expression
 		var groupingReferences [][]uint32
-		if len(rel.Aggregate.GroupingExpressions) > 0 {
-			for _, e := range rel.Aggregate.GroupingExpressions {
+		if len(rel.Aggregate.GetGroupingExpressions()) > 0 {
+			for _, e := range rel.Aggregate.GetGroupingExpressions() {
 				expr, err := expr.ExprFromProto(e, &base, reg)
 				if err != nil {
 					return nil, fmt.Errorf("error getting grouping expr for AggregateRel: %w", err)
 				}
 				groupingExpressions = append(groupingExpressions, expr)
 			}
-			for _, g := range rel.Aggregate.Groupings {
-				groupingReferences = append(groupingReferences, g.ExpressionReferences)
+			for _, g := range rel.Aggregate.GetGroupings() {
+				groupingReferences = append(groupingReferences, g.GetExpressionReferences())
 			}
 		} else { // support old style grouping for backward compatibility
-			groups := make([][]expr.Expression, len(rel.Aggregate.Groupings))
-			for i, g := range rel.Aggregate.Groupings {
-				groups[i] = make([]expr.Expression, len(g.GroupingExpressions))
-				for j, e := range g.GroupingExpressions {
+			groups := make([][]expr.Expression, len(rel.Aggregate.GetGroupings()))
+			for i, g := range rel.Aggregate.GetGroupings() {
+				groups[i] = make([]expr.Expression, len(g.GetGroupingExpressions()))
+				for j, e := range g.GetGroupingExpressions() {
 					groups[i][j], err = expr.ExprFromProto(e, &base, reg)
 					if err != nil {
 						return nil, fmt.Errorf("error getting grouping expr [%d][%d] for AggregateRel: %w",
@@ -613,15 +648,15 @@ func RelFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 			groupingExpressions, groupingReferences = groupingExprs(groups)
 		}
 
-		measures := make([]AggRelMeasure, len(rel.Aggregate.Measures))
-		for i, m := range rel.Aggregate.Measures {
-			measures[i].measure, err = expr.NewAggregateFunctionFromProto(m.Measure, &base, reg)
+		measures := make([]AggRelMeasure, len(rel.Aggregate.GetMeasures()))
+		for i, m := range rel.Aggregate.GetMeasures() {
+			measures[i].measure, err = expr.NewAggregateFunctionFromProto(m.GetMeasure(), &base, reg)
 			if err != nil {
 				return nil, fmt.Errorf("error getting AggregateFunction for measure %d: %w", i, err)
 			}
 
-			if m.Filter != nil {
-				measures[i].filter, err = expr.ExprFromProto(m.Filter, &base, reg)
+			if m.GetFilter() != nil {
+				measures[i].filter, err = expr.ExprFromProto(m.GetFilter(), &base, reg)
 				if err != nil {
 					return nil, fmt.Errorf("error getting filter for Aggregate Measure %d: %w", i, err)
 				}
@@ -633,19 +668,19 @@ func RelFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 			measures:            measures,
 			groupingReferences:  groupingReferences,
 			groupingExpressions: groupingExpressions,
-			advExtension:        rel.Aggregate.AdvancedExtension,
+			advExtension:        rel.Aggregate.GetAdvancedExtension(),
 		}
-		out.fromProtoCommon(rel.Aggregate.Common)
+		out.fromProtoCommon(rel.Aggregate.GetCommon())
 		return out, nil
 	case *proto.Rel_Sort:
-		input, err := RelFromProto(rel.Sort.Input, reg)
+		input, err := inputFromProto(rel.Sort.GetInput(), reg)
 		if err != nil {
 			return nil, fmt.Errorf("error getting input to SortRel: %w", err)
 		}
 
 		base := input.RecordType()
-		sorts := make([]expr.SortField, len(rel.Sort.Sorts))
-		for i, s := range rel.Sort.Sorts {
+		sorts := make([]expr.SortField, len(rel.Sort.GetSorts()))
+		for i, s := range rel.Sort.GetSorts() {
 			sorts[i], err = expr.SortFieldFromProto(s, &base, reg)
 			if err != nil {
 				return nil, fmt.Errorf("error getting SortField %d for SortRel: %w", i, err)
@@ -659,21 +694,21 @@ func RelFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 		out := &SortRel{
 			input:        input,
 			sorts:        sorts,
-			advExtension: rel.Sort.AdvancedExtension,
+			advExtension: rel.Sort.GetAdvancedExtension(),
 		}
-		out.fromProtoCommon(rel.Sort.Common)
+		out.fromProtoCommon(rel.Sort.GetCommon())
 		return out, nil
 	case *proto.Rel_Join:
-		if rel.Join.Type == JoinTypeUnspecified {
+		if rel.Join.GetType() == JoinTypeUnspecified {
 			return nil, fmt.Errorf("%w: JoinRel must not have unspecified join type", substraitgo.ErrInvalidRel)
 		}
 
-		left, err := RelFromProto(rel.Join.Left, reg)
+		left, err := inputFromProto(rel.Join.GetLeft(), reg)
 		if err != nil {
 			return nil, fmt.Errorf("error getting left input to JoinRel: %w", err)
 		}
 
-		right, err := RelFromProto(rel.Join.Right, reg)
+		right, err := inputFromProto(rel.Join.GetRight(), reg)
 		if err != nil {
 			return nil, fmt.Errorf("error getting right input to JoinRel: %w", err)
 		}
@@ -681,19 +716,19 @@ func RelFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 		out := &JoinRel{
 			left:         left,
 			right:        right,
-			joinType:     rel.Join.Type,
-			advExtension: rel.Join.AdvancedExtension,
+			joinType:     rel.Join.GetType(),
+			advExtension: rel.Join.GetAdvancedExtension(),
 		}
-		out.fromProtoCommon(rel.Join.Common)
+		out.fromProtoCommon(rel.Join.GetCommon())
 
 		base := out.JoinedRecordType()
-		out.expr, err = expr.ExprFromProto(rel.Join.Expression, &base, reg)
+		out.expr, err = expr.ExprFromProto(rel.Join.GetExpression(), &base, reg)
 		if err != nil {
 			return nil, fmt.Errorf("error getting expr for JoinRel: %w", err)
 		}
 
-		if rel.Join.PostJoinFilter != nil {
-			out.postJoinFilter, err = expr.ExprFromProto(rel.Join.PostJoinFilter, &base, reg)
+		if rel.Join.GetPostJoinFilter() != nil {
+			out.postJoinFilter, err = expr.ExprFromProto(rel.Join.GetPostJoinFilter(), &base, reg)
 			if err != nil {
 				return nil, fmt.Errorf("error parsing PostJoinFilter for JoinRel: %w", err)
 			}
@@ -701,15 +736,15 @@ func RelFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 
 		return out, nil
 	case *proto.Rel_Project:
-		input, err := RelFromProto(rel.Project.Input, reg)
+		input, err := inputFromProto(rel.Project.GetInput(), reg)
 		if err != nil {
 			return nil, fmt.Errorf("error getting input to ProjectRel: %w", err)
 		}
 
 		baseSchema := input.RecordType()
 
-		exprs := make([]expr.Expression, len(rel.Project.Expressions))
-		for i, e := range rel.Project.Expressions {
+		exprs := make([]expr.Expression, len(rel.Project.GetExpressions()))
+		for i, e := range rel.Project.GetExpressions() {
 			exprs[i], err = expr.ExprFromProto(e, &baseSchema, reg)
 			if err != nil {
 				return nil, fmt.Errorf("error getting expr %d for ProjectRel: %w", i, err)
@@ -723,28 +758,26 @@ func RelFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 		out := &ProjectRel{
 			input:        input,
 			exprs:        exprs,
-			advExtension: rel.Project.AdvancedExtension,
-		}
-		if rel.Project.Common != nil {
-			out.fromProtoCommon(rel.Project.Common)
+			advExtension: rel.Project.GetAdvancedExtension(),
 		}
+		out.fromProtoCommon(rel.Project.GetCommon())
 		return out, nil
 	case *proto.Rel_Set:
-		inputs := make([]Rel, len(rel.Set.Inputs))
+		inputs := make([]Rel, len(rel.Set.GetInputs()))
 		if len(inputs) < 2 {
 			return nil, fmt.Errorf("%w: SetRel must have at least 2 inputs, only found %d",
 				substraitgo.ErrInvalidRel, len(inputs))
 		}
 
 		var err error
-		for i, r := range rel.Set.Inputs {
-			inputs[i], err = RelFromProto(r, reg)
+		for i, r := range rel.Set.GetInputs() {
+			inputs[i], err = inputFromProto(r, reg)
 			if err != nil {
 				return nil, fmt.Errorf("error getting input %d for SetRel: %w", i, err)
 			}
 		}
 
-		if rel.Set.Op == SetOpUnspecified {
+		if rel.Set.GetOp() == SetOpUnspecified {
 			return nil, fmt.Errorf("%w: set operation must not be unspecified", substraitgo.ErrInvalidRel)
 		}
 
@@ -759,19 +792,19 @@ func RelFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 
 		out := &SetRel{
 			inputs:       inputs,
-			op:           rel.Set.Op,
-			advExtension: rel.Set.AdvancedExtension,
+			op:           rel.Set.GetOp(),
+			advExtension: rel.Set.GetAdvancedExtension(),
 		}
-		out.fromProtoCommon(rel.Set.Common)
+		out.fromProtoCommon(rel.Set.GetCommon())
 
 		return out, nil
 	case *proto.Rel_ExtensionSingle:
-		input, err := RelFromProto(rel.ExtensionSingle.Input, reg)
+		input, err := inputFromProto(rel.ExtensionSingle.GetInput(), reg)
 		if err != nil {
 			return nil, fmt.Errorf("error getting input to ExtensionSingle: %w", err)
 		}
 
-		definition, err := decodeExtensionDef(reg, rel.ExtensionSingle.Detail)
+		definition, err := decodeExtensionDef(reg, rel.ExtensionSingle.GetDetail())
 		if err != nil {
 			return nil, fmt.Errorf("error decoding ExtensionSingle detail: %w", err)
 		}
@@ -779,20 +812,20 @@ func RelFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 			input:      input,
 			definition: definition,
 		}
-		out.fromProtoCommon(rel.ExtensionSingle.Common)
+		out.fromProtoCommon(rel.ExtensionSingle.GetCommon())
 
 		return out, nil
 	case *proto.Rel_ExtensionMulti:
-		inputs := make([]Rel, len(rel.ExtensionMulti.Inputs))
+		inputs := make([]Rel, len(rel.ExtensionMulti.GetInputs()))
 		var err error
-		for i, r := range rel.ExtensionMulti.Inputs {
-			inputs[i], err = RelFromProto(r, reg)
+		for i, r := range rel.ExtensionMulti.GetInputs() {
+			inputs[i], err = inputFromProto(r, reg)
 			if err != nil {
 				return nil, fmt.Errorf("error getting input %d for ExtensionMultiRel: %w", i, err)
 			}
 		}
 
-		definition, err := decodeExtensionDef(reg, rel.ExtensionMulti.Detail)
+		definition, err := decodeExtensionDef(reg, rel.ExtensionMulti.GetDetail())
 		if err != nil {
 			return nil, fmt.Errorf("error decoding ExtensionMulti detail: %w", err)
 		}
@@ -800,27 +833,27 @@ func RelFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 			inputs:     inputs,
 			definition: definition,
 		}
-		out.fromProtoCommon(rel.ExtensionMulti.Common)
+		out.fromProtoCommon(rel.ExtensionMulti.GetCommon())
 
 		return out, nil
 	case *proto.Rel_ExtensionLeaf:
-		definition, err := decodeExtensionDef(reg, rel.ExtensionLeaf.Detail)
+		definition, err := decodeExtensionDef(reg, rel.ExtensionLeaf.GetDetail())
 		if err != nil {
 			return nil, fmt.Errorf("error decoding ExtensionLeaf detail: %w", err)
 		}
 		out := &ExtensionLeafRel{
 			definition: definition,
 		}
-		out.fromProtoCommon(rel.ExtensionLeaf.Common)
+		out.fromProtoCommon(rel.ExtensionLeaf.GetCommon())
 
 		return out, nil
 	case *proto.Rel_Cross:
-		left, err := RelFromProto(rel.Cross.Left, reg)
+		left, err := inputFromProto(rel.Cross.GetLeft(), reg)
 		if err != nil {
 			return nil, fmt.Errorf("error getting left input to CrossRel: %w", err)
 		}
 
-		right, err := RelFromProto(rel.Cross.Right, reg)
+		right, err := inputFromProto(rel.Cross.GetRight(), reg)
 		if err != nil {
 			return nil, fmt.Errorf("error getting right input to CrossRel: %w", err)
 		}
@@ -828,17 +861,17 @@ func RelFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 		out := &CrossRel{
 			left:         left,
 			right:        right,
-			advExtension: rel.Cross.AdvancedExtension,
+			advExtension: rel.Cross.GetAdvancedExtension(),
 		}
-		out.fromProtoCommon(rel.Cross.Common)
+		out.fromProtoCommon(rel.Cross.GetCommon())
 		return out, nil
 	case *proto.Rel_HashJoin:
-		left, err := RelFromProto(rel.HashJoin.Left, reg)
+		left, err := inputFromProto(rel.HashJoin.GetLeft(), reg)
 		if err != nil {
 			return nil, fmt.Errorf("error getting left input to HashJoinRel: %w", err)
 		}
 
-		right, err := RelFromProto(rel.HashJoin.Right, reg)
+		right, err := inputFromProto(rel.HashJoin.GetRight(), reg)
 		if err != nil {
 			return nil, fmt.Errorf("error getting right input to HashJoin: %w", err)
 		}
@@ -846,7 +879,7 @@ func RelFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 		leftBase, rightBase := left.RecordType(), right.RecordType()
 
 		keys, err := comparisonJoinKeysFromProto(
-			rel.HashJoin.Keys, rel.HashJoin.LeftKeys, rel.HashJoin.RightKeys, &leftBase, &rightBase, reg)
+			rel.HashJoin.GetKeys(), rel.HashJoin.GetLeftKeys(), rel.HashJoin.GetRightKeys(), &leftBase, &rightBase, reg)
 		if err != nil {
 			return nil, fmt.Errorf("error getting keys for HashJoinRel: %w", err)
 		}
@@ -855,14 +888,14 @@ func RelFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 			left:         left,
 			right:        right,
 			keys:         keys,
-			joinType:     HashMergeJoinType(rel.HashJoin.Type),
-			advExtension: rel.HashJoin.AdvancedExtension,
+			joinType:     HashMergeJoinType(rel.HashJoin.GetType()),
+			advExtension: rel.HashJoin.GetAdvancedExtension(),
 		}
-		out.fromProtoCommon(rel.HashJoin.Common)
+		out.fromProtoCommon(rel.HashJoin.GetCommon())
 
-		if rel.HashJoin.PostJoinFilter != nil {
+		if rel.HashJoin.GetPostJoinFilter() != nil {
 			base := out.RecordType()
-			out.postJoinFilter, err = expr.ExprFromProto(rel.HashJoin.PostJoinFilter, &base, reg)
+			out.postJoinFilter, err = expr.ExprFromProto(rel.HashJoin.GetPostJoinFilter(), &base, reg)
 			if err != nil {
 				return nil, fmt.Errorf("error getting post join filter for HashJoinRel: %w", err)
 			}
@@ -870,12 +903,12 @@ func RelFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 
 		return out, nil
 	case *proto.Rel_MergeJoin:
-		left, err := RelFromProto(rel.MergeJoin.Left, reg)
+		left, err := inputFromProto(rel.MergeJoin.GetLeft(), reg)
 		if err != nil {
 			return nil, fmt.Errorf("error getting left input to MergeJoinRel: %w", err)
 		}
 
-		right, err := RelFromProto(rel.MergeJoin.Right, reg)
+		right, err := inputFromProto(rel.MergeJoin.GetRight(), reg)
 		if err != nil {
 			return nil, fmt.Errorf("error getting right input to MergeJoinRel: %w", err)
 		}
@@ -883,7 +916,7 @@ func RelFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 		leftBase, rightBase := left.RecordType(), right.RecordType()
 
 		keys, err := comparisonJoinKeysFromProto(
-			rel.MergeJoin.Keys, rel.MergeJoin.LeftKeys, rel.MergeJoin.RightKeys, &leftBase, &rightBase, reg)
+			rel.MergeJoin.GetKeys(), rel.MergeJoin.GetLeftKeys(), rel.MergeJoin.GetRightKeys(), &leftBase, &rightBase, reg)
 		if err != nil {
 			return nil, fmt.Errorf("error getting keys for MergeJoinRel: %w", err)
 		}
@@ -892,14 +925,14 @@ func RelFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 			left:         left,
 			right:        right,
 			keys:         keys,
-			joinType:     HashMergeJoinType(rel.MergeJoin.Type),
-			advExtension: rel.MergeJoin.AdvancedExtension,
+			joinType:     HashMergeJoinType(rel.MergeJoin.GetType()),
+			advExtension: rel.MergeJoin.GetAdvancedExtension(),
 		}
-		out.fromProtoCommon(rel.MergeJoin.Common)
+		out.fromProtoCommon(rel.MergeJoin.GetCommon())
 
-		if rel.MergeJoin.PostJoinFilter != nil {
+		if rel.MergeJoin.GetPostJoinFilter() != nil {
 			base := out.RecordType()
-			out.postJoinFilter, err = expr.ExprFromProto(rel.MergeJoin.PostJoinFilter, &base, reg)
+			out.postJoinFilter, err = expr.ExprFromProto(rel.MergeJoin.GetPostJoinFilter(), &base, reg)
 			if err != nil {
 				return nil, fmt.Errorf("error getting post join filter for MergeJoin: %w", err)
 			}
@@ -907,31 +940,29 @@ func RelFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 
 		return out, nil
 	case *proto.Rel_Write:
-		input, err := RelFromProto(rel.Write.Input, reg)
+		input, err := inputFromProto(rel.Write.GetInput(), reg)
 		if err != nil {
 			return nil, fmt.Errorf("error getting input to WriteRel: %w", err)
 		}
-		tableSchema := types.NewNamedStructFromProto(rel.Write.TableSchema)
+		tableSchema := types.NewNamedStructFromProto(rel.Write.GetTableSchema())
 		out := &NamedTableWriteRel{
 			tableSchema: tableSchema,
-			op:          rel.Write.Op,
+			op:          rel.Write.GetOp(),
 			input:       input,
-			outputMode:  rel.Write.Output,
-		}
-		if rel.Write.Common != nil {
-			out.fromProtoCommon(rel.Write.Common)
+			outputMode:  rel.Write.GetOutput(),
 		}
-		switch rel.Write.Op {
+		out.fromProtoCommon(rel.Write.GetCommon())
+		switch rel.Write.GetOp() {
 		case proto.WriteRel_WRITE_OP_CTAS, proto.WriteRel_WRITE_OP_INSERT, proto.WriteRel_WRITE_OP_DELETE:
-			switch writeType := rel.Write.WriteType.(type) {
+			switch writeType := rel.Write.GetWriteType().(type) {
 			case *proto.WriteRel_NamedTable:
-				out.names = writeType.NamedTable.Names
-				out.advExtension = writeType.NamedTable.AdvancedExtension
+				out.names = writeType.NamedTable.GetNames()
+				out.advExtension = writeType.NamedTable.GetAdvancedExtension()
 			case *proto.WriteRel_ExtensionTable:
 				return nil, fmt.Errorf("%w: ExtensionTable not supported for WriteRel", substraitgo.ErrInvalidRel)
 			}
 		default:
-			return nil, fmt.Errorf("%w: WriteRel not supported for optype %v", substraitgo.ErrInvalidRel, rel.Write.Op)
+			return nil, fmt.Errorf("%w: WriteRel not supported for optype %v", substraitgo.ErrInvalidRel, rel.Write.GetOp())
 		}
 		return out, nil
 	case nil:
diff --git a/plan/relations.go b/plan/relations.go
index 427e521..0fea64f 100644
--- a/plan/relations.go
+++ b/plan/relations.go
@@ -63,34 +63,32 @@ type baseReadRel struct {
 }
 
 func (b *baseReadRel) fromProtoReadRel(rel *proto.ReadRel, reg expr.ExtensionRegistry) error {
-	if rel.Common != nil {
-		b.RelCommon.fromProtoCommon(rel.Common)
-	}
+	b.RelCommon.fromProtoCommon(rel.GetCommon())
 
-	b.baseSchema = types.NewNamedStructFromProto(rel.BaseSchema)
+	b.baseSchema = types.NewNamedStructFromProto(rel.GetBaseSchema())
 	if err := b.baseSchema.Validate(); err != nil {
 		return err
 	}
 	var err error
-	if rel.Filter != nil {
-		b.filter, err = expr.ExprFromProto(rel.Filter, types.NewRecordTypeFromStruct(b.baseSchema.Struct), reg)
+	if rel.GetFilter() != nil {
+		b.filter, err = expr.ExprFromProto(rel.GetFilter(), types.NewRecordTypeFromStruct(b.baseSchema.Struct), reg)
 		if err != nil {
 			return err
 		}
 	}
 
-	if rel.BestEffortFilter != nil {
-		b.bestEffortFilter, err = expr.ExprFromProto(rel.BestEffortFilter, types.NewRecordTypeFromStruct(b.baseSchema.Struct), reg)
+	if rel.GetBestEffortFilter() != nil {
+		b.bestEffortFilter, err = expr.ExprFromProto(rel.GetBestEffortFilter(), types.NewRecordTypeFromStruct(b.baseSchema.Struct), reg)
 		if err != nil {
 			return err
 		}
 	}
 
-	if rel.Projection != nil {
-		b.projection = expr.MaskExpressionFromProto(rel.Projection)
+	if rel.GetProjection() != nil {
+		b.projection = expr.MaskExpressionFromProto(rel.GetProjection())
 	}
 
-	b.advExtension = rel.AdvancedExtension
+	b.advExtension = rel.GetAdvancedExtension()
 	return nil
 }
 
@@ -554,10 +552,10 @@ type FileOrFiles struct {
 }
 
 func (f *FileOrFiles) fromProto(p *proto.ReadRel_LocalFiles_FileOrFiles) {
-	f.PartIndex = p.PartitionIndex
-	f.Start, f.Len = p.Start, p.Length
+	f.PartIndex = p.GetPartitionIndex()
+	f.Start, f.Len = p.GetStart(), p.GetLength()
 
-	switch path := p.PathType.(type) {
+	switch path := p.GetPathType().(type) {
 	case *proto.ReadRel_LocalFiles_FileOrFiles_UriFile:
 		f.PathType, f.Path = URIFile, path.UriFile
 	case *proto.ReadRel_LocalFiles_FileOrFiles_UriFolder:
@@ -568,7 +566,7 @@ func (f *FileOrFiles) fromProto(p *proto.ReadRel_LocalFiles_FileOrFiles) {
 		f.PathType, f.Path = URIPathGlob, path.UriPathGlob
 	}
 
-	switch format := p.FileFormat.(type) {
+	switch format := p.GetFileFormat().(type) {
 	case *proto.ReadRel_LocalFiles_FileOrFiles_Arrow:
 		f.Format = (*ArrowReadOptions)(format.Arrow)
 	case *proto.ReadRel_LocalFiles_FileOrFiles_Dwrf:
diff --git a/plan/subquery.go b/plan/subquery.go
index a4525f0..9c9896c 100644
--- a/plan/subquery.go
+++ b/plan/subquery.go
@@ -24,7 +24,7 @@ func (r *ExpressionConverter) SubqueryFromProto(sub *proto.Expression_Subquery,
 	inner := reg.WithOuterSchema(baseSchema)
 	switch subType := sub.GetSubqueryType().(type) {
 	case *proto.Expression_Subquery_Scalar_:
-		rel, err := RelFromProto(subType.Scalar.Input, inner)
+		rel, err := inputFromProto(subType.Scalar.Input, inner)
 		if err != nil {
 			return nil, err
 		}
@@ -46,7 +46,7 @@ func (r *ExpressionConverter) SubqueryFromProto(sub *proto.Expression_Subquery,
 			needles[i] = expr
 		}
 
-		rel, err := RelFromProto(subType.InPredicate.Haystack, inner)
+		rel, err := inputFromProto(subType.InPredicate.Haystack, inner)
 		if err != nil {
 			return nil, err
 		}
@@ -54,7 +54,7 @@ func (r *ExpressionConverter) SubqueryFromProto(sub *proto.Expression_Subquery,
 		return NewInPredicateSubquery(needles, rel), nil
 
 	case *proto.Expression_Subquery_SetPredicate_:
-		tuples, err := RelFromProto(subType.SetPredicate.Tuples, inner)
+		tuples, err := inputFromProto(subType.SetPredicate.Tuples, inner)
 		if err != nil {
 			return nil, fmt.Errorf("error parsing tuples in set predicate: %w", err)
 		}
@@ -65,7 +65,7 @@ func (r *ExpressionConverter) SubqueryFromProto(sub *proto.Expression_Subquery,
 			return nil, fmt.Errorf("error parsing left expression in set comparison: %w", err)
 		}
 
-		right, err := RelFromProto(subType.SetComparison.Right, inner)
+		right, err := inputFromProto(subType.SetComparison.Right, inner)
 		if err != nil {
 			return nil, fmt.Errorf("error parsing right relation in set comparison: %w", err)
 		}
-- 
2.43.0


From 8b3294ec068dfe8a230b471e330d92fd6c98944b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:39 +0000
Subject: [PATCH 31/69] fix: joins of every type have the columns of that type,
 post join filters see both sides

---
 plan/plan.go      | 21 ++++++++++-
 plan/relations.go | 96 ++++++++++++++++++++++++++++++++++-------------
 2 files changed, 88 insertions(+), 29 deletions(-)

diff --git a/plan/plan.go b/plan/plan.go
index 18afe3d..f77a0a5 100644
--- a/plan/plan.go
+++ b/plan/plan.go
@@ -702,6 +702,9 @@ func relFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 		if rel.Join.GetType() == JoinTypeUnspecified {
 			return nil, fmt.Errorf("%w: JoinRel must not have unspecified join type", substraitgo.ErrInvalidRel)
 		}
+		if _, ok := proto.JoinRel_JoinType_name[int32(rel.Join.GetType())]; !ok {
+			return nil, fmt.Errorf("%w: unknown join type %d for JoinRel", substraitgo.ErrInvalidRel, rel.Join.GetType())
+		}
 
 		left, err := inputFromProto(rel.Join.GetLeft(), reg)
 		if err != nil {
@@ -866,6 +869,13 @@ func relFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 		out.fromProtoCommon(rel.Cross.GetCommon())
 		return out, nil
 	case *proto.Rel_HashJoin:
+		if rel.HashJoin.GetType() == proto.HashJoinRel_JOIN_TYPE_UNSPECIFIED {
+			return nil, fmt.Errorf("%w: HashJoinRel must not have unspecified join type", substraitgo.ErrInvalidRel)
+		}
+		if _, ok := proto.HashJoinRel_JoinType_name[int32(rel.HashJoin.GetType())]; !ok {
+			return nil, fmt.Errorf("%w: unknown join type %d for HashJoinRel", substraitgo.ErrInvalidRel, rel.HashJoin.GetType())
+		}
+
 		left, err := inputFromProto(rel.HashJoin.GetLeft(), reg)
 		if err != nil {
 			return nil, fmt.Errorf("error getting left input to HashJoinRel: %w", err)
@@ -894,7 +904,7 @@ func relFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 		out.fromProtoCommon(rel.HashJoin.GetCommon())
 
 		if rel.HashJoin.GetPostJoinFilter() != nil {
-			base := out.RecordType()
+			base := left.RecordType().Concat(right.RecordType())
 			out.postJoinFilter, err = expr.ExprFromProto(rel.HashJoin.GetPostJoinFilter(), &base, reg)
 			if err != nil {
 				return nil, fmt.Errorf("error getting post join filter for HashJoinRel: %w", err)
@@ -903,6 +913,13 @@ func relFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 
 		return out, nil
 	case *proto.Rel_MergeJoin:
+		if rel.MergeJoin.GetType() == proto.MergeJoinRel_JOIN_TYPE_UNSPECIFIED {
+			return nil, fmt.Errorf("%w: MergeJoinRel must not have unspecified join type", substraitgo.ErrInvalidRel)
+		}
+		if _, ok := proto.MergeJoinRel_JoinType_name[int32(rel.MergeJoin.GetType())]; !ok {
+			return nil, fmt.Errorf("%w: unknown join type %d for MergeJoinRel", substraitgo.ErrInvalidRel, rel.MergeJoin.GetType())
+		}
+
 		left, err := inputFromProto(rel.MergeJoin.GetLeft(), reg)
 		if err != nil {
 			return nil, fmt.Errorf("error getting left input to MergeJoinRel: %w", err)
@@ -931,7 +948,7 @@ func relFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 		out.fromProtoCommon(rel.MergeJoin.GetCommon())
 
 		if rel.MergeJoin.GetPostJoinFilter() != nil {
-			base := out.RecordType()
+			base := left.RecordType().Concat(right.RecordType())
 			out.postJoinFilter, err = expr.ExprFromProto(rel.MergeJoin.GetPostJoinFilter(), &base, reg)
 			if err != nil {
 				return nil, fmt.Errorf("error getting post join filter for MergeJoin: %w", err)
diff --git a/plan/relations.go b/plan/relations.go
index 0fea64f..c807ad2 100644
--- a/plan/relations.go
+++ b/plan/relations.go
@@ -807,6 +807,8 @@ const (
 	JoinTypeRightSemi   = proto.JoinRel_JOIN_TYPE_RIGHT_SEMI
 	JoinTypeRightAnti   = proto.JoinRel_JOIN_TYPE_RIGHT_ANTI
 	JoinTypeRightSingle = proto.JoinRel_JOIN_TYPE_RIGHT_SINGLE
+	JoinTypeLeftMark    = proto.JoinRel_JOIN_TYPE_LEFT_MARK
+	JoinTypeRightMark   = proto.JoinRel_JOIN_TYPE_RIGHT_MARK
 )
 
 // JoinRel is a binary Join relational operator representing left-join-right,
@@ -822,37 +824,41 @@ type JoinRel struct {
 }
 
 func (j *JoinRel) directOutputSchema() types.RecordType {
+	return joinOutputSchema(j.left.RecordType(), j.right.RecordType(), j.joinType)
+}
+
+// joinOutputSchema returns the columns a join of the given type has: those of
+// one or both sides, nullable for a side of which the columns are filled up,
+// and the mark of a mark join.
+func joinOutputSchema(left, right types.RecordType, joinType JoinType) types.RecordType {
+	l, r := left.Types(), right.Types()
+	nullable := func(in []types.Type) []types.Type {
+		out := make([]types.Type, len(in))
+		for i, t := range in {
+			out[i] = t.WithNullability(types.NullabilityNullable)
+		}
+		return out
+	}
+	mark := []types.Type{&types.BooleanType{Nullability: types.NullabilityNullable}}
+
 	var typeList []types.Type
-	switch j.joinType {
+	switch joinType {
 	case JoinTypeInner:
-		return j.JoinedRecordType()
-	case JoinTypeLeftSemi:
-		return j.left.RecordType()
+		typeList = slices.Concat(l, r)
 	case JoinTypeOuter:
-		typeList = j.JoinedRecordType().Types()
-		for i, t := range typeList {
-			typeList[i] = t.WithNullability(types.NullabilityNullable)
-		}
+		typeList = slices.Concat(nullable(l), nullable(r))
 	case JoinTypeLeft, JoinTypeLeftSingle:
-		left := j.left.RecordType()
-		right := j.right.RecordType()
-		typeList = make([]types.Type, 0, left.FieldCount()+right.FieldCount())
-		typeList = append(typeList, left.Types()...)
-		for _, r := range right.Types() {
-			typeList = append(typeList, r.WithNullability(types.NullabilityNullable))
-		}
+		typeList = slices.Concat(l, nullable(r))
 	case JoinTypeRight, JoinTypeRightSingle:
-		left := j.left.RecordType()
-		right := j.right.RecordType()
-		typeList = make([]types.Type, 0, left.FieldCount()+right.FieldCount())
-		for _, l := range left.Types() {
-			typeList = append(typeList, l.WithNullability(types.NullabilityNullable))
-		}
-		typeList = append(typeList, right.Types()...)
-	case JoinTypeLeftAnti:
-		typeList = j.left.RecordType().Types()
+		typeList = slices.Concat(nullable(l), r)
+	case JoinTypeLeftSemi, JoinTypeLeftAnti:
+		typeList = slices.Clone(l)
 	case JoinTypeRightSemi, JoinTypeRightAnti:
-		return j.right.RecordType()
+		typeList = slices.Clone(r)
+	case JoinTypeLeftMark:
+		typeList = slices.Concat(l, mark)
+	case JoinTypeRightMark:
+		typeList = slices.Concat(r, mark)
 	}
 
 	return *types.NewRecordTypeFromTypes(typeList)
@@ -1819,8 +1825,44 @@ const (
 	HashMergeRightSemi
 	HashMergeLeftAnti
 	HashMergeRightAnti
+	HashMergeLeftSingle
+	HashMergeRightSingle
+	HashMergeLeftMark
+	HashMergeRightMark
 )
 
+// joinType returns the logical join type that the physical one implements;
+// without a type it outputs both sides as they are.
+func (t HashMergeJoinType) joinType() JoinType {
+	switch t {
+	case HashMergeInner, HashMergeUnspecified:
+		return JoinTypeInner
+	case HashMergeOuter:
+		return JoinTypeOuter
+	case HashMergeLeft:
+		return JoinTypeLeft
+	case HashMergeRight:
+		return JoinTypeRight
+	case HashMergeLeftSemi:
+		return JoinTypeLeftSemi
+	case HashMergeRightSemi:
+		return JoinTypeRightSemi
+	case HashMergeLeftAnti:
+		return JoinTypeLeftAnti
+	case HashMergeRightAnti:
+		return JoinTypeRightAnti
+	case HashMergeLeftSingle:
+		return JoinTypeLeftSingle
+	case HashMergeRightSingle:
+		return JoinTypeRightSingle
+	case HashMergeLeftMark:
+		return JoinTypeLeftMark
+	case HashMergeRightMark:
+		return JoinTypeRightMark
+	}
+	return JoinTypeUnspecified
+}
+
 // SimpleComparisonType describes one of the predefined comparison behaviors
 // used by a ComparisonJoinKey.
 type SimpleComparisonType = proto.ComparisonJoinKey_SimpleComparisonType
@@ -2027,7 +2069,7 @@ type HashJoinRel struct {
 }
 
 func (hr *HashJoinRel) directOutputSchema() types.RecordType {
-	return hr.left.RecordType().Concat(hr.right.RecordType())
+	return joinOutputSchema(hr.left.RecordType(), hr.right.RecordType(), hr.joinType.joinType())
 }
 
 func (hr *HashJoinRel) RecordType() types.RecordType {
@@ -2144,7 +2186,7 @@ type MergeJoinRel struct {
 }
 
 func (mr *MergeJoinRel) directOutputSchema() types.RecordType {
-	return mr.left.RecordType().Concat(mr.right.RecordType())
+	return joinOutputSchema(mr.left.RecordType(), mr.right.RecordType(), mr.joinType.joinType())
 }
 
 func (mr *MergeJoinRel) RecordType() types.RecordType {
-- 
2.43.0


From e813070ee82caaaa6a43eaccb06bb0a04cd6a2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:01 +0000
Subject: [PATCH 32/69] fix: writes keep their output mode, create mode and
 advanced extension, an unspecified output mode is not a panic

---
 plan/builders.go  |  2 --
 plan/plan.go      | 20 ++++++++++++++------
 plan/relations.go | 38 +++++++++++++++++++++++++++++++-------
 3 files changed, 45 insertions(+), 15 deletions(-)

diff --git a/plan/builders.go b/plan/builders.go
index b63af38..a2d3f3c 100644
--- a/plan/builders.go
+++ b/plan/builders.go
@@ -353,7 +353,6 @@ func (b *builder) CreateTableAsSelectRemap(input Rel, remap []int32, tableName [
 		tableSchema: schema,
 		op:          WriteOpCTAS,
 		input:       input,
-		outputMode:  OutputModeModifiedRecords,
 	}, nil
 }
 
@@ -515,7 +514,6 @@ func (b *builder) NamedWriteRemap(input Rel, op WriteOp, tableName []string, sch
 		tableSchema: schema,
 		op:          op,
 		input:       input,
-		outputMode:  OutputModeNoOutput,
 	}, nil
 }
 
diff --git a/plan/plan.go b/plan/plan.go
index f77a0a5..479b6ca 100644
--- a/plan/plan.go
+++ b/plan/plan.go
@@ -322,13 +322,10 @@ func validateRootNamesForSchema(recordType types.RecordType, names []string) err
 // have incomplete implementations that panic or guess.
 // TODO(#210): remove this once RecordType() is fixed for all relation types.
 func isRecordTypeSupported(rel Rel) bool {
-	if isUndecodedExtension(rel) {
-		return false
+	if write, ok := rel.(*NamedTableWriteRel); ok && write.outputMode == OutputModeUnspecified {
+		return false // what the write outputs is a guess
 	}
-	if _, ok := rel.(*NamedTableWriteRel); ok {
-		return false // TODO(#210): panics when outputMode is unspecified
-	}
-	return true
+	return !isUndecodedExtension(rel)
 }
 
 // isUndecodedExtension reports whether the relation is an extension relation
@@ -962,11 +959,20 @@ func relFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 			return nil, fmt.Errorf("error getting input to WriteRel: %w", err)
 		}
 		tableSchema := types.NewNamedStructFromProto(rel.Write.GetTableSchema())
+		if err := tableSchema.Validate(); err != nil {
+			return nil, err
+		}
+		if _, ok := proto.WriteRel_OutputMode_name[int32(rel.Write.GetOutput())]; !ok {
+			return nil, fmt.Errorf("%w: unknown output mode %d for WriteRel", substraitgo.ErrInvalidRel, rel.Write.GetOutput())
+		}
 		out := &NamedTableWriteRel{
 			tableSchema: tableSchema,
 			op:          rel.Write.GetOp(),
 			input:       input,
 			outputMode:  rel.Write.GetOutput(),
+			createMode:  rel.Write.GetCreateMode(),
+
+			relAdvExtension: rel.Write.GetAdvancedExtension(),
 		}
 		out.fromProtoCommon(rel.Write.GetCommon())
 		switch rel.Write.GetOp() {
@@ -977,6 +983,8 @@ func relFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 				out.advExtension = writeType.NamedTable.GetAdvancedExtension()
 			case *proto.WriteRel_ExtensionTable:
 				return nil, fmt.Errorf("%w: ExtensionTable not supported for WriteRel", substraitgo.ErrInvalidRel)
+			default:
+				return nil, fmt.Errorf("%w: WriteRel must have a table to write", substraitgo.ErrInvalidRel)
 			}
 		default:
 			return nil, fmt.Errorf("%w: WriteRel not supported for optype %v", substraitgo.ErrInvalidRel, rel.Write.GetOp())
diff --git a/plan/relations.go b/plan/relations.go
index c807ad2..3697db2 100644
--- a/plan/relations.go
+++ b/plan/relations.go
@@ -2299,6 +2299,16 @@ const (
 	WriteOpCTAS        = proto.WriteRel_WRITE_OP_CTAS
 )
 
+type CreateMode = proto.WriteRel_CreateMode
+
+const (
+	CreateModeUnspecified     = proto.WriteRel_CREATE_MODE_UNSPECIFIED
+	CreateModeAppendIfExists  = proto.WriteRel_CREATE_MODE_APPEND_IF_EXISTS
+	CreateModeReplaceIfExists = proto.WriteRel_CREATE_MODE_REPLACE_IF_EXISTS
+	CreateModeIgnoreIfExists  = proto.WriteRel_CREATE_MODE_IGNORE_IF_EXISTS
+	CreateModeErrorIfExists   = proto.WriteRel_CREATE_MODE_ERROR_IF_EXISTS
+)
+
 type OutputMode = proto.WriteRel_OutputMode
 
 const (
@@ -2321,16 +2331,14 @@ type NamedTableWriteRel struct {
 	op          WriteOp
 	input       Rel
 	outputMode  OutputMode
+	createMode  CreateMode
+
+	relAdvExtension *extensions.AdvancedExtension
 }
 
 func (wr *NamedTableWriteRel) directOutputSchema() types.RecordType {
-	switch wr.outputMode {
-	case OutputModeNoOutput:
-		return types.RecordType{}
-	case OutputModeModifiedRecords:
+	if wr.OutputMode() == OutputModeModifiedRecords {
 		return *types.NewRecordTypeFromStruct(wr.tableSchema.Struct)
-	case OutputModeUnspecified:
-		panic("output mode not specified")
 	}
 	return types.RecordType{}
 }
@@ -2349,10 +2357,22 @@ func (wr *NamedTableWriteRel) TableSchema() types.NamedStruct {
 }
 func (wr *NamedTableWriteRel) Op() WriteOp { return wr.op }
 func (wr *NamedTableWriteRel) Input() Rel  { return wr.input }
+
+// OutputMode returns what the write outputs. A write that does not specify it
+// outputs the records of the table it creates, and nothing otherwise.
 func (wr *NamedTableWriteRel) OutputMode() OutputMode {
-	return wr.outputMode
+	if wr.outputMode != OutputModeUnspecified {
+		return wr.outputMode
+	}
+	if wr.op == WriteOpCTAS {
+		return OutputModeModifiedRecords
+	}
+	return OutputModeNoOutput
 }
 
+// CreateMode returns what happens if the table to create exists already.
+func (wr *NamedTableWriteRel) CreateMode() CreateMode { return wr.createMode }
+
 func (wr *NamedTableWriteRel) ToProto() *proto.Rel {
 	return &proto.Rel{
 		RelType: &proto.Rel_Write{
@@ -2367,6 +2387,10 @@ func (wr *NamedTableWriteRel) ToProto() *proto.Rel {
 				TableSchema: wr.tableSchema.ToProto(),
 				Op:          wr.op,
 				Input:       wr.input.ToProto(),
+				CreateMode:  wr.createMode,
+				Output:      wr.outputMode,
+
+				AdvancedExtension: wr.relAdvExtension,
 			},
 		},
 	}
-- 
2.43.0


From 2fa559529e32fd5043efa66dc8c24d46336ba0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:12 +0000
Subject: [PATCH 33/69] fix: text file formats, zero snapshots and hash join
 build inputs are kept, what cannot be kept of a plan is refused

---
 plan/builders.go  |  1 +
 plan/plan.go      | 26 ++++++++++++++++++++++++--
 plan/relations.go | 37 ++++++++++++++++++++++++++++++++++++-
 3 files changed, 61 insertions(+), 3 deletions(-)

diff --git a/plan/builders.go b/plan/builders.go
index a2d3f3c..481b105 100644
--- a/plan/builders.go
+++ b/plan/builders.go
@@ -651,6 +651,7 @@ func (b *builder) ExtensionTable(detail *anypb.Any, schema types.NamedStruct) *E
 func (b *builder) IcebergTableFromMetadataFile(metadataURI string, snapshot IcebergSnapshot, schema types.NamedStruct) (*IcebergTableReadRel, error) {
 	tableType := &Direct{}
 	tableType.MetadataUri = metadataURI
+	tableType.snapshot = snapshot
 
 	if snapshot != nil {
 		if snapshotId, ok := snapshot.(SnapshotId); ok {
diff --git a/plan/plan.go b/plan/plan.go
index 479b6ca..93ed32a 100644
--- a/plan/plan.go
+++ b/plan/plan.go
@@ -233,6 +233,9 @@ func FromProto(plan *proto.Plan, c *extensions.Collection) (*Plan, error) {
 // on the registry before parsing relations, allowing extension rels to be
 // decoded into typed ExtensionRelDefinitions rather than UndecodedExtension.
 func FromProtoWithDecoder(plan *proto.Plan, c *extensions.Collection, decoders map[string]expr.ExtensionRelDecoder) (*Plan, error) {
+	if len(plan.GetTypeAliases()) > 0 {
+		return nil, fmt.Errorf("%w: type aliases of a plan", substraitgo.ErrNotImplemented)
+	}
 	extSet, err := extensions.GetExtensionSet(plan, c)
 	if err != nil {
 		return nil, err
@@ -497,7 +500,9 @@ func relFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 		case *proto.ReadRel_LocalFiles_:
 			items := make([]FileOrFiles, len(readType.LocalFiles.GetItems()))
 			for i, item := range readType.LocalFiles.GetItems() {
-				items[i].fromProto(item)
+				if err := items[i].fromProto(item); err != nil {
+					return nil, err
+				}
 			}
 			out = &LocalFileReadRel{
 				items:        items,
@@ -545,8 +550,10 @@ func relFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 				}
 				if snapshotId, ok := direct.Direct.GetSnapshot().(*proto.ReadRel_IcebergTable_MetadataFileRead_SnapshotId); ok {
 					tableType.SnapshotId = SnapshotId(snapshotId.SnapshotId)
+					tableType.snapshot = tableType.SnapshotId
 				} else if snapshotTimestamp, ok := direct.Direct.GetSnapshot().(*proto.ReadRel_IcebergTable_MetadataFileRead_SnapshotTimestamp); ok {
 					tableType.SnapshotTimestamp = SnapshotTimestamp(snapshotTimestamp.SnapshotTimestamp)
+					tableType.snapshot = tableType.SnapshotTimestamp
 				}
 				out = &IcebergTableReadRel{
 					tableType: tableType,
@@ -627,12 +634,26 @@ func relFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 				}
 				groupingExpressions = append(groupingExpressions, expr)
 			}
-			for _, g := range rel.Aggregate.GetGroupings() {
+			for i, g := range rel.Aggregate.GetGroupings() {
+				if len(g.GetGroupingExpressions()) > 0 {
+					return nil, fmt.Errorf("%w: grouping %d of AggregateRel has grouping expressions besides those of the relation",
+						substraitgo.ErrInvalidRel, i)
+				}
+				for _, ref := range g.GetExpressionReferences() {
+					if ref >= uint32(len(groupingExpressions)) {
+						return nil, fmt.Errorf("%w: grouping %d of AggregateRel refers to expression %d of %d",
+							substraitgo.ErrInvalidRel, i, ref, len(groupingExpressions))
+					}
+				}
 				groupingReferences = append(groupingReferences, g.GetExpressionReferences())
 			}
 		} else { // support old style grouping for backward compatibility
 			groups := make([][]expr.Expression, len(rel.Aggregate.GetGroupings()))
 			for i, g := range rel.Aggregate.GetGroupings() {
+				if len(g.GetExpressionReferences()) > 0 {
+					return nil, fmt.Errorf("%w: grouping %d of AggregateRel refers to missing grouping expressions",
+						substraitgo.ErrInvalidRel, i)
+				}
 				groups[i] = make([]expr.Expression, len(g.GetGroupingExpressions()))
 				for j, e := range g.GetGroupingExpressions() {
 					groups[i][j], err = expr.ExprFromProto(e, &base, reg)
@@ -896,6 +917,7 @@ func relFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 			right:        right,
 			keys:         keys,
 			joinType:     HashMergeJoinType(rel.HashJoin.GetType()),
+			buildInput:   rel.HashJoin.GetBuildInput(),
 			advExtension: rel.HashJoin.GetAdvancedExtension(),
 		}
 		out.fromProtoCommon(rel.HashJoin.GetCommon())
diff --git a/plan/relations.go b/plan/relations.go
index 3697db2..d975c6c 100644
--- a/plan/relations.go
+++ b/plan/relations.go
@@ -411,6 +411,10 @@ type (
 		MetadataUri string
 		SnapshotTimestamp
 		SnapshotId
+
+		// snapshot is the snapshot that was given, which may have the zero
+		// value of its type
+		snapshot IcebergSnapshot
 	}
 
 	IcebergTableType interface {
@@ -461,6 +465,13 @@ func (n *IcebergTableReadRel) ToProto() *proto.Rel {
 			direct.Snapshot = &proto.ReadRel_IcebergTable_MetadataFileRead_SnapshotTimestamp{
 				SnapshotTimestamp: int64(directTableType.SnapshotTimestamp),
 			}
+		} else {
+			switch directTableType.snapshot.(type) {
+			case SnapshotId:
+				direct.Snapshot = &proto.ReadRel_IcebergTable_MetadataFileRead_SnapshotId{}
+			case SnapshotTimestamp:
+				direct.Snapshot = &proto.ReadRel_IcebergTable_MetadataFileRead_SnapshotTimestamp{}
+			}
 		}
 
 		readRel.ReadType = &proto.ReadRel_IcebergTable_{
@@ -521,6 +532,7 @@ type (
 	ArrowReadOptions     proto.ReadRel_LocalFiles_FileOrFiles_ArrowReadOptions
 	OrcReadOptions       proto.ReadRel_LocalFiles_FileOrFiles_OrcReadOptions
 	DwrfReadOptions      proto.ReadRel_LocalFiles_FileOrFiles_DwrfReadOptions
+	TextReadOptions      proto.ReadRel_LocalFiles_FileOrFiles_DelimiterSeparatedTextReadOptions
 	ExtensionReadOptions anypb.Any
 
 	FileFormat interface {
@@ -532,6 +544,7 @@ func (*ParquetReadOptions) isFileFormat()   {}
 func (*ArrowReadOptions) isFileFormat()     {}
 func (*OrcReadOptions) isFileFormat()       {}
 func (*DwrfReadOptions) isFileFormat()      {}
+func (*TextReadOptions) isFileFormat()      {}
 func (*ExtensionReadOptions) isFileFormat() {}
 
 // FileOrFiles represents the contents of a LocalFiles table. Many files
@@ -551,7 +564,7 @@ type FileOrFiles struct {
 	Format FileFormat
 }
 
-func (f *FileOrFiles) fromProto(p *proto.ReadRel_LocalFiles_FileOrFiles) {
+func (f *FileOrFiles) fromProto(p *proto.ReadRel_LocalFiles_FileOrFiles) error {
 	f.PartIndex = p.GetPartitionIndex()
 	f.Start, f.Len = p.GetStart(), p.GetLength()
 
@@ -564,6 +577,8 @@ func (f *FileOrFiles) fromProto(p *proto.ReadRel_LocalFiles_FileOrFiles) {
 		f.PathType, f.Path = URIPath, path.UriPath
 	case *proto.ReadRel_LocalFiles_FileOrFiles_UriPathGlob:
 		f.PathType, f.Path = URIPathGlob, path.UriPathGlob
+	default:
+		return fmt.Errorf("%w: local file without a path", substraitgo.ErrInvalidRel)
 	}
 
 	switch format := p.GetFileFormat().(type) {
@@ -577,7 +592,10 @@ func (f *FileOrFiles) fromProto(p *proto.ReadRel_LocalFiles_FileOrFiles) {
 		f.Format = (*OrcReadOptions)(format.Orc)
 	case *proto.ReadRel_LocalFiles_FileOrFiles_Parquet:
 		f.Format = (*ParquetReadOptions)(format.Parquet)
+	case *proto.ReadRel_LocalFiles_FileOrFiles_Text:
+		f.Format = (*TextReadOptions)(format.Text)
 	}
+	return nil
 }
 
 func (f *FileOrFiles) ToProto() *proto.ReadRel_LocalFiles_FileOrFiles {
@@ -614,6 +632,10 @@ func (f *FileOrFiles) ToProto() *proto.ReadRel_LocalFiles_FileOrFiles {
 		ret.FileFormat = &proto.ReadRel_LocalFiles_FileOrFiles_Dwrf{
 			Dwrf: (*proto.ReadRel_LocalFiles_FileOrFiles_DwrfReadOptions)(fm),
 		}
+	case *TextReadOptions:
+		ret.FileFormat = &proto.ReadRel_LocalFiles_FileOrFiles_Text{
+			Text: (*proto.ReadRel_LocalFiles_FileOrFiles_DelimiterSeparatedTextReadOptions)(fm),
+		}
 	case *ExtensionReadOptions:
 		ret.FileFormat = &proto.ReadRel_LocalFiles_FileOrFiles_Extension{
 			Extension: (*anypb.Any)(fm),
@@ -2055,6 +2077,14 @@ func comparisonJoinKeysFromProto(
 	return out, nil
 }
 
+type BuildInput = proto.HashJoinRel_BuildInput
+
+const (
+	BuildInputUnspecified = proto.HashJoinRel_BUILD_INPUT_UNSPECIFIED
+	BuildInputLeft        = proto.HashJoinRel_BUILD_INPUT_LEFT
+	BuildInputRight       = proto.HashJoinRel_BUILD_INPUT_RIGHT
+)
+
 // HashJoinRel represents a relational operator to build a hash table out
 // of the right input based on a set of join keys. It will then probe
 // the hash table for incoming inputs, finding matches.
@@ -2065,6 +2095,7 @@ type HashJoinRel struct {
 	keys           []*ComparisonJoinKey
 	postJoinFilter expr.Expression
 	joinType       HashMergeJoinType
+	buildInput     BuildInput
 	advExtension   *extensions.AdvancedExtension
 }
 
@@ -2096,6 +2127,9 @@ func (hr *HashJoinRel) PostJoinFilter() expr.Expression {
 	return hr.postJoinFilter
 }
 func (hr *HashJoinRel) Type() HashMergeJoinType { return hr.joinType }
+
+// BuildInput returns the input of which the hash table is built.
+func (hr *HashJoinRel) BuildInput() BuildInput { return hr.buildInput }
 func (hr *HashJoinRel) GetAdvancedExtension() *extensions.AdvancedExtension {
 	return hr.advExtension
 }
@@ -2113,6 +2147,7 @@ func (hr *HashJoinRel) ToProto() *proto.Rel {
 			Right:             hr.right.ToProto(),
 			Keys:              comparisonJoinKeysToProto(hr.keys),
 			Type:              proto.HashJoinRel_JoinType(hr.joinType),
+			BuildInput:        hr.buildInput,
 			AdvancedExtension: hr.advExtension,
 		},
 	}
-- 
2.43.0


From c0a950f9def0714f8fb297c82defb090181e2d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:28 +0000
Subject: [PATCH 34/69] fix: aggregates over several grouping sets have the
 columns of all sets and the set index

---
 plan/plan.go      | 22 +++++++++++-----------
 plan/relations.go | 41 +++++++++++++++++++++++++++++++++++++----
 2 files changed, 48 insertions(+), 15 deletions(-)

diff --git a/plan/plan.go b/plan/plan.go
index 93ed32a..403af47 100644
--- a/plan/plan.go
+++ b/plan/plan.go
@@ -241,11 +241,11 @@ func FromProtoWithDecoder(plan *proto.Plan, c *extensions.Collection, decoders m
 		return nil, err
 	}
 	ret := &Plan{
-		version:          plan.Version,
+		version:          plan.GetVersion(),
 		extensions:       extSet,
-		advExtension:     plan.AdvancedExtensions,
-		expectedTypeURLs: plan.ExpectedTypeUrls,
-		relations:        make([]Relation, len(plan.Relations)),
+		advExtension:     plan.GetAdvancedExtensions(),
+		expectedTypeURLs: plan.GetExpectedTypeUrls(),
+		relations:        make([]Relation, len(plan.GetRelations())),
 	}
 
 	ret.reg = expr.NewExtensionRegistry(ret.extensions, c)
@@ -255,22 +255,22 @@ func FromProtoWithDecoder(plan *proto.Plan, c *extensions.Collection, decoders m
 			return nil, err
 		}
 	}
-	for i, r := range plan.Relations {
+	for i, r := range plan.GetRelations() {
 		if err := ret.relations[i].FromProto(r, ret.reg); err != nil {
 			return nil, err
 		}
 	}
 
-	if len(plan.ParameterBindings) > 0 {
-		ret.parameterBindings = make([]DynamicParameterBinding, len(plan.ParameterBindings))
-		for i, pb := range plan.ParameterBindings {
-			value := expr.LiteralFromProto(pb.Value)
+	if len(plan.GetParameterBindings()) > 0 {
+		ret.parameterBindings = make([]DynamicParameterBinding, len(plan.GetParameterBindings()))
+		for i, pb := range plan.GetParameterBindings() {
+			value := expr.LiteralFromProto(pb.GetValue())
 			if value == nil {
 				return nil, fmt.Errorf("%w: invalid literal bound to dynamic parameter %d",
-					substraitgo.ErrInvalidExpr, pb.ParameterAnchor)
+					substraitgo.ErrInvalidExpr, pb.GetParameterAnchor())
 			}
 			ret.parameterBindings[i] = DynamicParameterBinding{
-				ParameterAnchor: pb.ParameterAnchor,
+				ParameterAnchor: pb.GetParameterAnchor(),
 				Value:           value,
 			}
 		}
diff --git a/plan/relations.go b/plan/relations.go
index d975c6c..da68ac1 100644
--- a/plan/relations.go
+++ b/plan/relations.go
@@ -1163,12 +1163,27 @@ type AggregateRel struct {
 	advExtension        *extensions.AdvancedExtension
 }
 
+// directOutputSchema gives the grouping expressions followed by the measures.
+// With several grouping sets the expressions of all sets are given once each,
+// nullable if a set is without them, and the index of the set comes last.
 func (ar *AggregateRel) directOutputSchema() types.RecordType {
 	groupTypes := make([]types.Type, 0, len(ar.groupingReferences)+len(ar.measures))
-	for _, g := range ar.groupingReferences {
-		for _, e := range g {
-			expression := ar.groupingExpressions[e]
-			groupTypes = append(groupTypes, expression.GetType())
+	if len(ar.groupingReferences) > 1 {
+		for _, ref := range distinctReferences(ar.groupingReferences) {
+			t := ar.groupingExpressions[ref].GetType()
+			if slices.ContainsFunc(ar.groupingReferences, func(set []uint32) bool {
+				return !slices.Contains(set, ref)
+			}) {
+				t = t.WithNullability(types.NullabilityNullable)
+			}
+			groupTypes = append(groupTypes, t)
+		}
+	} else {
+		for _, g := range ar.groupingReferences {
+			for _, e := range g {
+				expression := ar.groupingExpressions[e]
+				groupTypes = append(groupTypes, expression.GetType())
+			}
 		}
 	}
 
@@ -1176,9 +1191,27 @@ func (ar *AggregateRel) directOutputSchema() types.RecordType {
 		groupTypes = append(groupTypes, m.measure.GetType())
 	}
 
+	if len(ar.groupingReferences) > 1 {
+		groupTypes = append(groupTypes, &types.Int32Type{Nullability: types.NullabilityRequired})
+	}
+
 	return *types.NewRecordTypeFromTypes(groupTypes)
 }
 
+// distinctReferences returns the references of all sets in order of their
+// first appearance.
+func distinctReferences(sets [][]uint32) []uint32 {
+	var out []uint32
+	for _, set := range sets {
+		for _, ref := range set {
+			if !slices.Contains(out, ref) {
+				out = append(out, ref)
+			}
+		}
+	}
+	return out
+}
+
 func (ar *AggregateRel) RecordType() types.RecordType {
 	return ar.remap(ar.directOutputSchema())
 }
-- 
2.43.0


From 6f9cd8b4bd6eb8caa0d61c0885f0bc85edc2a02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:50 +0000
Subject: [PATCH 35/69] fix: function calls of the deprecated form are refused
 instead of losing their arguments

---
 expr/expression.go | 6 ++++++
 expr/functions.go  | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/expr/expression.go b/expr/expression.go
index 1bb2e0a..7159650 100644
--- a/expr/expression.go
+++ b/expr/expression.go
@@ -75,6 +75,9 @@ func ExprFromProto(e *proto.Expression, baseSchema *types.RecordType, reg Extens
 		return FieldReferenceFromProto(et.Selection, baseSchema, reg)
 	case *proto.Expression_ScalarFunction_:
 		var err error
+		if len(et.ScalarFunction.Args) > 0 {
+			return nil, fmt.Errorf("%w: deprecated function args, use arguments", substraitgo.ErrNotImplemented)
+		}
 		args := make([]types.FuncArg, len(et.ScalarFunction.Arguments))
 		for i, a := range et.ScalarFunction.Arguments {
 			if args[i], err = FuncArgFromProto(a, baseSchema, reg); err != nil {
@@ -109,6 +112,9 @@ func ExprFromProto(e *proto.Expression, baseSchema *types.RecordType, reg Extens
 		}, nil
 	case *proto.Expression_WindowFunction_:
 		var err error
+		if len(et.WindowFunction.Args) > 0 {
+			return nil, fmt.Errorf("%w: deprecated function args, use arguments", substraitgo.ErrNotImplemented)
+		}
 		args := make([]types.FuncArg, len(et.WindowFunction.Arguments))
 		for i, a := range et.WindowFunction.Arguments {
 			if args[i], err = FuncArgFromProto(a, baseSchema, reg); err != nil {
diff --git a/expr/functions.go b/expr/functions.go
index c37c032..8751077 100644
--- a/expr/functions.go
+++ b/expr/functions.go
@@ -874,6 +874,9 @@ func NewAggregateFunctionFromProto(
 		return nil, err
 	}
 
+	if len(agg.Args) > 0 {
+		return nil, fmt.Errorf("%w: deprecated function args, use arguments", substraitgo.ErrNotImplemented)
+	}
 	args := make([]types.FuncArg, len(agg.Arguments))
 	for i, a := range agg.Arguments {
 		if args[i], err = FuncArgFromProto(a, baseSchema, reg); err != nil {
-- 
2.43.0


From aa263dd471c7b1e19faa37d36fc54dee34160fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:18 +0000
Subject: [PATCH 36/69] fix: copies of relations are independent, rewriting
 reaches all expressions and needs no changed filter

---
 plan/relations.go | 164 +++++++++++++++++++++++++++++++++-------------
 1 file changed, 119 insertions(+), 45 deletions(-)

diff --git a/plan/relations.go b/plan/relations.go
index da68ac1..650e10a 100644
--- a/plan/relations.go
+++ b/plan/relations.go
@@ -158,6 +158,27 @@ func (b *baseReadRel) updateFilters(filters []expr.Expression) {
 	b.filter, b.bestEffortFilter = filters[0], filters[1]
 }
 
+// rewriteOptional rewrites an expression that may be missing.
+func rewriteOptional(rewriteFunc RewriteFunc, e expr.Expression) (expr.Expression, error) {
+	if e == nil {
+		return nil, nil
+	}
+	return rewriteFunc(e)
+}
+
+// rewriteSorts rewrites the expressions of sort fields and reports whether
+// any of them has changed.
+func rewriteSorts(rewriteFunc RewriteFunc, sorts []expr.SortField) (out []expr.SortField, changed bool, err error) {
+	out = slices.Clone(sorts)
+	for i, s := range sorts {
+		if out[i].Expr, err = rewriteFunc(s.Expr); err != nil {
+			return nil, false, err
+		}
+		changed = changed || out[i].Expr != s.Expr
+	}
+	return out, changed, nil
+}
+
 // isSequentialFromZero checks if the given slice of integers is a sequence starting from zero
 // where each element in the slice is equal to its index.
 func isSequentialFromZero(order []int32) bool {
@@ -186,7 +207,7 @@ func RemapHelper(r Rel, mapping []int32) (Rel, error) {
 		if idx < 0 || idx >= nOutput {
 			return nil, errOutputMappingOutOfRange
 		}
-		if len(oldMapping) > 0 {
+		if oldMapping != nil {
 			newMapping = append(newMapping, oldMapping[idx])
 		} else {
 			newMapping = append(newMapping, idx)
@@ -244,7 +265,8 @@ func (n *NamedTableReadRel) ToProto() *proto.Rel {
 }
 
 func (n *NamedTableReadRel) Copy(_ ...Rel) (Rel, error) {
-	return n, nil
+	out := *n
+	return &out, nil
 }
 
 func (n *NamedTableReadRel) CopyWithExpressionRewrite(rewriteFunc RewriteFunc, _ ...Rel) (Rel, error) {
@@ -303,7 +325,8 @@ func (v *VirtualTableReadRel) ToProtoPlanRel() *proto.PlanRel {
 }
 
 func (v *VirtualTableReadRel) Copy(_ ...Rel) (Rel, error) {
-	return v, nil
+	out := *v
+	return &out, nil
 }
 
 func (v *VirtualTableReadRel) CopyWithExpressionRewrite(rewriteFunc RewriteFunc, _ ...Rel) (Rel, error) {
@@ -311,28 +334,23 @@ func (v *VirtualTableReadRel) CopyWithExpressionRewrite(rewriteFunc RewriteFunc,
 	if err != nil {
 		return nil, err
 	}
-	if slices.Equal(newExprs, v.getExpressions()) {
-		return v, nil
-	}
-	vtr := *v
-	vtr.updateFilters(newExprs)
-	valuesUnchanged := true
+	unchanged := slices.Equal(newExprs, v.getExpressions())
 	newValues := make([]expr.VirtualTableExpressionValue, len(v.values))
 	for i, val := range v.values {
-		newExprs := make([]expr.Expression, len(val))
+		newValues[i] = make([]expr.Expression, len(val))
 		for j, e := range val {
-			newExpr, err := rewriteFunc(e)
-			if err != nil {
+			if newValues[i][j], err = rewriteFunc(e); err != nil {
 				return nil, err
 			}
-			valuesUnchanged = valuesUnchanged && newExpr.Equals(e)
-			newExprs[j] = newExpr
 		}
-		newValues[i] = newExprs
+		unchanged = unchanged && slices.Equal(newValues[i], val)
 	}
-	if !valuesUnchanged {
-		vtr.values = newValues
+	if unchanged {
+		return v, nil
 	}
+	vtr := *v
+	vtr.updateFilters(newExprs)
+	vtr.values = newValues
 	return &vtr, nil
 }
 
@@ -374,7 +392,8 @@ func (e *ExtensionTableReadRel) ToProtoPlanRel() *proto.PlanRel {
 }
 
 func (e *ExtensionTableReadRel) Copy(_ ...Rel) (Rel, error) {
-	return e, nil
+	out := *e
+	return &out, nil
 }
 
 func (e *ExtensionTableReadRel) CopyWithExpressionRewrite(rewriteFunc RewriteFunc, _ ...Rel) (Rel, error) {
@@ -491,7 +510,8 @@ func (n *IcebergTableReadRel) ToProto() *proto.Rel {
 }
 
 func (n *IcebergTableReadRel) Copy(_ ...Rel) (Rel, error) {
-	return n, nil
+	out := *n
+	return &out, nil
 }
 
 func (n *IcebergTableReadRel) CopyWithExpressionRewrite(rewriteFunc RewriteFunc, _ ...Rel) (Rel, error) {
@@ -695,7 +715,8 @@ func (lf *LocalFileReadRel) ToProtoPlanRel() *proto.PlanRel {
 }
 
 func (lf *LocalFileReadRel) Copy(_ ...Rel) (Rel, error) {
-	return lf, nil
+	out := *lf
+	return &out, nil
 }
 
 func (lf *LocalFileReadRel) CopyWithExpressionRewrite(rewriteFunc RewriteFunc, _ ...Rel) (Rel, error) {
@@ -959,14 +980,16 @@ func (j *JoinRel) CopyWithExpressionRewrite(rewriteFunc RewriteFunc, newInputs .
 	if len(newInputs) != 2 {
 		return nil, substraitgo.ErrInvalidInputCount
 	}
-	var err error
 	currExprs := []expr.Expression{j.expr, j.postJoinFilter}
-	exprs := make([]expr.Expression, 2)
-	for i, e := range currExprs {
-		if exprs[i], err = rewriteFunc(e); err != nil {
-			return nil, err
-		}
+	newExpr, err := rewriteFunc(j.expr)
+	if err != nil {
+		return nil, err
 	}
+	newFilter, err := rewriteOptional(rewriteFunc, j.postJoinFilter)
+	if err != nil {
+		return nil, err
+	}
+	exprs := []expr.Expression{newExpr, newFilter}
 	if slices.Equal(exprs, currExprs) && slices.Equal(newInputs, j.GetInputs()) {
 		return j, nil
 	}
@@ -1316,9 +1339,14 @@ func (ar *AggregateRel) rewriteAggregateFunc(rewriteFunc RewriteFunc, f *expr.Ag
 			argsAreEqual = argsAreEqual && exp == newExp
 		}
 	}
-	if argsAreEqual {
+	sorts, sortsChanged, err := rewriteSorts(rewriteFunc, f.Sorts)
+	if err != nil {
+		return nil, err
+	}
+	if argsAreEqual && !sortsChanged {
 		return f, nil
 	}
+	newF.Sorts = sorts
 	return newF, nil
 }
 
@@ -1338,7 +1366,7 @@ func (ar *AggregateRel) CopyWithExpressionRewrite(rewriteFunc RewriteFunc, newIn
 	measuresAreEqual := true
 	newMeasures := make([]AggRelMeasure, len(ar.measures))
 	for i, m := range ar.measures {
-		if newMeasures[i].filter, err = rewriteFunc(m.filter); err != nil {
+		if newMeasures[i].filter, err = rewriteOptional(rewriteFunc, m.filter); err != nil {
 			return nil, err
 		}
 		if newMeasures[i].measure, err = ar.rewriteAggregateFunc(rewriteFunc, m.measure); err != nil {
@@ -1443,17 +1471,11 @@ func (sr *SortRel) CopyWithExpressionRewrite(rewriteFunc RewriteFunc, newInputs
 	if len(newInputs) != 1 {
 		return nil, substraitgo.ErrInvalidInputCount
 	}
-	var err error
-	sortExpressionsAreEqual := true
-	sorts := make([]expr.SortField, len(sr.sorts))
-	for i, s := range sr.sorts {
-		if sorts[i].Expr, err = rewriteFunc(s.Expr); err != nil {
-			return nil, err
-		}
-		sortExpressionsAreEqual = sortExpressionsAreEqual && sorts[i].Expr == s.Expr
-		sorts[i].Kind = s.Kind
+	sorts, changed, err := rewriteSorts(rewriteFunc, sr.sorts)
+	if err != nil {
+		return nil, err
 	}
-	if sortExpressionsAreEqual && newInputs[0] == sr.input {
+	if !changed && newInputs[0] == sr.input {
 		return sr, nil
 	}
 	sort := *sr
@@ -1612,8 +1634,11 @@ func (s *SetRel) GetInputs() []Rel {
 }
 
 func (s *SetRel) Copy(newInputs ...Rel) (Rel, error) {
+	if len(newInputs) < 2 {
+		return nil, substraitgo.ErrInvalidInputCount
+	}
 	set := *s
-	set.inputs = newInputs
+	set.inputs = slices.Clone(newInputs)
 	return &set, nil
 }
 
@@ -1788,7 +1813,8 @@ func (el *ExtensionLeafRel) GetInputs() []Rel {
 }
 
 func (el *ExtensionLeafRel) Copy(_ ...Rel) (Rel, error) {
-	return el, nil
+	out := *el
+	return &out, nil
 }
 
 func (el *ExtensionLeafRel) CopyWithExpressionRewrite(_ RewriteFunc, _ ...Rel) (Rel, error) {
@@ -1852,8 +1878,11 @@ func (em *ExtensionMultiRel) GetInputs() []Rel {
 }
 
 func (em *ExtensionMultiRel) Copy(newInputs ...Rel) (Rel, error) {
+	if len(newInputs) == 0 && len(em.inputs) > 0 {
+		return nil, substraitgo.ErrInvalidInputCount
+	}
 	proj := *em
-	proj.inputs = newInputs
+	proj.inputs = slices.Clone(newInputs)
 	return &proj, nil
 }
 
@@ -2032,6 +2061,37 @@ func tryEqualityJoinKeysToLegacyProto(keys []*ComparisonJoinKey) (leftKeys, righ
 	return leftKeys, rightKeys, true
 }
 
+// rewriteJoinKeys rewrites the field references of join keys, which have to
+// stay field references, and reports whether any of them has changed.
+func rewriteJoinKeys(rewriteFunc RewriteFunc, keys []*ComparisonJoinKey) (out []*ComparisonJoinKey, changed bool, err error) {
+	rewrite := func(ref *expr.FieldReference) (*expr.FieldReference, error) {
+		e, err := rewriteFunc(ref)
+		if err != nil {
+			return nil, err
+		}
+		newRef, ok := e.(*expr.FieldReference)
+		if !ok {
+			return nil, fmt.Errorf("%w: join key must be a field reference, not %T", substraitgo.ErrInvalidRel, e)
+		}
+		changed = changed || newRef != ref
+		return newRef, nil
+	}
+
+	out = make([]*ComparisonJoinKey, len(keys))
+	for i, k := range keys {
+		left, err := rewrite(k.left)
+		if err != nil {
+			return nil, false, err
+		}
+		right, err := rewrite(k.right)
+		if err != nil {
+			return nil, false, err
+		}
+		out[i] = NewComparisonJoinKey(left, right, k.comparison)
+	}
+	return out, changed, nil
+}
+
 // leftJoinKeys returns the left-hand field references of the given join keys.
 func leftJoinKeys(keys []*ComparisonJoinKey) []*expr.FieldReference {
 	out := make([]*expr.FieldReference, len(keys))
@@ -2223,16 +2283,23 @@ func (hr *HashJoinRel) CopyWithExpressionRewrite(rewriteFunc RewriteFunc, newInp
 	if len(newInputs) != 2 {
 		return nil, substraitgo.ErrInvalidInputCount
 	}
-	newExpr, err := rewriteFunc(hr.postJoinFilter)
+	newExpr, err := rewriteOptional(rewriteFunc, hr.postJoinFilter)
 	if err != nil {
 		return nil, err
 	}
-	if newExpr == hr.postJoinFilter && slices.Equal(newInputs, hr.GetInputs()) {
+	keys, keysChanged, err := rewriteJoinKeys(rewriteFunc, hr.keys)
+	if err != nil {
+		return nil, err
+	}
+	if newExpr == hr.postJoinFilter && !keysChanged && slices.Equal(newInputs, hr.GetInputs()) {
 		return hr, nil
 	}
 	join := *hr
 	join.left, join.right = newInputs[0], newInputs[1]
 	join.postJoinFilter = newExpr
+	if keysChanged {
+		join.keys = keys
+	}
 	return &join, nil
 }
 
@@ -2340,16 +2407,23 @@ func (mr *MergeJoinRel) CopyWithExpressionRewrite(rewriteFunc RewriteFunc, newIn
 	if len(newInputs) != 2 {
 		return nil, substraitgo.ErrInvalidInputCount
 	}
-	newExpr, err := rewriteFunc(mr.postJoinFilter)
+	newExpr, err := rewriteOptional(rewriteFunc, mr.postJoinFilter)
 	if err != nil {
 		return nil, err
 	}
-	if newExpr == mr.postJoinFilter && slices.Equal(newInputs, mr.GetInputs()) {
+	keys, keysChanged, err := rewriteJoinKeys(rewriteFunc, mr.keys)
+	if err != nil {
+		return nil, err
+	}
+	if newExpr == mr.postJoinFilter && !keysChanged && slices.Equal(newInputs, mr.GetInputs()) {
 		return mr, nil
 	}
 	merge := *mr
 	merge.left, merge.right = newInputs[0], newInputs[1]
 	merge.postJoinFilter = newExpr
+	if keysChanged {
+		merge.keys = keys
+	}
 	return &merge, nil
 }
 
-- 
2.43.0


From 4b11a03fa537f337717b271d0f795d2766014ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:40 +0000
Subject: [PATCH 37/69] fix: the plan builder refuses invalid parts and keeps
 the relations besides the root, bindings are checked against all parameters

---
 plan/builders.go | 150 +++++++++++++++++++++++++++++++++--------------
 plan/common.go   | 101 ++++++++++++++++++++++++++-----
 2 files changed, 192 insertions(+), 59 deletions(-)

diff --git a/plan/builders.go b/plan/builders.go
index 481b105..7e51b5d 100644
--- a/plan/builders.go
+++ b/plan/builders.go
@@ -10,6 +10,7 @@ import (
 	"github.com/substrait-io/substrait-go/v8/expr"
 	"github.com/substrait-io/substrait-go/v8/extensions"
 	"github.com/substrait-io/substrait-go/v8/types"
+	proto "github.com/substrait-io/substrait-protobuf/go/substraitpb"
 	"google.golang.org/protobuf/types/known/anypb"
 )
 
@@ -241,18 +242,26 @@ func (b *builder) UserDefinedType(nameSpace, typeName string, params ...types.Ty
 }
 
 func (b *builder) JoinedRecordFieldRef(left, right Rel, index int32) (*expr.FieldReference, error) {
-	baseTypes := append(left.RecordType().Types(), right.RecordType().Types()...)
-	if index < 0 || index > int32(len(baseTypes)) {
+	if left == nil || right == nil {
+		return nil, errNilInputRel
+	}
+
+	base := left.RecordType().Concat(right.RecordType())
+	if index < 0 || index >= base.FieldCount() {
 		return nil, fmt.Errorf("%w: cannot create field ref index %d, only %d fields to reference",
-			substraitgo.ErrInvalidArg, index, len(baseTypes))
+			substraitgo.ErrInvalidArg, index, base.FieldCount())
 	}
 
-	return expr.NewRootFieldRef(expr.NewStructFieldRef(index), types.NewRecordTypeFromTypes(baseTypes))
+	return expr.NewRootFieldRef(expr.NewStructFieldRef(index), &base)
 }
 
 func (b *builder) RootFieldRef(input Rel, index int32) (*expr.FieldReference, error) {
+	if input == nil {
+		return nil, errNilInputRel
+	}
+
 	base := input.RecordType()
-	if index < 0 || index > base.FieldCount() {
+	if index < 0 || index >= base.FieldCount() {
 		return nil, fmt.Errorf("%w: cannot create field ref index %d, only %d fields in rel",
 			substraitgo.ErrInvalidArg, index, base.FieldCount())
 	}
@@ -284,6 +293,12 @@ func (b *builder) ProjectRemap(input Rel, remap []int32, exprs ...expr.Expressio
 		return nil, fmt.Errorf("%w: must provide at least one expression for project relation", substraitgo.ErrInvalidRel)
 	}
 
+	for i, e := range exprs {
+		if e == nil || e.GetType() == nil {
+			return nil, fmt.Errorf("%w: expression %d of project relation has no type", substraitgo.ErrInvalidRel, i)
+		}
+	}
+
 	noutput := input.RecordType().FieldCount() + int32(len(exprs))
 	for _, idx := range remap {
 		if idx < 0 || idx >= noutput {
@@ -340,20 +355,13 @@ func (b *builder) CreateTableAsSelectRemap(input Rel, remap []int32, tableName [
 		return nil, errNilInputRel
 	}
 
-	nOutput := input.RecordType().FieldCount()
-	for _, idx := range remap {
-		if idx < 0 || idx >= nOutput {
-			return nil, errOutputMappingOutOfRange
-		}
-	}
-
-	return &NamedTableWriteRel{
+	return newNamedWrite(&NamedTableWriteRel{
 		RelCommon:   RelCommon{mapping: remap},
 		names:       tableName,
 		tableSchema: schema,
 		op:          WriteOpCTAS,
 		input:       input,
-	}, nil
+	})
 }
 
 func (b *builder) CreateTableAsSelect(input Rel, tableName []string, schema types.NamedStruct) (*NamedTableWriteRel, error) {
@@ -387,6 +395,13 @@ func (b *builder) FetchRemap(input Rel, offset, count int64, remap []int32) (*Fe
 		return nil, errNilInputRel
 	}
 
+	if offset < 0 {
+		return nil, fmt.Errorf("%w: fetch offset must not be negative, got %d", substraitgo.ErrInvalidArg, offset)
+	}
+	if count < FETCH_COUNT_ALL_RECORDS {
+		return nil, fmt.Errorf("%w: fetch count must not be negative, got %d", substraitgo.ErrInvalidArg, count)
+	}
+
 	noutput := input.RecordType().FieldCount()
 	for _, idx := range remap {
 		if idx < 0 || idx >= noutput {
@@ -415,12 +430,12 @@ func (b *builder) FilterRemap(input Rel, condition expr.Expression, remap []int3
 			substraitgo.ErrInvalidRel)
 	}
 
-	if !condition.GetType().WithNullability(types.NullabilityUnspecified).Equals(&types.BooleanType{}) {
+	if !isBoolean(condition) {
 		return nil, fmt.Errorf("%w: condition for Filter Relation must yield boolean, not %s",
 			substraitgo.ErrInvalidArg, condition.GetType())
 	}
 
-	noutput := input.directOutputSchema().FieldCount()
+	noutput := input.RecordType().FieldCount()
 	for _, idx := range remap {
 		if idx < 0 || idx >= noutput {
 			return nil, errOutputMappingOutOfRange
@@ -436,6 +451,12 @@ func (b *builder) FilterRemap(input Rel, condition expr.Expression, remap []int3
 	}, nil
 }
 
+// isBoolean reports whether an expression yields a boolean, nullable or not.
+func isBoolean(e expr.Expression) bool {
+	_, ok := e.GetType().(*types.BooleanType)
+	return ok
+}
+
 func (b *builder) Filter(input Rel, condition expr.Expression) (*FilterRel, error) {
 	return b.FilterRemap(input, condition, nil)
 }
@@ -450,7 +471,7 @@ func (b *builder) JoinAndFilterRemap(left, right Rel, condition, postJoinFilter
 			substraitgo.ErrInvalidRel)
 	}
 
-	if !condition.GetType().WithNullability(types.NullabilityUnspecified).Equals(&types.BooleanType{}) {
+	if !isBoolean(condition) {
 		return nil, fmt.Errorf("%w: condition for Join Relation must yield boolean, not %s",
 			substraitgo.ErrInvalidArg, condition.GetType())
 	}
@@ -459,9 +480,12 @@ func (b *builder) JoinAndFilterRemap(left, right Rel, condition, postJoinFilter
 		return nil, fmt.Errorf("%w: join type must not be unspecified for Join relations",
 			substraitgo.ErrInvalidArg)
 	}
+	if _, ok := proto.JoinRel_JoinType_name[int32(joinType)]; !ok {
+		return nil, fmt.Errorf("%w: unknown join type %d for Join relations", substraitgo.ErrInvalidArg, joinType)
+	}
 
 	if postJoinFilter != nil {
-		if !postJoinFilter.GetType().WithNullability(types.NullabilityUnspecified).Equals(&types.BooleanType{}) {
+		if !isBoolean(postJoinFilter) {
 			return nil, fmt.Errorf("%w: post join filter must be either nil or yield a boolean, not %s",
 				substraitgo.ErrInvalidArg, postJoinFilter.GetType())
 		}
@@ -501,20 +525,29 @@ func (b *builder) NamedWriteRemap(input Rel, op WriteOp, tableName []string, sch
 		return nil, errNilInputRel
 	}
 
-	nOutput := input.RecordType().FieldCount()
-	for _, idx := range remap {
-		if idx < 0 || idx >= nOutput {
-			return nil, errOutputMappingOutOfRange
-		}
+	if _, ok := proto.WriteRel_WriteOp_name[int32(op)]; !ok || op == WriteOpUnspecified {
+		return nil, fmt.Errorf("%w: operation for write relation must be specified", substraitgo.ErrInvalidArg)
 	}
 
-	return &NamedTableWriteRel{
+	return newNamedWrite(&NamedTableWriteRel{
 		RelCommon:   RelCommon{mapping: remap},
 		names:       tableName,
 		tableSchema: schema,
 		op:          op,
 		input:       input,
-	}, nil
+	})
+}
+
+// newNamedWrite checks the schema of a write and that its mapping selects
+// columns of what the write outputs.
+func newNamedWrite(write *NamedTableWriteRel) (*NamedTableWriteRel, error) {
+	if err := write.tableSchema.Validate(); err != nil {
+		return nil, err
+	}
+	if err := checkMapping(write); err != nil {
+		return nil, err
+	}
+	return write, nil
 }
 
 func (b *builder) NamedWrite(input Rel, op WriteOp, tableName []string, schema types.NamedStruct) (*NamedTableWriteRel, error) {
@@ -576,10 +609,25 @@ func (b *builder) VirtualTableFromExprRemap(fieldNames []string, remap []int32,
 		return nil, fmt.Errorf("%w: must provide at least one set of values. Consider EmptyVirtualTable to construct rowless Virtual Table", substraitgo.ErrInvalidArg)
 	}
 
-	nfields := len(fieldNames)
-	if len(values[0]) != nfields {
-		return nil, fmt.Errorf("%w: mismatched number of fields (%d) and literal values (%d) in virtual table",
-			substraitgo.ErrInvalidRel, nfields, len(values[0]))
+	nfields := len(values[0])
+	typeList := make([]types.Type, nfields)
+	for r, row := range values {
+		if len(row) != nfields {
+			return nil, fmt.Errorf("%w: mismatched number of values in virtual table, found %d in row %d, expected %d",
+				substraitgo.ErrInvalidRel, len(row), r, nfields)
+		}
+		for j, v := range row {
+			if v == nil || v.GetType() == nil {
+				return nil, fmt.Errorf("%w: value without a type in virtual table, row %d col %d",
+					substraitgo.ErrInvalidRel, r, j)
+			}
+			if r == 0 {
+				typeList[j] = v.GetType()
+			} else if !typeList[j].Equals(v.GetType()) {
+				return nil, fmt.Errorf("%w: inconsistent literal types for virtual table, found %s in col %d, expected %s",
+					substraitgo.ErrInvalidRel, v.GetType(), j, typeList[j])
+			}
+		}
 	}
 
 	for _, idx := range remap {
@@ -589,20 +637,6 @@ func (b *builder) VirtualTableFromExprRemap(fieldNames []string, remap []int32,
 		}
 	}
 
-	typeList := make([]types.Type, nfields)
-	for i, v := range values[0] {
-		typeList[i] = v.GetType()
-	}
-
-	for _, row := range values[1:] {
-		for j, v := range row {
-			if !typeList[j].Equals(v.GetType()) {
-				return nil, fmt.Errorf("%w: inconsistent literal types for virtual table, found %s in col %d, expected %s",
-					substraitgo.ErrInvalidRel, v.GetType(), j, typeList[j].GetType())
-			}
-		}
-	}
-
 	baseSchema := types.NamedStruct{
 		Names: fieldNames,
 		Struct: types.StructType{
@@ -610,6 +644,10 @@ func (b *builder) VirtualTableFromExprRemap(fieldNames []string, remap []int32,
 			Types:       typeList,
 		},
 	}
+	if expected := baseSchema.Struct.DepthFirstNameCount(); len(fieldNames) != expected {
+		return nil, fmt.Errorf("%w: mismatched number of fields (%d) and literal values (%d) in virtual table",
+			substraitgo.ErrInvalidRel, len(fieldNames), expected)
+	}
 
 	return &VirtualTableReadRel{
 		baseReadRel: baseReadRel{
@@ -632,6 +670,9 @@ func (b *builder) EmptyVirtualTable(fieldNames []string, typeList []types.Type)
 			Types:       typeList,
 		},
 	}
+	if err := baseSchema.Validate(); err != nil {
+		return nil, err
+	}
 	return &VirtualTableReadRel{
 		baseReadRel: baseReadRel{
 			baseSchema: baseSchema,
@@ -649,6 +690,10 @@ func (b *builder) ExtensionTable(detail *anypb.Any, schema types.NamedStruct) *E
 }
 
 func (b *builder) IcebergTableFromMetadataFile(metadataURI string, snapshot IcebergSnapshot, schema types.NamedStruct) (*IcebergTableReadRel, error) {
+	if err := schema.Validate(); err != nil {
+		return nil, err
+	}
+
 	tableType := &Direct{}
 	tableType.MetadataUri = metadataURI
 	tableType.snapshot = snapshot
@@ -685,6 +730,12 @@ func (b *builder) SortRemap(input Rel, remap []int32, sorts ...expr.SortField) (
 		return nil, fmt.Errorf("%w: must provide at least one SortField for sort relation", substraitgo.ErrInvalidRel)
 	}
 
+	for i, sort := range sorts {
+		if sort.Expr == nil || sort.Kind == nil {
+			return nil, fmt.Errorf("%w: sort field %d is not complete", substraitgo.ErrInvalidRel, i)
+		}
+	}
+
 	return &SortRel{
 		RelCommon: RelCommon{mapping: remap},
 		input:     input,
@@ -712,6 +763,9 @@ func (b *builder) SetRemap(op SetOp, remap []int32, inputs ...Rel) (*SetRel, err
 	if op == SetOpUnspecified {
 		return nil, fmt.Errorf("%w: operation for set relation must not be unspecified", substraitgo.ErrInvalidArg)
 	}
+	if _, ok := proto.SetRel_SetOp_name[int32(op)]; !ok {
+		return nil, fmt.Errorf("%w: unknown operation %d for set relation", substraitgo.ErrInvalidArg, op)
+	}
 
 	if len(inputs) < 2 {
 		return nil, fmt.Errorf("%w: must have at least 2 relations for a set relation, got %d",
@@ -770,7 +824,13 @@ func (b *builder) PlanWithBindings(root Rel, rootNames []string, expectedTypeURL
 		return nil, err
 	}
 
-	if err := ValidateParameterBindings(root, bindings); err != nil {
+	for i, o := range others {
+		if o == nil {
+			return nil, fmt.Errorf("%w: relation %d besides the root must not be nil", substraitgo.ErrInvalidRel, i)
+		}
+	}
+
+	if err := validateParameterBindings(append([]Rel{root}, others...), bindings); err != nil {
 		return nil, err
 	}
 
@@ -780,7 +840,7 @@ func (b *builder) PlanWithBindings(root Rel, rootNames []string, expectedTypeURL
 	}
 
 	for i, o := range others {
-		relations[i].rel = o
+		relations[i+1].rel = o
 	}
 
 	reg := b.reg
diff --git a/plan/common.go b/plan/common.go
index 49d2f99..a9ddc15 100644
--- a/plan/common.go
+++ b/plan/common.go
@@ -33,29 +33,44 @@ type DynamicParameterBinding struct {
 //   - A binding whose value type does not match the parameter's declared type
 //     (ignoring nullability).
 func ValidateParameterBindings(root Rel, bindings []DynamicParameterBinding) error {
+	return validateParameterBindings([]Rel{root}, bindings)
+}
+
+// validateParameterBindings checks bindings against the parameters of all
+// relations of a plan.
+func validateParameterBindings(rels []Rel, bindings []DynamicParameterBinding) error {
 	if len(bindings) == 0 {
 		return nil
 	}
 
 	// Collect all DynamicParameter output types keyed by anchor.
-	paramTypes := make(map[uint32]types.Type)
-	collectDynamicParams(root, paramTypes)
+	paramTypes := make(map[uint32][]types.Type)
+	for _, rel := range rels {
+		collectDynamicParams(rel, paramTypes)
+	}
 
 	for _, b := range bindings {
-		declaredType, ok := paramTypes[b.ParameterAnchor]
-		if !ok {
+		declaredTypes := paramTypes[b.ParameterAnchor]
+		if len(declaredTypes) == 0 {
 			return fmt.Errorf("%w: parameter binding references anchor %d, "+
 				"but no DynamicParameter with that reference exists in the plan",
 				substraitgo.ErrInvalidPlan, b.ParameterAnchor)
 		}
 
+		if b.Value == nil {
+			return fmt.Errorf("%w: parameter binding for anchor %d has no value",
+				substraitgo.ErrInvalidPlan, b.ParameterAnchor)
+		}
+
 		// Compare ignoring nullability.
 		bindingType := b.Value.GetType().WithNullability(types.NullabilityUnspecified)
-		expectedType := declaredType.WithNullability(types.NullabilityUnspecified)
-		if !bindingType.Equals(expectedType) {
-			return fmt.Errorf("%w: parameter binding for anchor %d has type %s, "+
-				"but DynamicParameter declares type %s",
-				substraitgo.ErrInvalidPlan, b.ParameterAnchor, b.Value.GetType(), declaredType)
+		for _, declaredType := range declaredTypes {
+			expectedType := declaredType.WithNullability(types.NullabilityUnspecified)
+			if !bindingType.Equals(expectedType) {
+				return fmt.Errorf("%w: parameter binding for anchor %d has type %s, "+
+					"but DynamicParameter declares type %s",
+					substraitgo.ErrInvalidPlan, b.ParameterAnchor, b.Value.GetType(), declaredType)
+			}
 		}
 	}
 
@@ -64,7 +79,7 @@ func ValidateParameterBindings(root Rel, bindings []DynamicParameterBinding) err
 
 // collectDynamicParams walks a relation tree and records the OutputType
 // of every DynamicParameter expression it encounters.
-func collectDynamicParams(rel Rel, out map[uint32]types.Type) {
+func collectDynamicParams(rel Rel, out map[uint32][]types.Type) {
 	if rel == nil {
 		return
 	}
@@ -77,8 +92,19 @@ func collectDynamicParams(rel Rel, out map[uint32]types.Type) {
 	// Walk expressions owned by this relation.
 	walkRelExprs(rel, func(e expr.Expression) {
 		walkExpr(e, func(inner expr.Expression) {
-			if dp, ok := inner.(*expr.DynamicParameter); ok {
-				out[dp.ParameterReference] = dp.OutputType
+			switch inner := inner.(type) {
+			case *expr.DynamicParameter:
+				if inner.OutputType != nil {
+					out[inner.ParameterReference] = append(out[inner.ParameterReference], inner.OutputType)
+				}
+			case *ScalarSubquery:
+				collectDynamicParams(inner.Input, out)
+			case *InPredicateSubquery:
+				collectDynamicParams(inner.Haystack, out)
+			case *SetPredicateSubquery:
+				collectDynamicParams(inner.Tuples, out)
+			case *SetComparisonSubquery:
+				collectDynamicParams(inner.Right, out)
 			}
 		})
 	})
@@ -87,6 +113,16 @@ func collectDynamicParams(rel Rel, out map[uint32]types.Type) {
 // walkRelExprs invokes fn for every top-level expression in a relation.
 func walkRelExprs(rel Rel, fn func(expr.Expression)) {
 	switch r := rel.(type) {
+	case ReadRel:
+		fn(r.Filter())
+		fn(r.BestEffortFilter())
+		if vt, ok := r.(*VirtualTableReadRel); ok {
+			for _, row := range vt.values {
+				for _, e := range row {
+					fn(e)
+				}
+			}
+		}
 	case *FilterRel:
 		fn(r.Condition())
 	case *ProjectRel:
@@ -95,13 +131,45 @@ func walkRelExprs(rel Rel, fn func(expr.Expression)) {
 		}
 	case *JoinRel:
 		fn(r.Expr())
-		if pjf := r.PostJoinFilter(); pjf != nil {
-			fn(pjf)
+		fn(r.postJoinFilter)
+	case *HashJoinRel:
+		fn(r.postJoinFilter)
+	case *MergeJoinRel:
+		fn(r.postJoinFilter)
+	case *AggregateRel:
+		for _, e := range r.groupingExpressions {
+			fn(e)
+		}
+		for _, m := range r.measures {
+			fn(m.filter)
+			if m.measure == nil {
+				continue
+			}
+			for i := 0; i < m.measure.NArgs(); i++ {
+				if arg, ok := m.measure.Arg(i).(expr.Expression); ok {
+					fn(arg)
+				}
+			}
+			for _, sf := range m.measure.Sorts {
+				fn(sf.Expr)
+			}
 		}
 	case *SortRel:
 		for _, sf := range r.Sorts() {
 			fn(sf.Expr)
 		}
+	case *ExtensionSingleRel:
+		for _, e := range r.definition.Expressions(r.GetInputs()) {
+			fn(e)
+		}
+	case *ExtensionLeafRel:
+		for _, e := range r.definition.Expressions(r.GetInputs()) {
+			fn(e)
+		}
+	case *ExtensionMultiRel:
+		for _, e := range r.definition.Expressions(r.GetInputs()) {
+			fn(e)
+		}
 	}
 }
 
@@ -111,6 +179,11 @@ func walkExpr(e expr.Expression, fn func(expr.Expression)) {
 		return
 	}
 	fn(e)
+	if ref, ok := e.(*expr.FieldReference); ok {
+		if root, ok := ref.Root.(expr.Expression); ok {
+			walkExpr(root, fn)
+		}
+	}
 	e.Visit(func(child expr.Expression) expr.Expression {
 		walkExpr(child, fn)
 		return child
-- 
2.43.0


From b37f7e6bd10d05c0483f55279f07f85e089e6a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:08 +0000
Subject: [PATCH 38/69] fix: aggregate builders share equal grouping keys, keep
 the settings of the relation they are made from and no slices of the caller

---
 plan/builders.go  | 28 +++++++++++++++++++++-------
 plan/relations.go |  1 +
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/plan/builders.go b/plan/builders.go
index 7e51b5d..493281a 100644
--- a/plan/builders.go
+++ b/plan/builders.go
@@ -879,6 +879,9 @@ func (r *RelBuilder) AggregateRel(input Rel, measures []AggRelMeasure) *Aggregat
 }
 
 type AggregateRelBuilder struct {
+	common       RelCommon
+	advExtension *extensions.AdvancedExtension
+
 	input               Rel
 	measures            []AggRelMeasure
 	groupingExpressions []expr.Expression
@@ -886,9 +889,10 @@ type AggregateRelBuilder struct {
 }
 
 // AddExpression adds an expression to the expression map and returns an expression reference.
+// An expression equal to one that was added before gets the same reference.
 func (arb *AggregateRelBuilder) AddExpression(e expr.Expression) uint32 {
 	for idx, expr := range arb.groupingExpressions {
-		if expr == e {
+		if expr == e || (expr != nil && e != nil && expr.Equals(e)) {
 			return uint32(idx)
 		}
 	}
@@ -936,14 +940,14 @@ func extractGroup(expressionReferences []uint32, combinationIndex int) []uint32
 // AddRollup constructs the rollup grouping strategy from the provided grouping references.
 func (arb *AggregateRelBuilder) AddRollup(groupingReferences []uint32) {
 	for i := len(groupingReferences); i > 0; i-- {
-		rollupSet := groupingReferences[:i]
+		rollupSet := slices.Clone(groupingReferences[:i])
 		arb.groupingReferences = append(arb.groupingReferences, rollupSet)
 	}
 }
 
 // AddGroupingSet adds a new grouping set based on the provided grouping references.
 func (arb *AggregateRelBuilder) AddGroupingSet(groupingReferences []uint32) {
-	arb.groupingReferences = append(arb.groupingReferences, groupingReferences)
+	arb.groupingReferences = append(arb.groupingReferences, slices.Clone(groupingReferences))
 }
 
 func (arb *AggregateRelBuilder) ReplaceInput(rel *Rel) {
@@ -965,12 +969,16 @@ func (arb *AggregateRelBuilder) Build() (*AggregateRel, error) {
 	}
 
 	aggregateRel := &AggregateRel{
-		RelCommon: RelCommon{},
+		RelCommon:    arb.common,
+		advExtension: arb.advExtension,
 	}
 	aggregateRel.SetInput(arb.input)
-	aggregateRel.SetMeasures(arb.measures)
-	aggregateRel.SetGroupingExpressions(arb.groupingExpressions)
-	aggregateRel.SetGroupingReferences(arb.groupingReferences)
+	aggregateRel.SetMeasures(slices.Clone(arb.measures))
+	aggregateRel.SetGroupingExpressions(slices.Clone(arb.groupingExpressions))
+	aggregateRel.SetGroupingReferences(slices.Clone(arb.groupingReferences))
+	if err := checkMapping(aggregateRel); err != nil {
+		return nil, err
+	}
 
 	return aggregateRel, nil
 }
@@ -994,6 +1002,12 @@ func (arb *AggregateRelBuilder) validate() error {
 		return errNoGroupingExpression
 	}
 
+	for i, m := range arb.measures {
+		if m.measure == nil {
+			return fmt.Errorf("%w: measure %d of aggregate relation is missing", substraitgo.ErrInvalidRel, i)
+		}
+	}
+
 	for _, refList := range arb.groupingReferences {
 		for _, ref := range refList {
 			if ref >= uint32(len(arb.groupingExpressions)) {
diff --git a/plan/relations.go b/plan/relations.go
index 650e10a..35cfbf2 100644
--- a/plan/relations.go
+++ b/plan/relations.go
@@ -1317,6 +1317,7 @@ func (ar *AggregateRel) ToBuilder() *AggregateRelBuilder {
 	newGroupingReferences := make([][]uint32, len(ar.groupingReferences))
 	copy(newGroupingReferences, ar.groupingReferences)
 	return &AggregateRelBuilder{
+		common: ar.RelCommon, advExtension: ar.advExtension,
 		input: newInput, measures: newMeasures,
 		groupingExpressions: newGroupingExpressions, groupingReferences: newGroupingReferences}
 }
-- 
2.43.0


From 1bad9b909aa73f8a9fb2bea5547aed0bf66ae634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:58 +0000
Subject: [PATCH 39/69] fix: scalar subqueries over extension relations without
 known columns are errors

---
 plan/subquery.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/plan/subquery.go b/plan/subquery.go
index 9c9896c..e369aa1 100644
--- a/plan/subquery.go
+++ b/plan/subquery.go
@@ -28,11 +28,9 @@ func (r *ExpressionConverter) SubqueryFromProto(sub *proto.Expression_Subquery,
 		if err != nil {
 			return nil, err
 		}
-		if isRecordTypeSupported(rel) {
-			if schema := rel.RecordType(); len(schema.Types()) != 1 {
-				return nil, fmt.Errorf("%w: a scalar subquery must return exactly one column, found %d",
-					substraitgo.ErrInvalidRel, len(schema.Types()))
-			}
+		if schema := rel.RecordType(); len(schema.Types()) != 1 {
+			return nil, fmt.Errorf("%w: a scalar subquery must return exactly one column, found %d",
+				substraitgo.ErrInvalidRel, len(schema.Types()))
 		}
 		return NewScalarSubquery(rel), nil
 
-- 
2.43.0


From f31d3daa5fdad9de7cf367f71d8a6c42a5be2083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:39 +0000
Subject: [PATCH 40/69] fix: the plan builder refuses subqueries with unknown
 operations and scalar subqueries without exactly one column

---
 plan/builders.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/plan/builders.go b/plan/builders.go
index 493281a..0229573 100644
--- a/plan/builders.go
+++ b/plan/builders.go
@@ -1056,6 +1056,9 @@ func (b *builder) SetPredicateSubquery(input Rel, predicateOp SetPredicateOp) (*
 	if predicateOp == SetPredicateOpUnspecified {
 		return nil, fmt.Errorf("predicateOp must be specified")
 	}
+	if _, ok := proto.Expression_Subquery_SetPredicate_PredicateOp_name[int32(predicateOp)]; !ok {
+		return nil, fmt.Errorf("%w: unknown predicateOp %d", substraitgo.ErrInvalidExpr, predicateOp)
+	}
 
 	return NewSetPredicateSubquery(
 		predicateOp,
@@ -1068,6 +1071,12 @@ func (b *builder) ScalarSubquery(input Rel) (*ScalarSubquery, error) {
 		return nil, errNilInputRel
 	}
 
+	schema := input.RecordType()
+	if schema.FieldCount() != 1 {
+		return nil, fmt.Errorf("%w: scalar subquery must return exactly one column, got %d",
+			substraitgo.ErrInvalidExpr, schema.FieldCount())
+	}
+
 	return NewScalarSubquery(input), nil
 }
 
@@ -1087,6 +1096,12 @@ func (b *builder) SetComparisonSubquery(
 	if comparisonOp == SetComparisonComparisonOpUnspecified {
 		return nil, fmt.Errorf("comparisonOp must be specified")
 	}
+	if _, ok := proto.Expression_Subquery_SetComparison_ReductionOp_name[int32(reductionOp)]; !ok {
+		return nil, fmt.Errorf("%w: unknown reductionOp %d", substraitgo.ErrInvalidExpr, reductionOp)
+	}
+	if _, ok := proto.Expression_Subquery_SetComparison_ComparisonOp_name[int32(comparisonOp)]; !ok {
+		return nil, fmt.Errorf("%w: unknown comparisonOp %d", substraitgo.ErrInvalidExpr, comparisonOp)
+	}
 
 	if left == nil {
 		return nil, errNilInputRel
-- 
2.43.0


From 5b368975792e8707bb3bcdbe70a10db8789e37a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:42 +0000
Subject: [PATCH 41/69] fix: nested expressions and lambdas over parts of
 unknown type have no known type

---
 expr/expression.go | 27 ++++++++++++++++++++-------
 expr/lambda.go     |  7 ++++++-
 2 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/expr/expression.go b/expr/expression.go
index 7159650..0d8a194 100644
--- a/expr/expression.go
+++ b/expr/expression.go
@@ -1381,11 +1381,16 @@ func (ex *MapExpr) GetType() types.Type {
 	// there *should* be at least one element in the keyvalues,
 	// otherwise an EmptyMap literal should be used in order
 	// to ensure type information is not lost
+	key, value := ex.KeyValues[0].Key.GetType(), ex.KeyValues[0].Value.GetType()
+	if key == nil || value == nil {
+		// not known for references that were read without a schema
+		return nil
+	}
 	return &types.MapType{
 		Nullability:      getNullability(ex.Nullable),
 		TypeVariationRef: ex.TypeVariationRef,
-		Key:              ex.KeyValues[0].Key.GetType(),
-		Value:            ex.KeyValues[0].Value.GetType(),
+		Key:              key,
+		Value:            value,
 	}
 }
 
@@ -1506,7 +1511,10 @@ func (ex *StructExpr) IsScalar() bool {
 func (ex *StructExpr) GetType() types.Type {
 	typs := make([]types.Type, len(ex.Fields))
 	for i, f := range ex.Fields {
-		typs[i] = f.GetType()
+		// not known for references that were read without a schema
+		if typs[i] = f.GetType(); typs[i] == nil {
+			return nil
+		}
 	}
 	return &types.StructType{
 		Nullability:      getNullability(ex.Nullable),
@@ -1623,13 +1631,18 @@ func (ex *ListExpr) IsScalar() bool {
 }
 
 func (ex *ListExpr) GetType() types.Type {
+	// to specify an empty list, use an emptylist literal
+	// otherwise you will be missing type information.
+	// thus we should assume there's at least one value
+	element := ex.Values[0].GetType()
+	if element == nil {
+		// not known for references that were read without a schema
+		return nil
+	}
 	return &types.ListType{
 		Nullability:      getNullability(ex.Nullable),
 		TypeVariationRef: ex.TypeVariationRef,
-		// to specify an empty list, use an emptylist literal
-		// otherwise you will be missing type information.
-		// thus we should assume there's at least one value
-		Type: ex.Values[0].GetType(),
+		Type:             element,
 	}
 }
 
diff --git a/expr/lambda.go b/expr/lambda.go
index 093ee07..53266b0 100644
--- a/expr/lambda.go
+++ b/expr/lambda.go
@@ -35,10 +35,15 @@ func (l *Lambda) IsScalar() bool {
 }
 
 func (l *Lambda) GetType() types.Type {
+	result := l.Body.GetType()
+	if result == nil {
+		// not known for references that were read without a schema
+		return nil
+	}
 	return &types.FuncType{
 		Nullability:    types.NullabilityRequired,
 		ParameterTypes: l.Parameters.Types,
-		ReturnType:     l.Body.GetType(),
+		ReturnType:     result,
 	}
 }
 
-- 
2.43.0


From ac89620c87ee9eac7b10ae34011d6d50da629a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:42 +0000
Subject: [PATCH 42/69] fix: missing extended expressions, masks and struct
 literals and incomplete paths are read without a panic

---
 expr/expression.go      | 12 ++++++------
 expr/field_reference.go | 19 ++++++++++++++-----
 expr/literals.go        |  4 ++--
 3 files changed, 22 insertions(+), 13 deletions(-)

diff --git a/expr/expression.go b/expr/expression.go
index 0d8a194..53e7685 100644
--- a/expr/expression.go
+++ b/expr/expression.go
@@ -1768,15 +1768,15 @@ func ExtendedFromProto(ex *proto.ExtendedExpression, c *extensions.Collection) (
 		return nil, err
 	}
 	var (
-		base = types.NewNamedStructFromProto(ex.BaseSchema)
+		base = types.NewNamedStructFromProto(ex.GetBaseSchema())
 		reg  = NewExtensionRegistry(extSet, c)
-		refs = make([]ExpressionReference, len(ex.ReferredExpr))
+		refs = make([]ExpressionReference, len(ex.GetReferredExpr()))
 	)
 	if err := base.Validate(); err != nil {
 		return nil, err
 	}
 
-	for i, r := range ex.ReferredExpr {
+	for i, r := range ex.GetReferredExpr() {
 		refs[i].OutputNames = r.OutputNames
 		switch et := r.ExprType.(type) {
 		case *proto.ExpressionReference_Expression:
@@ -1800,12 +1800,12 @@ func ExtendedFromProto(ex *proto.ExtendedExpression, c *extensions.Collection) (
 	}
 
 	return &Extended{
-		Version:          ex.Version,
+		Version:          ex.GetVersion(),
 		Extensions:       extSet,
 		ReferredExpr:     refs,
 		BaseSchema:       base,
-		AdvancedExts:     ex.AdvancedExtensions,
-		ExpectedTypeURLs: ex.ExpectedTypeUrls,
+		AdvancedExts:     ex.GetAdvancedExtensions(),
+		ExpectedTypeURLs: ex.GetExpectedTypeUrls(),
 		reg:              reg,
 	}, nil
 }
diff --git a/expr/field_reference.go b/expr/field_reference.go
index 77f3f34..dafa9b4 100644
--- a/expr/field_reference.go
+++ b/expr/field_reference.go
@@ -49,7 +49,16 @@ type ReferenceSegment interface {
 	Equals(ReferenceSegment) bool
 }
 
+// RefSegmentFromProto gives nil for a missing or incomplete path.
 func RefSegmentFromProto(p *proto.Expression_ReferenceSegment) ReferenceSegment {
+	seg := refSegmentFromProto(p)
+	if validateRefSegment(seg) != nil {
+		return nil
+	}
+	return seg
+}
+
+func refSegmentFromProto(p *proto.Expression_ReferenceSegment) ReferenceSegment {
 	if p == nil {
 		return nil
 	}
@@ -58,17 +67,17 @@ func RefSegmentFromProto(p *proto.Expression_ReferenceSegment) ReferenceSegment
 	case *proto.Expression_ReferenceSegment_MapKey_:
 		return &MapKeyRef{
 			MapKey: LiteralFromProto(seg.MapKey.MapKey),
-			Child:  RefSegmentFromProto(seg.MapKey.Child),
+			Child:  refSegmentFromProto(seg.MapKey.Child),
 		}
 	case *proto.Expression_ReferenceSegment_StructField_:
 		return &StructFieldRef{
 			Field: seg.StructField.Field,
-			Child: RefSegmentFromProto(seg.StructField.Child),
+			Child: refSegmentFromProto(seg.StructField.Child),
 		}
 	case *proto.Expression_ReferenceSegment_ListElement_:
 		return &ListElementRef{
 			Offset: seg.ListElement.Offset,
-			Child:  RefSegmentFromProto(seg.ListElement.Child),
+			Child:  refSegmentFromProto(seg.ListElement.Child),
 		}
 	}
 
@@ -350,7 +359,7 @@ func MaskExpressionFromProto(p *proto.Expression_MaskExpression) *MaskExpression
 			sel[i].child = maskSelectFromProto(item.Child)
 		}
 	}
-	return &MaskExpression{sel: sel, maintainSingular: p.MaintainSingularStruct}
+	return &MaskExpression{sel: sel, maintainSingular: p.GetMaintainSingularStruct()}
 }
 
 // maskSelectFromProto gives nil for a missing selection.
@@ -890,7 +899,7 @@ func FieldReferenceFromProto(p *proto.Expression_FieldReference, baseSchema *typ
 
 	switch rt := p.GetReferenceType().(type) {
 	case *proto.Expression_FieldReference_DirectReference:
-		refseg := RefSegmentFromProto(rt.DirectReference)
+		refseg := refSegmentFromProto(rt.DirectReference)
 		if err := validateRefSegment(refseg); err != nil {
 			return nil, err
 		}
diff --git a/expr/literals.go b/expr/literals.go
index 9f3838d..694cb95 100644
--- a/expr/literals.go
+++ b/expr/literals.go
@@ -58,8 +58,8 @@ type (
 
 // Deprecated: use VirtualTableExprFromLiteralProto
 func StructLiteralFromProto(s *proto.Expression_Literal_Struct) StructLiteralValue {
-	fields := make(StructLiteralValue, len(s.Fields))
-	for i, f := range s.Fields {
+	fields := make(StructLiteralValue, len(s.GetFields()))
+	for i, f := range s.GetFields() {
 		fields[i] = LiteralFromProto(f)
 	}
 	return fields
-- 
2.43.0


From 75c989fe9b5dd7c7bc9e88b73d2905df6f8c4c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:45 +0000
Subject: [PATCH 43/69] fix: local function names that are names of other
 functions do not hide functions of a dialect

---
 functions/dialect.go | 45 ++++++++++++++++++++++++--------------------
 1 file changed, 25 insertions(+), 20 deletions(-)

diff --git a/functions/dialect.go b/functions/dialect.go
index 3efba63..a372856 100644
--- a/functions/dialect.go
+++ b/functions/dialect.go
@@ -5,6 +5,7 @@ package functions
 import (
 	"fmt"
 	"io"
+	"slices"
 	"strings"
 
 	"github.com/creasty/defaults"
@@ -109,40 +110,44 @@ func makeLocalFunctionVariantMapAndSlice[T withID, V localFunctionVariant](
 	processedFunctions := make(map[extensions.FunctionID]bool)
 	variantsMap := make(map[FunctionName][]V)
 	variantsSlice := make([]V, 0)
-	for _, dfi := range dialectFunctionInfos {
-		if _, nameAlreadyProcessed := variantsMap[LocalFunctionName(dfi.Name)]; nameAlreadyProcessed {
-			if _, ok := processedFunctions[dfi.ID]; !ok {
-				var invocationType V
-				return nil, fmt.Errorf("%w: no %s function variant found for '%s'", substraitgo.ErrInvalidDialect, invocationType.InvocationTypeName(), dfi.ID)
-			}
-			continue
-		}
-
+	for _, name := range functionNames(dialectFunctionInfos) {
 		localVariantArray := make([]V, 0)
-		for _, f := range getFunctionVariants(dfi.Name) {
-			if _, alreadyProcessed := processedFunctions[f.ID()]; !alreadyProcessed {
-				if dfi1, ok := dialectFunctionInfos[f.ID()]; ok {
-					localVariantArray = append(localVariantArray, createLocalVariant(f, dfi1))
-					processedFunctions[f.ID()] = true
-				}
+		for _, f := range getFunctionVariants(name) {
+			dfi, ok := dialectFunctionInfos[f.ID()]
+			if !ok || processedFunctions[f.ID()] {
+				continue
 			}
-		}
-		if _, ok := processedFunctions[dfi.ID]; !ok {
-			var invocationType V
-			return nil, fmt.Errorf("%w: no %s function variant found for '%s'", substraitgo.ErrInvalidDialect, invocationType.InvocationTypeName(), dfi.ID)
+			localVariantArray = append(localVariantArray, createLocalVariant(f, dfi))
+			processedFunctions[f.ID()] = true
 		}
 		if len(localVariantArray) > 0 {
-			addToSliceMap(variantsMap, SubstraitFunctionName(dfi.Name), localVariantArray)
+			addToSliceMap(variantsMap, SubstraitFunctionName(name), localVariantArray)
 			addToSliceMapWithLocalKey(variantsMap, localVariantArray)
 			variantsSlice = append(variantsSlice, localVariantArray...)
 		}
 	}
+	for id := range dialectFunctionInfos {
+		if !processedFunctions[id] {
+			var invocationType V
+			return nil, fmt.Errorf("%w: no %s function variant found for '%s'", substraitgo.ErrInvalidDialect, invocationType.InvocationTypeName(), id)
+		}
+	}
 	return &mapAndSlice[V]{
 		variantsMap:   variantsMap,
 		variantsSlice: variantsSlice,
 	}, nil
 }
 
+// functionNames returns the sorted names of the functions.
+func functionNames(dialectFunctionInfos map[extensions.FunctionID]*dialectFunctionInfo) []string {
+	names := make([]string, 0, len(dialectFunctionInfos))
+	for _, dfi := range dialectFunctionInfos {
+		names = append(names, dfi.Name)
+	}
+	slices.Sort(names)
+	return slices.Compact(names)
+}
+
 func addToSliceMap[K FunctionName, V extensions.FunctionVariant](m map[FunctionName][]V, key K, value []V) {
 	if _, ok := m[key]; !ok {
 		m[key] = make([]V, 0)
-- 
2.43.0


From 2834db23ed29b08506b91b78d7e15e13729ff261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:15 +0000
Subject: [PATCH 44/69] fix: functions are found by the argument counts they
 accept

---
 functions/functions.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/functions/functions.go b/functions/functions.go
index 77b5d77..54172ad 100644
--- a/functions/functions.go
+++ b/functions/functions.go
@@ -78,10 +78,18 @@ func (f *functionRegistryImpl) GetWindowFunctions(name string, numArgs int) []*e
 	return getFunctionVariantsByCount(f.GetWindowFunctionsByName(name), numArgs)
 }
 
+func acceptsArgumentCount(f extensions.FunctionVariant, numArgs int) bool {
+	if len(f.Args()) == numArgs {
+		return true
+	}
+	// the last parameter is the one that is repeated
+	return f.Variadic().IsValidArgumentCount(numArgs - max(len(f.Args())-1, 0))
+}
+
 func getFunctionVariantsByCount[T extensions.FunctionVariant](functions []T, numArgs int) []T {
 	ret := make([]T, 0)
 	for _, f := range functions {
-		if len(f.Args()) == numArgs || f.Variadic().IsValidArgumentCount(numArgs) {
+		if acceptsArgumentCount(f, numArgs) {
 			ret = append(ret, f)
 		}
 	}
-- 
2.43.0


From 8ecbc30761407ec5e3d589307e3580416af0717d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:55 +0000
Subject: [PATCH 45/69] fix: scalar, aggregate and window functions with the
 same identifier are localized apart

---
 functions/dialect.go         | 15 ++++++------
 functions/local_functions.go | 44 +++++++++++++++---------------------
 2 files changed, 25 insertions(+), 34 deletions(-)

diff --git a/functions/dialect.go b/functions/dialect.go
index a372856..b644c16 100644
--- a/functions/dialect.go
+++ b/functions/dialect.go
@@ -78,14 +78,13 @@ func (d *dialectImpl) LocalizeFunctionRegistry(registry FunctionRegistry) (Local
 	allVariants = appendVariants(allVariants, windowFunctions.variantsSlice)
 
 	return &localFunctionRegistryImpl{
-		dialect:              d,
-		scalarFunctions:      scalarFunctions.variantsMap,
-		aggregateFunctions:   aggregateFunctions.variantsMap,
-		windowFunctions:      windowFunctions.variantsMap,
-		allFunctions:         allVariants,
-		idToLocalFunctionMap: makeLocalFunctionVariantsMap(allVariants),
-		localTypeRegistry:    localTypeRegistry,
-		funcRegistry:         registry,
+		dialect:            d,
+		scalarFunctions:    scalarFunctions.variantsMap,
+		aggregateFunctions: aggregateFunctions.variantsMap,
+		windowFunctions:    windowFunctions.variantsMap,
+		allFunctions:       allVariants,
+		localTypeRegistry:  localTypeRegistry,
+		funcRegistry:       registry,
 	}, nil
 }
 
diff --git a/functions/local_functions.go b/functions/local_functions.go
index 5213d43..93bb50d 100644
--- a/functions/local_functions.go
+++ b/functions/local_functions.go
@@ -2,6 +2,8 @@ package functions
 
 import (
 	"fmt"
+	"slices"
+	"strings"
 
 	"github.com/substrait-io/substrait-go/v8/expr"
 	"github.com/substrait-io/substrait-go/v8/extensions"
@@ -17,24 +19,8 @@ type localFunctionRegistryImpl struct {
 
 	allFunctions []extensions.FunctionVariant
 
-	idToLocalFunctionMap map[extensions.FunctionID]localFunctionVariant
-	localTypeRegistry    LocalTypeRegistry
-	funcRegistry         FunctionRegistry
-}
-
-func makeLocalFunctionVariantsMap(functions []extensions.FunctionVariant) map[extensions.FunctionID]localFunctionVariant {
-	localFunctionVariants := make(map[extensions.FunctionID]localFunctionVariant)
-	for _, f := range functions {
-		switch variant := f.(type) {
-		case *LocalScalarFunctionVariant:
-			localFunctionVariants[variant.ID()] = variant
-		case *LocalAggregateFunctionVariant:
-			localFunctionVariants[variant.ID()] = variant
-		case *LocalWindowFunctionVariant:
-			localFunctionVariants[variant.ID()] = variant
-		}
-	}
-	return localFunctionVariants
+	localTypeRegistry LocalTypeRegistry
+	funcRegistry      FunctionRegistry
 }
 
 func (l *localFunctionRegistryImpl) GetAllFunctions() []extensions.FunctionVariant {
@@ -62,26 +48,32 @@ func (l *localFunctionRegistryImpl) GetWindowFunctions(name FunctionName, numArg
 }
 
 func (l *localFunctionRegistryImpl) GetScalarFunctionByInvocation(scalarFuncInvocation *expr.ScalarFunction) (*LocalScalarFunctionVariant, error) {
-	return getFunctionVariantByInvocation[*LocalScalarFunctionVariant](scalarFuncInvocation, l)
+	return getFunctionVariantByInvocation(scalarFuncInvocation, l.scalarFunctions, l.localTypeRegistry)
 }
 
 func (l *localFunctionRegistryImpl) GetAggregateFunctionByInvocation(aggregateFuncInvocation *expr.AggregateFunction) (*LocalAggregateFunctionVariant, error) {
-	return getFunctionVariantByInvocation[*LocalAggregateFunctionVariant](aggregateFuncInvocation, l)
+	return getFunctionVariantByInvocation(aggregateFuncInvocation, l.aggregateFunctions, l.localTypeRegistry)
 }
 
 func (l *localFunctionRegistryImpl) GetWindowFunctionByInvocation(windowFuncInvocation *expr.WindowFunction) (*LocalWindowFunctionVariant, error) {
-	return getFunctionVariantByInvocation[*LocalWindowFunctionVariant](windowFuncInvocation, l)
+	return getFunctionVariantByInvocation(windowFuncInvocation, l.windowFunctions, l.localTypeRegistry)
 }
 
-func getFunctionVariantByInvocation[V localFunctionVariant](invocation expr.FunctionInvocation, registry *localFunctionRegistryImpl) (V, error) {
+func getFunctionVariantByInvocation[V interface {
+	localFunctionVariant
+	withID
+}](invocation expr.FunctionInvocation, functions map[FunctionName][]V, typeRegistry LocalTypeRegistry) (V, error) {
 	var zeroV V
-	f, ok := registry.idToLocalFunctionMap[invocation.ID()]
-	if !ok {
+	name, _, _ := strings.Cut(invocation.ID().Name, ":")
+	candidates := functions[SubstraitFunctionName(name)]
+	i := slices.IndexFunc(candidates, func(v V) bool { return v.ID() == invocation.ID() })
+	if i < 0 {
 		return zeroV, fmt.Errorf("function variant not found for function: %s", invocation.ID())
 	}
+	f := candidates[i]
 	argTypes := invocation.GetArgTypes()
 	for i, argType := range argTypes {
-		_, err := registry.localTypeRegistry.GetLocalTypeFromSubstraitType(argType)
+		_, err := typeRegistry.GetLocalTypeFromSubstraitType(argType)
 		if err != nil {
 			return zeroV, fmt.Errorf("unsupported substrait type: %v as argument %d in %s", argType, i, invocation.CompoundName())
 		}
@@ -93,7 +85,7 @@ func getFunctionVariantByInvocation[V localFunctionVariant](invocation expr.Func
 			}
 		}
 	}
-	return f.(V), nil
+	return f, nil
 }
 
 var _ LocalFunctionRegistry = &localFunctionRegistryImpl{}
-- 
2.43.0


From 20323a23e6f70276b6c80c2bdfeb5951d495b826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:37 +0000
Subject: [PATCH 46/69] fix: dialect types with a precision are found by their
 parameters

---
 functions/types.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/functions/types.go b/functions/types.go
index 1231556..becbf52 100644
--- a/functions/types.go
+++ b/functions/types.go
@@ -3,6 +3,7 @@
 package functions
 
 import (
+	"fmt"
 	"strconv"
 	"strings"
 
@@ -98,6 +99,27 @@ func getTypeWithParameters(typ types.Type, parameters []int32) (types.Type, erro
 		case *types.VarCharType:
 			return &types.VarCharType{Length: parameters[0]}, nil
 		}
+	case *types.IntervalDayType, *types.PrecisionTimeType, *types.PrecisionTimestampType, *types.PrecisionTimestampTzType:
+		if len(parameters) == 0 {
+			return typ, nil
+		}
+		if len(parameters) != 1 {
+			return nil, substraitgo.ErrInvalidType
+		}
+		precision, err := types.ProtoToTimePrecision(parameters[0])
+		if err != nil {
+			return nil, fmt.Errorf("%w: %w", substraitgo.ErrInvalidType, err)
+		}
+		switch typ.(type) {
+		case *types.IntervalDayType:
+			return &types.IntervalDayType{Precision: precision}, nil
+		case *types.PrecisionTimeType:
+			return types.NewPrecisionTimeType(precision), nil
+		case *types.PrecisionTimestampType:
+			return types.NewPrecisionTimestampType(precision), nil
+		case *types.PrecisionTimestampTzType:
+			return types.NewPrecisionTimestampTzType(precision), nil
+		}
 	default:
 		if len(parameters) != 0 {
 			return nil, substraitgo.ErrInvalidType
-- 
2.43.0


From 5aa4cd2357c6407c6f1993ec4c108c041c469be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:41 +0000
Subject: [PATCH 47/69] fix: negative type parameters in type names are errors

---
 functions/types.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/functions/types.go b/functions/types.go
index becbf52..d6f5bea 100644
--- a/functions/types.go
+++ b/functions/types.go
@@ -138,7 +138,8 @@ func extractTypeAndParameters(typeString string, enclosure typeEnclosure) (strin
 	params := strings.Split(paramStr, ",")
 	parameters := make([]int32, len(params))
 	for i, p := range params {
-		intValue, err := strconv.ParseInt(p, 10, 32)
+		// no parameter is negative
+		intValue, err := strconv.ParseUint(p, 10, 31)
 		if err != nil {
 			return "", nil, err
 		}
-- 
2.43.0


From ab47d2cb66d28e79500874ea127853be11f22f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:03 +0000
Subject: [PATCH 48/69] fix: local type names that contain parameters are found

---
 functions/types.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/functions/types.go b/functions/types.go
index d6f5bea..d7e7581 100644
--- a/functions/types.go
+++ b/functions/types.go
@@ -133,8 +133,10 @@ func extractTypeAndParameters(typeString string, enclosure typeEnclosure) (strin
 	if !strings.Contains(typeString, conStart) || !strings.HasSuffix(typeString, conEnd) {
 		return typeString, nil, nil
 	}
-	baseType := typeString[:strings.Index(typeString, conStart)]
-	paramStr := typeString[strings.Index(typeString, conStart)+1 : len(typeString)-len(conEnd)]
+	// the base type can itself be a local name with parameters
+	start := strings.LastIndex(typeString, conStart)
+	baseType := typeString[:start]
+	paramStr := typeString[start+len(conStart) : len(typeString)-len(conEnd)]
 	params := strings.Split(paramStr, ",")
 	parameters := make([]int32, len(params))
 	for i, p := range params {
@@ -225,6 +227,12 @@ func (t *localTypeRegistryImpl) GetTypeFromTypeString(typeString string) (types.
 }
 
 func (t *localTypeRegistryImpl) GetSubstraitTypeFromLocalType(localType string) (types.Type, error) {
+	if typ, ok := t.localNameToType[localType]; ok {
+		// a local name can look like a type with parameters
+		if typ, err := getTypeWithParameters(typ, nil); err == nil {
+			return typ.WithNullability(types.NullabilityRequired), nil
+		}
+	}
 	return getTypeFromTypeString(localType, t.localNameToType, t)
 }
 
-- 
2.43.0


From 48c67f5c119271b1c10d78ff232eaa57365e9c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:03 +0000
Subject: [PATCH 49/69] fix: the map of supported types can be changed without
 changing the local type registry

---
 functions/types.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/functions/types.go b/functions/types.go
index d7e7581..9b80e9e 100644
--- a/functions/types.go
+++ b/functions/types.go
@@ -4,6 +4,7 @@ package functions
 
 import (
 	"fmt"
+	"maps"
 	"strconv"
 	"strings"
 
@@ -246,7 +247,7 @@ func (t *localTypeRegistryImpl) GetLocalTypeFromSubstraitType(typ types.Type) (s
 }
 
 func (t *localTypeRegistryImpl) GetSupportedTypes() map[string]types.Type {
-	return t.localNameToType
+	return maps.Clone(t.localNameToType)
 }
 
 func (t *localTypeRegistryImpl) IsTypeSupportedInTables(typ types.Type) bool {
-- 
2.43.0


From 970cde556356dfb9798a975d912e12c9fdfbe4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:06 +0000
Subject: [PATCH 50/69] fix: the local type registry of a dialect is created
 once, also by concurrent callers

---
 functions/dialect.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/functions/dialect.go b/functions/dialect.go
index b644c16..792b46d 100644
--- a/functions/dialect.go
+++ b/functions/dialect.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"slices"
 	"strings"
+	"sync"
 
 	"github.com/creasty/defaults"
 	"github.com/goccy/go-yaml"
@@ -40,7 +41,8 @@ type dialectImpl struct {
 	localAggregateFunctions map[extensions.FunctionID]*dialectFunctionInfo
 	localWindowFunctions    map[extensions.FunctionID]*dialectFunctionInfo
 
-	localTypeRegistry LocalTypeRegistry
+	localTypeRegistryMu sync.Mutex
+	localTypeRegistry   LocalTypeRegistry
 }
 
 func (d *dialectImpl) Name() string {
@@ -166,6 +168,8 @@ func addToSliceMapWithLocalKey[V localFunctionVariant](m map[FunctionName][]V, v
 }
 
 func (d *dialectImpl) LocalizeTypeRegistry(TypeRegistry) (LocalTypeRegistry, error) {
+	d.localTypeRegistryMu.Lock()
+	defer d.localTypeRegistryMu.Unlock()
 	if d.localTypeRegistry != nil {
 		return d.localTypeRegistry, nil
 	}
@@ -183,9 +187,6 @@ func (d *dialectImpl) LocalizeTypeRegistry(TypeRegistry) (LocalTypeRegistry, err
 }
 
 func (d *dialectImpl) GetLocalTypeRegistry() (LocalTypeRegistry, error) {
-	if d.localTypeRegistry != nil {
-		return d.localTypeRegistry, nil
-	}
 	return d.LocalizeTypeRegistry(NewTypeRegistry())
 }
 
-- 
2.43.0


From 86c64f8ed9c52d36c9abbfde1cdb3a4480ee6f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:10 +0000
Subject: [PATCH 51/69] fix: dialect types are localized in a fixed order and
 one type only in one way

---
 functions/dialect.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/functions/dialect.go b/functions/dialect.go
index 792b46d..3692fcc 100644
--- a/functions/dialect.go
+++ b/functions/dialect.go
@@ -5,6 +5,7 @@ package functions
 import (
 	"fmt"
 	"io"
+	"maps"
 	"slices"
 	"strings"
 	"sync"
@@ -174,12 +175,18 @@ func (d *dialectImpl) LocalizeTypeRegistry(TypeRegistry) (LocalTypeRegistry, err
 		return d.localTypeRegistry, nil
 	}
 	typeInfos := make([]typeInfo, 0, len(d.toLocalTypeMap))
-	for name, info := range d.toLocalTypeMap {
+	known := make(map[string]dialectTypeInfo)
+	for _, name := range slices.Sorted(maps.Keys(d.toLocalTypeMap)) {
+		info := d.toLocalTypeMap[name]
 		// TODO use registry.GetTypeClasses
 		typ, err := getTypeFromBaseTypeName(name)
 		if err != nil {
 			return nil, fmt.Errorf("%w: unknown type %v", substraitgo.ErrInvalidDialect, name)
 		}
+		if other, ok := known[typ.ShortString()]; ok && other != info {
+			return nil, fmt.Errorf("%w: type %v is supported in two ways", substraitgo.ErrInvalidDialect, name)
+		}
+		known[typ.ShortString()] = info
 		typeInfos = append(typeInfos, typeInfo{typ: typ, shortName: typ.ShortString(), localName: info.SqlTypeName, supportedAsColumn: info.SupportedAsColumn})
 	}
 	d.localTypeRegistry = NewLocalTypeRegistry(typeInfos)
-- 
2.43.0


From 6e20d939c080483ac1e1d965bec5e76553804fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:27 +0000
Subject: [PATCH 52/69] fix: dialects which localize one function in two ways
 are refused

---
 functions/dialect.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/functions/dialect.go b/functions/dialect.go
index 3692fcc..04e03b6 100644
--- a/functions/dialect.go
+++ b/functions/dialect.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"io"
 	"maps"
+	"reflect"
 	"slices"
 	"strings"
 	"sync"
@@ -217,13 +218,17 @@ func (d *dialectImpl) Load(reader io.Reader) error {
 		return err
 	}
 	d.toLocalTypeMap = d.file.SupportedTypes
-	d.localScalarFunctions = d.buildFunctionInfoMap(d.file.ScalarFunctions)
-	d.localAggregateFunctions = d.buildFunctionInfoMap(d.file.AggregateFunctions)
-	d.localWindowFunctions = d.buildFunctionInfoMap(d.file.WindowFunctions)
-	return nil
+	if d.localScalarFunctions, err = d.buildFunctionInfoMap(d.file.ScalarFunctions); err != nil {
+		return err
+	}
+	if d.localAggregateFunctions, err = d.buildFunctionInfoMap(d.file.AggregateFunctions); err != nil {
+		return err
+	}
+	d.localWindowFunctions, err = d.buildFunctionInfoMap(d.file.WindowFunctions)
+	return err
 }
 
-func (d *dialectImpl) buildFunctionInfoMap(functions []dialectFunction) map[extensions.FunctionID]*dialectFunctionInfo {
+func (d *dialectImpl) buildFunctionInfoMap(functions []dialectFunction) (map[extensions.FunctionID]*dialectFunctionInfo, error) {
 	funcMap := make(map[extensions.FunctionID]*dialectFunctionInfo)
 	for _, f := range functions {
 		urn, name := d.file.getUrnAndFunctionName(&f)
@@ -240,10 +245,13 @@ func (d *dialectImpl) buildFunctionInfoMap(functions []dialectFunction) map[exte
 				Notation:  f.GetNotation(),
 				Options:   f.getOptions(),
 			}
+			if other, ok := funcMap[id]; ok && !reflect.DeepEqual(*other, localFunction) {
+				return nil, fmt.Errorf("%w: function '%s' is supported in two ways", substraitgo.ErrInvalidDialect, id)
+			}
 			funcMap[id] = &localFunction
 		}
 	}
-	return funcMap
+	return funcMap, nil
 }
 
 type dialectFile struct {
-- 
2.43.0


From 9e9a2f02308644c0e561988b7867923a2f91abd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:30 +0000
Subject: [PATCH 53/69] fix: a test group doesn't need a description

---
 testcases/parser/visitor.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/testcases/parser/visitor.go b/testcases/parser/visitor.go
index d2b07e1..55b6bfa 100644
--- a/testcases/parser/visitor.go
+++ b/testcases/parser/visitor.go
@@ -96,8 +96,16 @@ func (v *TestCaseVisitor) VisitInclude(ctx *baseparser.IncludeContext) interface
 	return getRawStringFromStringLiteral(ctx.StringLiteral(0).GetText())
 }
 
+// getGroupDescription returns the description of a test group, which is optional.
+func (v *TestCaseVisitor) getGroupDescription(ctx baseparser.ITestGroupDescriptionContext) string {
+	if ctx == nil {
+		return ""
+	}
+	return v.Visit(ctx).(string)
+}
+
 func (v *TestCaseVisitor) VisitScalarFuncTestGroup(ctx *baseparser.ScalarFuncTestGroupContext) interface{} {
-	groupDesc := v.Visit(ctx.TestGroupDescription()).(string)
+	groupDesc := v.getGroupDescription(ctx.TestGroupDescription())
 	groupTestCases := make([]*TestCase, 0, len(ctx.AllTestCase()))
 	if v.testFuncType != ScalarFuncType {
 		v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("expected %v testcase based on test file header, but got scalar function testcase", v.testFuncType))
@@ -113,7 +121,7 @@ func (v *TestCaseVisitor) VisitScalarFuncTestGroup(ctx *baseparser.ScalarFuncTes
 }
 
 func (v *TestCaseVisitor) VisitAggregateFuncTestGroup(ctx *baseparser.AggregateFuncTestGroupContext) interface{} {
-	groupDesc := v.Visit(ctx.TestGroupDescription()).(string)
+	groupDesc := v.getGroupDescription(ctx.TestGroupDescription())
 	groupTestCases := make([]*TestCase, 0, len(ctx.AllAggFuncTestCase()))
 	if v.testFuncType != AggregateFuncType {
 		v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("expected %v testcase based on test file header, but got aggregate function testcase", v.testFuncType))
-- 
2.43.0


From b47ac85f0dc57f67f93acf63f02b7c023a81123f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:30 +0000
Subject: [PATCH 54/69] fix: characters which are no part of any token are
 errors in test files

---
 testcases/parser/parse.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/testcases/parser/parse.go b/testcases/parser/parse.go
index 42e0e2b..9849c88 100644
--- a/testcases/parser/parse.go
+++ b/testcases/parser/parse.go
@@ -38,6 +38,7 @@ func parseTestCasesFromStream(is *antlr.InputStream, debugStr string) (*TestFile
 	stream := antlr.NewCommonTokenStream(lexer, 0)
 	p := baseparser.NewFuncTestCaseParser(stream)
 	errorListener := util.NewSimpleErrorListener()
+	lexer.AddErrorListener(errorListener)
 	p.AddErrorListener(errorListener)
 	p.GetInterpreter().SetPredictionMode(antlr.PredictionModeSLL)
 
-- 
2.43.0


From b861aadbdf22831fca17092620ffe2a24b90a681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:33 +0000
Subject: [PATCH 55/69] fix: integers and floats which don't fit their type are
 errors in test files

---
 testcases/parser/visitor.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/testcases/parser/visitor.go b/testcases/parser/visitor.go
index 55b6bfa..f2dc7bc 100644
--- a/testcases/parser/visitor.go
+++ b/testcases/parser/visitor.go
@@ -545,7 +545,11 @@ func (v *TestCaseVisitor) getLiteralFromString(ctx antlr.ParserRuleContext, valu
 }
 
 func getFloatLiteral(floatStr string, floatType types.Type) (expr.Literal, error) {
-	value, err := strconv.ParseFloat(floatStr, 64)
+	bitSize := 64
+	if _, ok := floatType.(*types.Float32Type); ok {
+		bitSize = 32
+	}
+	value, err := strconv.ParseFloat(floatStr, bitSize)
 	if err != nil {
 		return nil, err
 	}
@@ -561,7 +565,16 @@ func getFloatLiteral(floatStr string, floatType types.Type) (expr.Literal, error
 }
 
 func getIntLiteral(integerStr string, intType types.Type) (expr.Literal, error) {
-	value, err := strconv.ParseInt(integerStr, 10, 64)
+	bitSize := 64
+	switch intType.(type) {
+	case *types.Int8Type:
+		bitSize = 8
+	case *types.Int16Type:
+		bitSize = 16
+	case *types.Int32Type:
+		bitSize = 32
+	}
+	value, err := strconv.ParseInt(integerStr, 10, bitSize)
 	if err != nil {
 		return nil, err
 	}
@@ -595,7 +608,7 @@ func (v *TestCaseVisitor) VisitFloatArg(ctx *baseparser.FloatArgContext) interfa
 	if err != nil {
 		v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("invalid float arg %v", err))
 	}
-	return &CaseLiteral{Value: floatLiteral, ValueText: ctx.NumericLiteral().GetText(), Type: floatLiteral.GetType()}
+	return &CaseLiteral{Value: floatLiteral, ValueText: ctx.NumericLiteral().GetText(), Type: typ}
 }
 
 func (v *TestCaseVisitor) VisitStringArg(ctx *baseparser.StringArgContext) interface{} {
-- 
2.43.0


From 446e0c6d33943fc7b88ef1de3b3560c011723b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:36 +0000
Subject: [PATCH 56/69] fix: strings in test files keep quotes at their ends

---
 testcases/parser/visitor.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/testcases/parser/visitor.go b/testcases/parser/visitor.go
index f2dc7bc..a193e1d 100644
--- a/testcases/parser/visitor.go
+++ b/testcases/parser/visitor.go
@@ -654,8 +654,9 @@ func (v *TestCaseVisitor) VisitTimestampArg(ctx *baseparser.TimestampArgContext)
 	return &CaseLiteral{Value: value, ValueText: ctx.TimestampLiteral().GetText(), Type: &types.TimestampType{Nullability: nullability}}
 }
 
+// getRawStringFromStringLiteral returns the text between the quotes of a literal.
 func getRawStringFromStringLiteral(text string) string {
-	return strings.Trim(text, "'")
+	return strings.TrimSuffix(strings.TrimPrefix(text, "'"), "'")
 }
 
 func (v *TestCaseVisitor) VisitTimestampTzArg(ctx *baseparser.TimestampTzArgContext) interface{} {
-- 
2.43.0


From 78410d3e7322edb38d3d4447c7f855c38973c5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:26 +0000
Subject: [PATCH 57/69] fix: cells of test tables and list elements are read by
 the type declared for them

---
 testcases/parser/visitor.go | 381 +++++++++++++++++++-----------------
 1 file changed, 200 insertions(+), 181 deletions(-)

diff --git a/testcases/parser/visitor.go b/testcases/parser/visitor.go
index a193e1d..a3349dc 100644
--- a/testcases/parser/visitor.go
+++ b/testcases/parser/visitor.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"strconv"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/antlr4-go/antlr/v4"
 	"github.com/substrait-io/substrait-go/v8/expr"
@@ -154,7 +155,7 @@ func (v *TestCaseVisitor) VisitSingleArgAggregateFuncCall(ctx *baseparser.Single
 }
 
 func (v *TestCaseVisitor) VisitCompactAggregateFuncCall(ctx *baseparser.CompactAggregateFuncCallContext) interface{} {
-	rows := v.Visit(ctx.TableRows()).([][]expr.Literal)
+	rows := v.Visit(ctx.TableRows()).([][]baseparser.ILiteralContext)
 	var args []*AggregateArgument
 	if ctx.AggregateFuncArgs() != nil {
 		args = v.Visit(ctx.AggregateFuncArgs()).([]*AggregateArgument)
@@ -226,7 +227,7 @@ func (v *TestCaseVisitor) VisitQualifiedAggregateFuncArg(ctx *baseparser.Qualifi
 
 func (v *TestCaseVisitor) VisitTableData(ctx *baseparser.TableDataContext) interface{} {
 	columnTypes := make([]types.Type, 0, len(ctx.AllDataType()))
-	rows := v.Visit(ctx.TableRows()).([][]expr.Literal)
+	rows := v.Visit(ctx.TableRows()).([][]baseparser.ILiteralContext)
 	for _, dataType := range ctx.AllDataType() {
 		columnType := v.Visit(dataType).(types.Type)
 		columnTypes = append(columnTypes, columnType)
@@ -239,17 +240,16 @@ func (v *TestCaseVisitor) VisitTableData(ctx *baseparser.TableDataContext) inter
 	}
 }
 
-func (v *TestCaseVisitor) getColumnsFromRows(ctx antlr.ParserRuleContext, rows [][]expr.Literal, columnTypes []types.Type) ([][]expr.Literal, []types.Type) {
+func (v *TestCaseVisitor) getColumnsFromRows(ctx antlr.ParserRuleContext, rows [][]baseparser.ILiteralContext, columnTypes []types.Type) ([][]expr.Literal, []types.Type) {
 	columns := make([][]expr.Literal, 0, len(columnTypes))
 	retColumnTypes := make([]types.Type, 0, len(columnTypes))
 	for i, columnType := range columnTypes {
 		newColumnType := columnType
 		column := make([]expr.Literal, 0, len(rows))
 		for _, row := range rows {
-			cell := v.getLiteral(ctx, row[i], columnType)
-			if _, ok := cell.(*expr.NullLiteral); ok {
+			cell := v.getCell(row[i], columnType)
+			if _, ok := cell.(*expr.NullLiteral); ok && columnType != nil {
 				newColumnType = columnType.WithNullability(types.NullabilityNullable)
-				cell = expr.NewNullLiteral(newColumnType)
 			}
 			column = append(column, cell)
 		}
@@ -259,16 +259,33 @@ func (v *TestCaseVisitor) getColumnsFromRows(ctx antlr.ParserRuleContext, rows [
 	return columns, retColumnTypes
 }
 
-func (v *TestCaseVisitor) VisitDataColumn(ctx *baseparser.DataColumnContext) interface{} {
-	columnType := v.Visit(ctx.DataType()).(types.Type)
+// getCell returns a value of a column, of which the type may be nil.
+func (v *TestCaseVisitor) getCell(ctx baseparser.ILiteralContext, columnType types.Type) expr.Literal {
 	v.setLiteralTypeInContext(columnType)
 	defer v.clearLiteralTypeInContext()
-	columnValues := v.Visit(ctx.ColumnValues()).([]expr.Literal)
-	for _, value := range columnValues {
+	cell, _ := v.Visit(ctx).(expr.Literal)
+	return cell
+}
+
+func (v *TestCaseVisitor) VisitDataColumn(ctx *baseparser.DataColumnContext) interface{} {
+	columnType := v.Visit(ctx.DataType()).(types.Type)
+	valueType := columnType
+	switch columnType.(type) {
+	case *types.PrecisionTimestampType:
+		// these columns have plain timestamps as values
+		valueType = &types.TimestampType{Nullability: columnType.GetNullability()}
+	case *types.PrecisionTimestampTzType:
+		valueType = &types.TimestampTzType{Nullability: columnType.GetNullability()}
+	}
+	cells := v.Visit(ctx.ColumnValues()).([]baseparser.ILiteralContext)
+	columnValues := make([]expr.Literal, 0, len(cells))
+	for _, cell := range cells {
+		value := v.getCell(cell, valueType)
 		if _, ok := value.(*expr.NullLiteral); ok {
 			columnType = columnType.WithNullability(types.NullabilityNullable)
-			break
+			value = expr.NewNullLiteral(columnType)
 		}
+		columnValues = append(columnValues, value)
 	}
 	var column expr.Literal
 	if len(columnValues) == 0 {
@@ -290,21 +307,16 @@ func (v *TestCaseVisitor) VisitDataColumn(ctx *baseparser.DataColumnContext) int
 }
 
 func (v *TestCaseVisitor) VisitTableRows(ctx *baseparser.TableRowsContext) interface{} {
-	rows := make([][]expr.Literal, 0, len(ctx.AllColumnValues()))
+	rows := make([][]baseparser.ILiteralContext, 0, len(ctx.AllColumnValues()))
 	for _, row := range ctx.AllColumnValues() {
-		rows = append(rows, v.Visit(row).([]expr.Literal))
+		rows = append(rows, v.Visit(row).([]baseparser.ILiteralContext))
 	}
 	return rows
 }
 
 func (v *TestCaseVisitor) VisitColumnValues(ctx *baseparser.ColumnValuesContext) interface{} {
-	values := make([]expr.Literal, 0, len(ctx.AllLiteral()))
-	for _, literalValue := range ctx.AllLiteral() {
-		if result := v.Visit(literalValue); result != nil {
-			values = append(values, result.(expr.Literal))
-		}
-	}
-	return values
+	// the values can only be read once the type of their column is known
+	return ctx.AllLiteral()
 }
 
 func (v *TestCaseVisitor) VisitAggregateFuncArgs(ctx *baseparser.AggregateFuncArgsContext) interface{} {
@@ -461,89 +473,6 @@ func (v *TestCaseVisitor) VisitBooleanArg(ctx *baseparser.BooleanArgContext) int
 	return &CaseLiteral{Value: boolLiteral, ValueText: ctx.BooleanLiteral().GetText(), Type: &types.BooleanType{Nullability: nullability}}
 }
 
-func (v *TestCaseVisitor) getLiteral(ctx antlr.ParserRuleContext, value expr.Literal, elementType types.Type) expr.Literal {
-	strLiteral, ok := value.(*expr.PrimitiveLiteral[string])
-	if !ok {
-		return value
-	}
-	ret := v.getLiteralFromString(ctx, strLiteral.Value, elementType)
-	if ret == nil {
-		return value
-	}
-	return ret
-}
-
-func (v *TestCaseVisitor) getLiteralFromString(ctx antlr.ParserRuleContext, value string, elementType types.Type) expr.Literal {
-	switch elementType := elementType.(type) {
-	case *types.Int8Type, *types.Int16Type, *types.Int32Type, *types.Int64Type:
-		intLiteral, err := getIntLiteral(value, elementType)
-		if err != nil {
-			v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("invalid int arg %v", err))
-		}
-		return intLiteral
-	case *types.Float32Type, *types.Float64Type:
-		floatLiteral, err := getFloatLiteral(value, elementType)
-		if err != nil {
-			v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("invalid float arg %v", err))
-		}
-		return floatLiteral
-	case *types.StringType:
-		return literal.NewString(value, elementType.GetNullability() == types.NullabilityNullable)
-	case *types.BinaryType:
-		return expr.NewByteSliceLiteral([]byte(value), elementType.GetNullability() == types.NullabilityNullable)
-	case *types.DecimalType:
-		decimal, err := literal.NewDecimalFromString(value, false)
-		if err != nil {
-			v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("invalid decimal arg %v", err))
-			return nil
-		}
-		typed, err := decimal.(expr.WithTypeLiteral).WithType(elementType)
-		if err != nil {
-			v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("invalid decimal arg %v", err))
-			return nil
-		}
-		return typed
-	case *types.FixedCharType:
-		fixedChar, err := literal.NewFixedChar(value, elementType.GetNullability() == types.NullabilityNullable)
-		if err != nil {
-			v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("invalid fixedchar arg %v", err))
-			return nil
-		}
-		typed, err := fixedChar.(expr.WithTypeLiteral).WithType(elementType)
-		if err != nil {
-			v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("invalid fixedchar arg %v", err))
-			return nil
-		}
-		return typed
-	case *types.FixedBinaryType:
-		fixedBinary, err := literal.NewFixedBinary([]byte(value), elementType.GetNullability() == types.NullabilityNullable)
-		if err != nil {
-			v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("invalid fixedbinary arg %v", err))
-			return nil
-		}
-		typed, err := fixedBinary.(expr.WithTypeLiteral).WithType(elementType)
-		if err != nil {
-			v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("invalid fixedbinary arg %v", err))
-			return nil
-		}
-		return typed
-	case *types.VarCharType:
-		varChar, err := literal.NewVarChar(value, elementType.GetNullability() == types.NullabilityNullable)
-		if err != nil {
-			v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("invalid varchar arg %v", err))
-			return nil
-		}
-		typed, err := varChar.(expr.WithTypeLiteral).WithType(elementType)
-		if err != nil {
-			v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("invalid varchar arg %v", err))
-			return nil
-		}
-		return typed
-	default:
-		return nil
-	}
-}
-
 func getFloatLiteral(floatStr string, floatType types.Type) (expr.Literal, error) {
 	bitSize := 64
 	if _, ok := floatType.(*types.Float32Type); ok {
@@ -785,7 +714,11 @@ func (v *TestCaseVisitor) VisitLiteralList(ctx *baseparser.LiteralListContext) i
 
 func (v *TestCaseVisitor) VisitListElement(ctx *baseparser.ListElementContext) interface{} {
 	if ctx.Literal() != nil {
-		return v.Visit(ctx.Literal())
+		result := v.Visit(ctx.Literal())
+		if _, ok := result.(*expr.NullLiteral); ok {
+			v.validateNullLiteralType(ctx, v.getLiteralTypeInContext())
+		}
+		return result
 	}
 	if ctx.LiteralList() != nil {
 		// For nested lists like [[1,2],[3,4]]::list<list<i32>>, the parent context
@@ -819,99 +752,185 @@ func (v *TestCaseVisitor) VisitListElement(ctx *baseparser.ListElementContext) i
 }
 
 func (v *TestCaseVisitor) VisitLiteral(ctx *baseparser.LiteralContext) interface{} {
-	nullable := false
+	var value expr.Literal
+	var err error
 	if literalType := v.getLiteralTypeInContext(); literalType != nil {
-		nullable = literalType.GetNullability() == types.NullabilityNullable
+		value, err = getTypedLiteral(ctx, literalType)
+	} else {
+		// in compactAggregateFuncCall context, the type is not set, full schema of table may not be available
+		value, err = getUntypedLiteral(ctx)
 	}
-	if ctx.BooleanLiteral() != nil {
-		flag := strings.ToLower(ctx.BooleanLiteral().GetText()) == "true"
-		return literal.NewBool(flag, nullable)
+	if err != nil {
+		v.ErrorListener.ReportVisitError(ctx, err)
+		return nil
 	}
-	if ctx.DateLiteral() != nil {
-		dateStr := getRawStringFromStringLiteral(ctx.DateLiteral().GetText())
-		value, err := literal.NewDateFromString(dateStr, nullable)
-		if err != nil {
-			v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("invalid date arg %v", err))
+	return value
+}
+
+// getUntypedLiteral returns a literal of which only the text is known, numbers as strings.
+func getUntypedLiteral(ctx *baseparser.LiteralContext) (expr.Literal, error) {
+	switch {
+	case ctx.NullLiteral() != nil:
+		// Use a dummy type for null literal.
+		return expr.NewNullLiteral(&types.DecimalType{Precision: 38, Scale: 0, Nullability: types.NullabilityNullable}), nil
+	case ctx.NumericLiteral() != nil:
+		return literal.NewString(ctx.NumericLiteral().GetText(), false), nil
+	case ctx.BooleanLiteral() != nil:
+		return getTypedLiteral(ctx, &types.BooleanType{Nullability: types.NullabilityRequired})
+	case ctx.DateLiteral() != nil:
+		return getTypedLiteral(ctx, &types.DateType{Nullability: types.NullabilityRequired})
+	case ctx.TimeLiteral() != nil:
+		return getTypedLiteral(ctx, &types.TimeType{Nullability: types.NullabilityRequired})
+	case ctx.TimestampLiteral() != nil:
+		return getTypedLiteral(ctx, &types.TimestampType{Nullability: types.NullabilityRequired})
+	case ctx.TimestampTzLiteral() != nil:
+		return getTypedLiteral(ctx, &types.TimestampTzType{Nullability: types.NullabilityRequired})
+	case ctx.IntervalYearLiteral() != nil:
+		return getTypedLiteral(ctx, &types.IntervalYearType{Nullability: types.NullabilityRequired})
+	case ctx.IntervalDayLiteral() != nil:
+		value := getRawStringFromStringLiteral(ctx.IntervalDayLiteral().GetText())
+		return literal.NewIntervalDaysToSecondFromString(value, false)
+	case ctx.StringLiteral() != nil:
+		return getTypedLiteral(ctx, &types.StringType{Nullability: types.NullabilityRequired})
+	}
+	return nil, fmt.Errorf("invalid literal arg %v", ctx.GetText())
+}
+
+// getTypedLiteral returns the literal as a value of the type. It returns a null of the nullable type for null.
+func getTypedLiteral(ctx *baseparser.LiteralContext, literalType types.Type) (expr.Literal, error) {
+	if ctx.NullLiteral() != nil {
+		return expr.NewNullLiteral(literalType.WithNullability(types.NullabilityNullable)), nil
+	}
+
+	text := getRawStringFromStringLiteral(ctx.GetText())
+	isText := ctx.BooleanLiteral() == nil && ctx.NumericLiteral() == nil
+	nullable := literalType.GetNullability() == types.NullabilityNullable
+	name, fits := "", false
+	var value expr.Literal
+	var err error
+	switch typ := literalType.(type) {
+	case *types.BooleanType:
+		name = "boolean"
+		if fits = ctx.BooleanLiteral() != nil; fits {
+			value = literal.NewBool(strings.ToLower(text) == "true", nullable)
 		}
-		return value
-	}
-	if ctx.TimeLiteral() != nil {
-		timeStr := getRawStringFromStringLiteral(ctx.TimeLiteral().GetText())
-		value, err := literal.NewTimeFromString(timeStr, nullable)
-		if err != nil {
-			v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("invalid time arg %v", err))
+	case *types.Int8Type, *types.Int16Type, *types.Int32Type, *types.Int64Type:
+		name = "int"
+		if fits = ctx.NumericLiteral() != nil; fits {
+			value, err = getIntLiteral(text, literalType)
 		}
-		return value
-	}
-	if ctx.TimestampLiteral() != nil {
-		timestampStr := getRawStringFromStringLiteral(ctx.TimestampLiteral().GetText())
-		value, err := literal.NewTimestampFromString(timestampStr, nullable)
-		if err != nil {
-			v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("invalid timestampTZ arg %v", err))
+	case *types.Float32Type, *types.Float64Type:
+		name = "float"
+		if fits = ctx.NumericLiteral() != nil; fits {
+			value, err = getFloatLiteral(text, literalType)
 		}
-		return value
-	}
-	if ctx.TimestampTzLiteral() != nil {
-		timestampStr := getRawStringFromStringLiteral(ctx.TimestampTzLiteral().GetText())
-		value, err := literal.NewTimestampTZFromString(timestampStr, nullable)
-		if err != nil {
-			v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("invalid timestampTZ arg %v", err))
+	case *types.DecimalType:
+		name = "decimal"
+		if fits = ctx.NumericLiteral() != nil; fits {
+			value, err = literal.NewDecimalFromString(text, nullable)
 		}
-		return value
-	}
-	if ctx.IntervalYearLiteral() != nil {
-		iyearStr := getRawStringFromStringLiteral(ctx.IntervalYearLiteral().GetText())
-		value, err := literal.NewIntervalYearsToMonthFromString(iyearStr, nullable)
-		if err != nil {
-			v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("invalid interval year arg %v", err))
+	case *types.StringType:
+		name = "string"
+		if fits = isText; fits {
+			value = literal.NewString(text, nullable)
 		}
-		return value
-	}
-	if ctx.IntervalDayLiteral() != nil {
-		idayStr := getRawStringFromStringLiteral(ctx.IntervalDayLiteral().GetText())
-		value, err := literal.NewIntervalDaysToSecondFromString(idayStr, nullable)
-		if err != nil {
-			v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("invalid interval day arg %v", err))
-			return value
+	case *types.BinaryType:
+		name = "binary"
+		if fits = isText; fits {
+			value = expr.NewByteSliceLiteral([]byte(text), nullable)
 		}
-		if intervalType, ok := v.getLiteralTypeInContext().(*types.IntervalDayType); ok {
-			value, err = value.(expr.WithTypeLiteral).WithType(intervalType)
-			if err != nil {
-				v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("invalid interval day arg %v", err))
-			}
+	case *types.FixedCharType:
+		name = "fixedchar"
+		if fits = isText; fits {
+			value, err = newFixedChar(text, typ)
 		}
-		return value
-	}
-
-	if ctx.NumericLiteral() != nil {
-		if v.getLiteralTypeInContext() == nil {
-			// in compactAggregateFuncCall context, the type is not set, full schema of table may not be available
-			return literal.NewString(ctx.NumericLiteral().GetText(), false)
+	case *types.VarCharType:
+		name = "varchar"
+		if fits = isText; fits {
+			value, err = literal.NewVarChar(text, nullable)
 		}
-		value := v.getLiteralFromString(ctx, ctx.NumericLiteral().GetText(), v.getLiteralTypeInContext())
-		return value
+	case *types.FixedBinaryType:
+		name = "fixedbinary"
+		if fits = isText; fits {
+			value, err = literal.NewFixedBinary([]byte(text), nullable)
+		}
+	case *types.DateType:
+		name = "date"
+		if fits = ctx.DateLiteral() != nil; fits {
+			value, err = literal.NewDateFromString(text, nullable)
+		}
+	case *types.TimeType:
+		name = "time"
+		if fits = ctx.TimeLiteral() != nil; fits {
+			value, err = literal.NewTimeFromString(text, nullable)
+		}
+	case *types.PrecisionTimeType:
+		name = "precision time"
+		if fits = ctx.TimeLiteral() != nil; fits {
+			value, err = literal.NewPrecisionTimeFromString(typ.Precision, text, nullable)
+		}
+	case *types.TimestampType:
+		name = "timestamp"
+		if fits = ctx.TimestampLiteral() != nil; fits {
+			value, err = literal.NewTimestampFromString(text, nullable)
+		}
+	case *types.PrecisionTimestampType:
+		name = "precision timestamp"
+		if fits = ctx.TimestampLiteral() != nil; fits {
+			value, err = literal.NewPrecisionTimestampFromString(typ.Precision, text, nullable)
+		}
+	case *types.TimestampTzType:
+		name = "timestampTZ"
+		if fits = ctx.TimestampTzLiteral() != nil; fits {
+			value, err = literal.NewTimestampTZFromString(text, nullable)
+		}
+	case *types.PrecisionTimestampTzType:
+		name = "precision timestampTZ"
+		if fits = ctx.TimestampTzLiteral() != nil; fits {
+			value, err = literal.NewPrecisionTimestampTzFromString(typ.Precision, text, nullable)
+		}
+	case *types.IntervalYearType:
+		name = "interval year"
+		if fits = ctx.IntervalYearLiteral() != nil; fits {
+			value, err = literal.NewIntervalYearsToMonthFromString(text, nullable)
+		}
+	case *types.IntervalDayType:
+		name = "interval day"
+		if fits = ctx.IntervalDayLiteral() != nil; fits {
+			value, err = literal.NewIntervalDaysToSecondFromString(text, nullable)
+		}
+	default:
+		return nil, fmt.Errorf("literal %s can't be a value of type %s", ctx.GetText(), literalType)
+	}
+	if !fits {
+		return nil, fmt.Errorf("invalid %s arg %s", name, ctx.GetText())
 	}
+	if err == nil {
+		value, err = withLiteralType(value, literalType)
+	}
+	if err != nil {
+		return nil, fmt.Errorf("invalid %s arg %v", name, err)
+	}
+	return value, nil
+}
 
-	if ctx.StringLiteral() != nil {
-		valueStr := getRawStringFromStringLiteral(ctx.GetText())
-		if literalType := v.getLiteralTypeInContext(); literalType != nil {
-			if value := v.getLiteralFromString(ctx, valueStr, literalType); value != nil {
-				return value
-			}
-		}
-		return literal.NewString(valueStr, false)
+func newFixedChar(value string, fixedCharType *types.FixedCharType) (expr.Literal, error) {
+	if utf8.RuneCountInString(value) > int(fixedCharType.Length) {
+		return nil, fmt.Errorf("value '%s' is longer than %s", value, fixedCharType)
 	}
+	return literal.NewFixedChar(value, fixedCharType.GetNullability() == types.NullabilityNullable)
+}
 
-	if ctx.NullLiteral() != nil {
-		nullType := v.getLiteralTypeInContext()
-		if nullType == nil {
-			// Use a dummy type for null literal. This happens in AggregateFuncCall context, where type is not set
-			nullType = &types.DecimalType{Precision: 38, Scale: 0, Nullability: types.NullabilityNullable}
-		}
-		return expr.NewNullLiteral(nullType)
+// withLiteralType returns the literal with the parameters of the type.
+func withLiteralType(value expr.Literal, literalType types.Type) (expr.Literal, error) {
+	if len(literalType.GetParameters()) == 0 {
+		return value, nil
 	}
-	v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("invalid literal arg %v", ctx.GetText()))
-	return nil
+	typed, ok := value.(expr.WithTypeLiteral)
+	if !ok {
+		return nil, fmt.Errorf("literal type %T is not handled to update the type", value)
+	}
+	return typed.WithType(literalType)
 }
 
 func (v *TestCaseVisitor) VisitResult(ctx *baseparser.ResultContext) interface{} {
-- 
2.43.0


From f6e3eb1927adf231771b45182ed125a7f7e1295e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:29 +0000
Subject: [PATCH 58/69] fix: a fixedchar argument of a test isn't longer than
 its type

---
 testcases/parser/visitor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/testcases/parser/visitor.go b/testcases/parser/visitor.go
index a3349dc..1435d09 100644
--- a/testcases/parser/visitor.go
+++ b/testcases/parser/visitor.go
@@ -548,7 +548,7 @@ func (v *TestCaseVisitor) VisitStringArg(ctx *baseparser.StringArgContext) inter
 
 func (v *TestCaseVisitor) VisitFixedCharArg(ctx *baseparser.FixedCharArgContext) interface{} {
 	argType := v.Visit(ctx.FixedCharType()).(*types.FixedCharType)
-	value, err := literal.NewFixedChar(getRawStringFromStringLiteral(ctx.StringLiteral().GetText()), argType.GetNullability() == types.NullabilityNullable)
+	value, err := newFixedChar(getRawStringFromStringLiteral(ctx.StringLiteral().GetText()), argType)
 	if err != nil {
 		v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("invalid fixed char arg %v", err))
 	}
-- 
2.43.0


From e0517a45b40250d680f6b3c3776dd28523623d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:20 +0000
Subject: [PATCH 59/69] fix: nested lists in test files are read by the types
 declared for them

---
 testcases/parser/visitor.go | 48 +++++++++++++------------------------
 1 file changed, 17 insertions(+), 31 deletions(-)

diff --git a/testcases/parser/visitor.go b/testcases/parser/visitor.go
index 1435d09..d0156fc 100644
--- a/testcases/parser/visitor.go
+++ b/testcases/parser/visitor.go
@@ -681,21 +681,26 @@ func (v *TestCaseVisitor) VisitPrecisionTimestampTZArg(ctx *baseparser.Precision
 
 func (v *TestCaseVisitor) VisitListArg(ctx *baseparser.ListArgContext) interface{} {
 	listType := v.Visit(ctx.ListType()).(*types.ListType)
-	v.setLiteralTypeInContext(listType.Type)
-	defer v.clearLiteralTypeInContext()
+	value := v.getListLiteral(ctx.LiteralList(), listType)
+	return &CaseLiteral{Value: value, Type: listType}
+}
 
-	values := v.Visit(ctx.LiteralList()).([]expr.Literal)
+// getListLiteral returns the list of the type with the elements.
+func (v *TestCaseVisitor) getListLiteral(ctx baseparser.ILiteralListContext, listType *types.ListType) expr.Literal {
+	parentType := v.getLiteralTypeInContext()
+	v.setLiteralTypeInContext(listType.Type)
+	defer v.setLiteralTypeInContext(parentType)
 
+	nullable := listType.GetNullability() == types.NullabilityNullable
+	values := v.Visit(ctx).([]expr.Literal)
 	if len(values) == 0 {
-		value := expr.NewEmptyListLiteral(listType.Type, false)
-		return &CaseLiteral{Value: value, Type: listType}
+		return expr.NewEmptyListLiteral(listType.Type, nullable)
 	}
-
-	value, err := literal.NewList(values, false)
+	value, err := literal.NewList(values, nullable)
 	if err != nil {
 		v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("invalid list arg %v", err))
 	}
-	return &CaseLiteral{Value: value, Type: listType}
+	return value
 }
 
 func (v *TestCaseVisitor) VisitLiteralList(ctx *baseparser.LiteralListContext) interface{} {
@@ -721,31 +726,12 @@ func (v *TestCaseVisitor) VisitListElement(ctx *baseparser.ListElementContext) i
 		return result
 	}
 	if ctx.LiteralList() != nil {
-		// For nested lists like [[1,2],[3,4]]::list<list<i32>>, the parent context
-		// has the element type set to list<i32>. We need to unwrap one level so
-		// that inner literals resolve against i32 instead of list<i32>.
-		parentType := v.getLiteralTypeInContext()
-		if lt, ok := parentType.(*types.ListType); ok {
-			v.setLiteralTypeInContext(lt.Type)
-			defer v.setLiteralTypeInContext(parentType)
-		}
-
-		values := v.Visit(ctx.LiteralList()).([]expr.Literal)
-		if len(values) == 0 {
-			// For empty nested lists, use the element type from the parent list context
-			if elemType := v.getLiteralTypeInContext(); elemType != nil {
-				if lt, ok := elemType.(*types.ListType); ok {
-					return expr.NewEmptyListLiteral(lt.Type, false)
-				}
-			}
-			v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("cannot determine element type for empty nested list"))
+		listType, ok := v.getLiteralTypeInContext().(*types.ListType)
+		if !ok {
+			v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("list element %s isn't of type %s", ctx.GetText(), v.getLiteralTypeInContext()))
 			return nil
 		}
-		value, err := literal.NewList(values, false)
-		if err != nil {
-			v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("invalid nested list %v", err))
-		}
-		return value
+		return v.getListLiteral(ctx.LiteralList(), listType)
 	}
 	v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("unexpected list element type"))
 	return nil
-- 
2.43.0


From d1077f875c2ed2e1c4036c9e7313539bd683efd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:23 +0000
Subject: [PATCH 60/69] fix: scalar arguments of aggregate tests have the
 declared type

---
 testcases/parser/visitor.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/testcases/parser/visitor.go b/testcases/parser/visitor.go
index d0156fc..2f24f71 100644
--- a/testcases/parser/visitor.go
+++ b/testcases/parser/visitor.go
@@ -214,7 +214,7 @@ func (v *TestCaseVisitor) VisitQualifiedAggregateFuncArgs(ctx *baseparser.Qualif
 func (v *TestCaseVisitor) VisitQualifiedAggregateFuncArg(ctx *baseparser.QualifiedAggregateFuncArgContext) interface{} {
 	if ctx.Argument() != nil {
 		return &AggregateArgument{
-			Argument: v.Visit(ctx.Argument()).(*CaseLiteral),
+			Argument: v.getArgument(ctx.Argument()),
 			IsScalar: true,
 		}
 	}
@@ -330,7 +330,7 @@ func (v *TestCaseVisitor) VisitAggregateFuncArgs(ctx *baseparser.AggregateFuncAr
 func (v *TestCaseVisitor) VisitAggregateFuncArg(ctx *baseparser.AggregateFuncArgContext) interface{} {
 	if ctx.Argument() != nil {
 		return &AggregateArgument{
-			Argument: v.Visit(ctx.Argument()).(*CaseLiteral),
+			Argument: v.getArgument(ctx.Argument()),
 			IsScalar: true,
 		}
 	}
@@ -376,15 +376,20 @@ func (v *TestCaseVisitor) VisitTestCase(ctx *baseparser.TestCaseContext) interfa
 func (v *TestCaseVisitor) VisitArguments(ctx *baseparser.ArgumentsContext) interface{} {
 	args := make([]*CaseLiteral, 0, len(ctx.AllArgument()))
 	for _, argument := range ctx.AllArgument() {
-		testArg := v.Visit(argument).(*CaseLiteral)
-		if err := testArg.updateLiteralType(); err != nil {
-			v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("invalid argument %v", err))
-		}
-		args = append(args, testArg)
+		args = append(args, v.getArgument(argument))
 	}
 	return args
 }
 
+// getArgument returns an argument of which the value has the declared type.
+func (v *TestCaseVisitor) getArgument(ctx baseparser.IArgumentContext) *CaseLiteral {
+	testArg := v.Visit(ctx).(*CaseLiteral)
+	if err := testArg.updateLiteralType(); err != nil {
+		v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("invalid argument %v", err))
+	}
+	return testArg
+}
+
 func (v *TestCaseVisitor) VisitArgument(ctx *baseparser.ArgumentContext) interface{} {
 	if ctx.NullArg() != nil {
 		return v.Visit(ctx.NullArg())
-- 
2.43.0


From 8915ef5e08e0a46ed0340f42ceaf5dd542a17917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:27 +0000
Subject: [PATCH 61/69] fix: tables of aggregate tests may be empty, have rows
 of one length and only the columns they state

---
 testcases/parser/nodes.go   |  2 +-
 testcases/parser/visitor.go | 40 ++++++++++++++++++++++++++++++++++---
 2 files changed, 38 insertions(+), 4 deletions(-)

diff --git a/testcases/parser/nodes.go b/testcases/parser/nodes.go
index 6dfaae9..444a1ed 100644
--- a/testcases/parser/nodes.go
+++ b/testcases/parser/nodes.go
@@ -473,7 +473,7 @@ func (a *AggregateArgument) GetType() types.Type {
 }
 
 func newAggregateArgument(tableName string, columnName string, columnType types.Type) (*AggregateArgument, error) {
-	index, err := strconv.ParseInt(columnName[3:], 10, 64)
+	index, err := strconv.ParseInt(columnName[3:], 10, 32)
 	if err != nil {
 		return nil, err
 	}
diff --git a/testcases/parser/visitor.go b/testcases/parser/visitor.go
index 2f24f71..248faee 100644
--- a/testcases/parser/visitor.go
+++ b/testcases/parser/visitor.go
@@ -154,6 +154,9 @@ func (v *TestCaseVisitor) VisitSingleArgAggregateFuncCall(ctx *baseparser.Single
 	}
 }
 
+// maxColumns is the greatest number of columns an empty table can have.
+const maxColumns = 1 << 16
+
 func (v *TestCaseVisitor) VisitCompactAggregateFuncCall(ctx *baseparser.CompactAggregateFuncCallContext) interface{} {
 	rows := v.Visit(ctx.TableRows()).([][]baseparser.ILiteralContext)
 	var args []*AggregateArgument
@@ -161,9 +164,22 @@ func (v *TestCaseVisitor) VisitCompactAggregateFuncCall(ctx *baseparser.CompactA
 		args = v.Visit(ctx.AggregateFuncArgs()).([]*AggregateArgument)
 	}
 
-	numberOfColumns := int32(len(rows[0]))
+	numberOfColumns := int32(0)
+	if len(rows) > 0 {
+		numberOfColumns = int32(len(rows[0]))
+	} else {
+		// only the arguments tell which columns an empty table has
+		for _, arg := range args {
+			if !arg.IsScalar && arg.ColumnIndex >= numberOfColumns && arg.ColumnIndex < maxColumns {
+				numberOfColumns = arg.ColumnIndex + 1
+			}
+		}
+	}
 	columnTypes := make([]types.Type, numberOfColumns)
 	for _, arg := range args {
+		if arg.IsScalar {
+			continue
+		}
 		if arg.ColumnIndex >= numberOfColumns {
 			v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("invalid column index %d, expected less than %d", arg.ColumnIndex, len(columnTypes)))
 			continue
@@ -173,6 +189,11 @@ func (v *TestCaseVisitor) VisitCompactAggregateFuncCall(ctx *baseparser.CompactA
 		}
 	}
 	columns, newColumnTypes := v.getColumnsFromRows(ctx, rows, columnTypes)
+	for _, arg := range args {
+		if !arg.IsScalar && arg.ColumnIndex < int32(len(newColumnTypes)) {
+			arg.ColumnType = newColumnTypes[arg.ColumnIndex]
+		}
+	}
 	return &TestCase{
 		FuncName:      ctx.Identifier().GetText(),
 		Columns:       columns,
@@ -196,9 +217,14 @@ func (v *TestCaseVisitor) VisitMultiArgAggregateFuncCall(ctx *baseparser.MultiAr
 				v.ErrorListener.ReportVisitError(ctx, err)
 			}
 		}
-		if !arg.IsScalar {
-			arg.ColumnType = testcase.ColumnTypes[arg.ColumnIndex]
+		if arg.IsScalar {
+			continue
 		}
+		if int(arg.ColumnIndex) >= len(testcase.ColumnTypes) {
+			v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("invalid column index %d, expected less than %d", arg.ColumnIndex, len(testcase.ColumnTypes)))
+			continue
+		}
+		arg.ColumnType = testcase.ColumnTypes[arg.ColumnIndex]
 	}
 	return testcase
 }
@@ -221,6 +247,7 @@ func (v *TestCaseVisitor) VisitQualifiedAggregateFuncArg(ctx *baseparser.Qualifi
 	arg, err := newAggregateArgument(ctx.Identifier().GetText(), ctx.ColumnName().GetText(), nil)
 	if err != nil {
 		v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("invalid aggregate func arg %v", err))
+		return &AggregateArgument{}
 	}
 	return arg
 }
@@ -241,6 +268,12 @@ func (v *TestCaseVisitor) VisitTableData(ctx *baseparser.TableDataContext) inter
 }
 
 func (v *TestCaseVisitor) getColumnsFromRows(ctx antlr.ParserRuleContext, rows [][]baseparser.ILiteralContext, columnTypes []types.Type) ([][]expr.Literal, []types.Type) {
+	for _, row := range rows {
+		if len(row) != len(columnTypes) {
+			v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("row of %d values in a table of %d columns", len(row), len(columnTypes)))
+			return nil, nil
+		}
+	}
 	columns := make([][]expr.Literal, 0, len(columnTypes))
 	retColumnTypes := make([]types.Type, 0, len(columnTypes))
 	for i, columnType := range columnTypes {
@@ -338,6 +371,7 @@ func (v *TestCaseVisitor) VisitAggregateFuncArg(ctx *baseparser.AggregateFuncArg
 	arg, err := newAggregateArgument("", ctx.ColumnName().GetText(), argType)
 	if err != nil {
 		v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("invalid aggregate func arg %v", err))
+		return &AggregateArgument{}
 	}
 	return arg
 }
-- 
2.43.0


From 306e603424bb0e272fab694bb81554b7bde4fca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:51 +0000
Subject: [PATCH 62/69] fix: types in test files have valid parameters

---
 testcases/parser/visitor.go | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/testcases/parser/visitor.go b/testcases/parser/visitor.go
index 248faee..9041cb6 100644
--- a/testcases/parser/visitor.go
+++ b/testcases/parser/visitor.go
@@ -1119,43 +1119,57 @@ func (v *TestCaseVisitor) VisitDecimalType(ctx *baseparser.DecimalTypeContext) i
 		precision = v.Visit(ctx.GetPrecision()).(int32)
 		scale = v.Visit(ctx.GetScale()).(int32)
 	}
+	if precision < 1 || precision > 38 || scale > precision {
+		v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("invalid precision %d and scale %d of a decimal", precision, scale))
+	}
 	return &types.DecimalType{Precision: precision, Scale: scale, Nullability: getNullability(ctx)}
 }
 
 func (v *TestCaseVisitor) VisitIntegerLiteral(ctx *baseparser.IntegerLiteralContext) interface{} {
-	value, err := strconv.Atoi(ctx.GetText())
+	value, err := strconv.ParseInt(ctx.GetText(), 10, 32)
+	if err == nil && value < 0 {
+		err = fmt.Errorf("type parameter %d is negative", value)
+	}
 	if err != nil {
 		v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("invalid int arg %v", err))
 	}
 	return int32(value)
 }
 
+func (v *TestCaseVisitor) getTimePrecision(ctx baseparser.INumericParameterContext) types.TimePrecision {
+	precision, err := types.ProtoToTimePrecision(v.Visit(ctx).(int32))
+	if err != nil {
+		v.ErrorListener.ReportVisitError(ctx, err)
+	}
+	return precision
+}
+
 func (v *TestCaseVisitor) VisitPrecisionTimeType(ctx *baseparser.PrecisionTimeTypeContext) interface{} {
-	length := v.Visit(ctx.GetPrecision()).(int32)
-	return &types.PrecisionTimeType{Precision: types.TimePrecision(length), Nullability: getNullability(ctx)}
+	precision := v.getTimePrecision(ctx.GetPrecision())
+	return &types.PrecisionTimeType{Precision: precision, Nullability: getNullability(ctx)}
 }
 
 func (v *TestCaseVisitor) VisitPrecisionTimestampType(ctx *baseparser.PrecisionTimestampTypeContext) interface{} {
-	length := v.Visit(ctx.GetPrecision()).(int32)
-	return &types.PrecisionTimestampType{Precision: types.TimePrecision(length), Nullability: getNullability(ctx)}
+	precision := v.getTimePrecision(ctx.GetPrecision())
+	return &types.PrecisionTimestampType{Precision: precision, Nullability: getNullability(ctx)}
 }
 
 func (v *TestCaseVisitor) VisitPrecisionTimestampTZType(ctx *baseparser.PrecisionTimestampTZTypeContext) interface{} {
-	length := v.Visit(ctx.GetPrecision()).(int32)
+	precision := v.getTimePrecision(ctx.GetPrecision())
 	return &types.PrecisionTimestampTzType{
 		PrecisionTimestampType: types.PrecisionTimestampType{
-			Precision:   types.TimePrecision(length),
+			Precision:   precision,
 			Nullability: getNullability(ctx),
 		},
 	}
 }
 
 func (v *TestCaseVisitor) VisitIntervalDayType(ctx *baseparser.IntervalDayTypeContext) interface{} {
-	var length int32
+	precision := types.PrecisionSeconds
 	if ctx.GetLen_() != nil {
-		length = v.Visit(ctx.GetLen_()).(int32)
+		precision = v.getTimePrecision(ctx.GetLen_())
 	}
-	return &types.IntervalDayType{Precision: types.TimePrecision(length), Nullability: getNullability(ctx)}
+	return &types.IntervalDayType{Precision: precision, Nullability: getNullability(ctx)}
 }
 
 func (v *TestCaseVisitor) VisitFixedCharType(ctx *baseparser.FixedCharTypeContext) interface{} {
-- 
2.43.0


From b879de0d476fe3e207df6ff3d47d3325242c727b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:15 +0000
Subject: [PATCH 63/69] fix: the options of a test have one order

---
 testcases/parser/nodes.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/testcases/parser/nodes.go b/testcases/parser/nodes.go
index 444a1ed..290fe91 100644
--- a/testcases/parser/nodes.go
+++ b/testcases/parser/nodes.go
@@ -2,6 +2,7 @@ package parser
 
 import (
 	"fmt"
+	"sort"
 	"strconv"
 	"strings"
 
@@ -231,23 +232,33 @@ func (tc *TestCase) getOptionString() string {
 	var b strings.Builder
 	b.WriteString(" [")
 	var options []string
-	for k, v := range tc.Options {
-		options = append(options, fmt.Sprintf("%s:%s", k, v))
+	for _, name := range tc.optionNames() {
+		options = append(options, fmt.Sprintf("%s:%s", name, tc.Options[name]))
 	}
 	b.WriteString(strings.Join(options, ","))
 	b.WriteByte(']')
 	return b.String()
 }
 
+// optionNames returns the names of the options, in the same order each time.
+func (tc *TestCase) optionNames() []string {
+	names := make([]string, 0, len(tc.Options))
+	for name := range tc.Options {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	return names
+}
+
 func (tc *TestCase) GetFunctionOptions() []*types.FunctionOption {
 	if len(tc.Options) == 0 {
 		return nil
 	}
 	funcOptions := make([]*types.FunctionOption, 0)
-	for key, value := range tc.Options {
+	for _, name := range tc.optionNames() {
 		funcOptions = append(funcOptions, &types.FunctionOption{
-			Name:       key,
-			Preference: []string{value},
+			Name:       name,
+			Preference: []string{tc.Options[name]},
 		})
 	}
 	return funcOptions
-- 
2.43.0


From 54a208b7db76b27452b1c807f3c8744884feceb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:19 +0000
Subject: [PATCH 64/69] fix: lists and tables without columns are printed as
 test files state them

---
 testcases/parser/nodes.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/testcases/parser/nodes.go b/testcases/parser/nodes.go
index 290fe91..e22196e 100644
--- a/testcases/parser/nodes.go
+++ b/testcases/parser/nodes.go
@@ -61,6 +61,8 @@ func literalToString(literal expr.Literal) string {
 	switch lit := literal.(type) {
 	case *expr.NullLiteral:
 		return literal.ValueString()
+	case *expr.ListLiteral:
+		return "[" + strings.Join(literalsToStrings(lit.Value), ", ") + "]"
 	case types.IsoValuePrinter:
 		switch literal.GetType().(type) {
 		// for these types enclose in single quotes
@@ -81,13 +83,17 @@ func literalToString(literal expr.Literal) string {
 	}
 }
 
+func literalsToStrings(literals []expr.Literal) []string {
+	var elements []string
+	for _, element := range literals {
+		elements = append(elements, literalToString(element))
+	}
+	return elements
+}
+
 func (c *CaseLiteral) AsAggregateArgumentString() string {
 	if list, ok := c.Value.(*expr.ListLiteral); ok {
-		var elements []string
-		for _, element := range list.Value {
-			elements = append(elements, literalToString(element))
-		}
-		return "(" + strings.Join(elements, ", ") + ")::" + c.Type.String()
+		return "(" + strings.Join(literalsToStrings(list.Value), ", ") + ")::" + c.Type.String()
 	}
 	return c.ValueText + "::" + c.Type.String()
 }
@@ -204,7 +210,7 @@ func (tc *TestCase) needCompactAggregateFuncCall() bool {
 func (tc *TestCase) getAggregateFuncTableString() string {
 	var b strings.Builder
 	if len(tc.Columns) == 0 {
-		return ""
+		return "()"
 	}
 	b.WriteByte('(')
 	numRows := len(tc.Columns[0])
-- 
2.43.0


From 765dd4cd4762234b51150330d0c4008f019b8850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:23 +0000
Subject: [PATCH 65/69] fix: column arguments of an aggregate test refer to the
 columns of its table

---
 testcases/parser/nodes.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/testcases/parser/nodes.go b/testcases/parser/nodes.go
index e22196e..dd661c5 100644
--- a/testcases/parser/nodes.go
+++ b/testcases/parser/nodes.go
@@ -291,10 +291,17 @@ func (tc *TestCase) getAggregateFuncArgTypes() []types.Type {
 }
 
 func (tc *TestCase) getAggregateFuncTableSchema() []types.Type {
-	schemaTypes := make([]types.Type, len(tc.AggregateArgs))
-	for i, arg := range tc.AggregateArgs {
+	numColumns := len(tc.ColumnTypes)
+	for _, arg := range tc.AggregateArgs {
+		if !arg.IsScalar {
+			numColumns = max(numColumns, int(arg.ColumnIndex)+1)
+		}
+	}
+	schemaTypes := make([]types.Type, numColumns)
+	copy(schemaTypes, tc.ColumnTypes)
+	for _, arg := range tc.AggregateArgs {
 		if !arg.IsScalar {
-			schemaTypes[i] = arg.ColumnType
+			schemaTypes[arg.ColumnIndex] = arg.ColumnType
 		}
 	}
 	return schemaTypes
-- 
2.43.0


From c2f12e38f29b777ed5f5bf93460ab06e2dadb079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:56 +0000
Subject: [PATCH 66/69] fix: an aggregate test of scalar arguments only has no
 columns of data

---
 testcases/parser/nodes.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/testcases/parser/nodes.go b/testcases/parser/nodes.go
index dd661c5..cd803e0 100644
--- a/testcases/parser/nodes.go
+++ b/testcases/parser/nodes.go
@@ -443,16 +443,20 @@ func (tc *TestCase) GetAggregateColumnsData() ([][]expr.Literal, error) {
 		return tc.Columns, nil
 	}
 
-	columns := make([][]expr.Literal, len(tc.AggregateArgs))
+	columns := make([][]expr.Literal, 0, len(tc.AggregateArgs))
 
 	for colIdx, arg := range tc.AggregateArgs {
+		if arg.IsScalar {
+			continue
+		}
 		values, ok := arg.Argument.Value.(*expr.NestedLiteral[expr.ListLiteralValue])
 		if !ok {
 			return nil, fmt.Errorf("column %d: expected NestedLiteral[ListLiteralValue], but got %T", colIdx, arg.Argument.Value)
 		}
 
-		columns[colIdx] = make([]expr.Literal, len(values.Value))
-		copy(columns[colIdx], values.Value)
+		column := make([]expr.Literal, len(values.Value))
+		copy(column, values.Value)
+		columns = append(columns, column)
 	}
 
 	return columns, nil
-- 
2.43.0


From b57ace22923a68b7dfff1308a509cb7ea6358e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:22 +0000
Subject: [PATCH 67/69] fix: cells of columns without a type may be any text

---
 testcases/parser/visitor.go | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/testcases/parser/visitor.go b/testcases/parser/visitor.go
index 9041cb6..df4a6a2 100644
--- a/testcases/parser/visitor.go
+++ b/testcases/parser/visitor.go
@@ -783,7 +783,7 @@ func (v *TestCaseVisitor) VisitLiteral(ctx *baseparser.LiteralContext) interface
 		value, err = getTypedLiteral(ctx, literalType)
 	} else {
 		// in compactAggregateFuncCall context, the type is not set, full schema of table may not be available
-		value, err = getUntypedLiteral(ctx)
+		value = getUntypedLiteral(ctx)
 	}
 	if err != nil {
 		v.ErrorListener.ReportVisitError(ctx, err)
@@ -792,33 +792,35 @@ func (v *TestCaseVisitor) VisitLiteral(ctx *baseparser.LiteralContext) interface
 	return value
 }
 
-// getUntypedLiteral returns a literal of which only the text is known, numbers as strings.
-func getUntypedLiteral(ctx *baseparser.LiteralContext) (expr.Literal, error) {
+// getUntypedLiteral returns a literal of which only the text is known: numbers, and text which isn't the date, time or
+// interval it looks like, are strings.
+func getUntypedLiteral(ctx *baseparser.LiteralContext) expr.Literal {
+	var literalType types.Type
 	switch {
 	case ctx.NullLiteral() != nil:
 		// Use a dummy type for null literal.
-		return expr.NewNullLiteral(&types.DecimalType{Precision: 38, Scale: 0, Nullability: types.NullabilityNullable}), nil
-	case ctx.NumericLiteral() != nil:
-		return literal.NewString(ctx.NumericLiteral().GetText(), false), nil
+		literalType = &types.DecimalType{Precision: 38, Scale: 0, Nullability: types.NullabilityRequired}
 	case ctx.BooleanLiteral() != nil:
-		return getTypedLiteral(ctx, &types.BooleanType{Nullability: types.NullabilityRequired})
+		literalType = &types.BooleanType{Nullability: types.NullabilityRequired}
 	case ctx.DateLiteral() != nil:
-		return getTypedLiteral(ctx, &types.DateType{Nullability: types.NullabilityRequired})
+		literalType = &types.DateType{Nullability: types.NullabilityRequired}
 	case ctx.TimeLiteral() != nil:
-		return getTypedLiteral(ctx, &types.TimeType{Nullability: types.NullabilityRequired})
+		literalType = &types.TimeType{Nullability: types.NullabilityRequired}
 	case ctx.TimestampLiteral() != nil:
-		return getTypedLiteral(ctx, &types.TimestampType{Nullability: types.NullabilityRequired})
+		literalType = &types.TimestampType{Nullability: types.NullabilityRequired}
 	case ctx.TimestampTzLiteral() != nil:
-		return getTypedLiteral(ctx, &types.TimestampTzType{Nullability: types.NullabilityRequired})
+		literalType = &types.TimestampTzType{Nullability: types.NullabilityRequired}
 	case ctx.IntervalYearLiteral() != nil:
-		return getTypedLiteral(ctx, &types.IntervalYearType{Nullability: types.NullabilityRequired})
+		literalType = &types.IntervalYearType{Nullability: types.NullabilityRequired}
 	case ctx.IntervalDayLiteral() != nil:
-		value := getRawStringFromStringLiteral(ctx.IntervalDayLiteral().GetText())
-		return literal.NewIntervalDaysToSecondFromString(value, false)
-	case ctx.StringLiteral() != nil:
-		return getTypedLiteral(ctx, &types.StringType{Nullability: types.NullabilityRequired})
+		literalType = &types.IntervalDayType{Precision: types.PrecisionMicroSeconds, Nullability: types.NullabilityRequired}
 	}
-	return nil, fmt.Errorf("invalid literal arg %v", ctx.GetText())
+	if literalType != nil {
+		if value, err := getTypedLiteral(ctx, literalType); err == nil {
+			return value
+		}
+	}
+	return literal.NewString(getRawStringFromStringLiteral(ctx.GetText()), false)
 }
 
 // getTypedLiteral returns the literal as a value of the type. It returns a null of the nullable type for null.
-- 
2.43.0


From 4f6fb4559dd791ac9e4112367e34ef4b67a3e7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:34 +0000
Subject: [PATCH 68/69] fix: the text of a subquery names its relations instead
 of printing their addresses

---
 plan/subquery.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/plan/subquery.go b/plan/subquery.go
index e369aa1..927f011 100644
--- a/plan/subquery.go
+++ b/plan/subquery.go
@@ -12,6 +12,20 @@ import (
 	proto "github.com/substrait-io/substrait-protobuf/go/substraitpb"
 )
 
+// relString describes the relation of a subquery by the kinds of the relations
+// it is made of.
+func relString(rel Rel) string {
+	if rel == nil {
+		return "<nil>"
+	}
+	inputs := rel.GetInputs()
+	parts := make([]string, len(inputs))
+	for i, input := range inputs {
+		parts[i] = relString(input)
+	}
+	return strings.TrimPrefix(fmt.Sprintf("%T", rel), "*plan.") + "(" + strings.Join(parts, ", ") + ")"
+}
+
 // ExpressionConverter resolves extensions and subqueries as used in expressions.
 // It extends the base ExtensionRegistry to handle subquery expressions
 // that may appear within other expressions.
@@ -94,7 +108,7 @@ func NewScalarSubquery(input Rel) *ScalarSubquery {
 func (s *ScalarSubquery) GetSubqueryType() string { return "scalar" }
 
 func (s *ScalarSubquery) String() string {
-	return fmt.Sprintf("SCALAR_SUBQUERY(%s)", s.Input)
+	return fmt.Sprintf("SCALAR_SUBQUERY(%s)", relString(s.Input))
 }
 
 func (s *ScalarSubquery) IsScalar() bool { return true }
@@ -172,7 +186,7 @@ func (s *InPredicateSubquery) String() string {
 		b.WriteByte(')')
 	}
 	b.WriteString(" IN (")
-	b.WriteString(fmt.Sprintf("%s", s.Haystack))
+	b.WriteString(relString(s.Haystack))
 	b.WriteByte(')')
 	return b.String()
 }
@@ -295,7 +309,7 @@ func (s *SetPredicateSubquery) String() string {
 	default:
 		opStr = "UNKNOWN"
 	}
-	return fmt.Sprintf("%s(%s)", opStr, s.Tuples)
+	return fmt.Sprintf("%s(%s)", opStr, relString(s.Tuples))
 }
 
 func (s *SetPredicateSubquery) IsScalar() bool { return true }
@@ -417,7 +431,7 @@ func (s *SetComparisonSubquery) String() string {
 		comparisonStr = "?"
 	}
 
-	return fmt.Sprintf("%s %s %s(%s)", s.Left, comparisonStr, reductionStr, s.Right)
+	return fmt.Sprintf("%s %s %s(%s)", s.Left, comparisonStr, reductionStr, relString(s.Right))
 }
 
 func (s *SetComparisonSubquery) IsScalar() bool {
-- 
2.43.0


From 347408206a35bde41216351c28901ed6eb58d220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:42 +0000
Subject: [PATCH 69/69] fix: give resolved aggregate and window functions their
 defaults

AggregateFunction.ResolveURN and WindowFunction.ResolveURN left out the
defaults for decomposability and window type which GetVariants applies.
---
 extensions/simple_extension.go | 39 +++++++++++-----------------------
 1 file changed, 12 insertions(+), 27 deletions(-)

diff --git a/extensions/simple_extension.go b/extensions/simple_extension.go
index e3dd6c1..2279552 100644
--- a/extensions/simple_extension.go
+++ b/extensions/simple_extension.go
@@ -334,15 +334,10 @@ func (s *ScalarFunction) GetVariants(urn string) []*ScalarFunctionVariant {
 }
 
 func (s *ScalarFunction) ResolveURN(urn string) []FunctionVariant {
-	out := make([]FunctionVariant, len(s.Impls))
-	for i, impl := range s.Impls {
-		out[i] = &ScalarFunctionVariant{
-			name:        s.Name,
-			description: s.Description,
-			urn:         urn,
-			impl:        impl,
-			metadata:    s.Metadata,
-		}
+	variants := s.GetVariants(urn)
+	out := make([]FunctionVariant, len(variants))
+	for i, v := range variants {
+		out[i] = v
 	}
 	return out
 }
@@ -420,15 +415,10 @@ func (s *AggregateFunction) GetVariants(urn string) []*AggregateFunctionVariant
 }
 
 func (s *AggregateFunction) ResolveURN(urn string) []FunctionVariant {
-	out := make([]FunctionVariant, len(s.Impls))
-	for i, impl := range s.Impls {
-		out[i] = &AggregateFunctionVariant{
-			name:        s.Name,
-			description: s.Description,
-			urn:         urn,
-			impl:        impl,
-			metadata:    s.Metadata,
-		}
+	variants := s.GetVariants(urn)
+	out := make([]FunctionVariant, len(variants))
+	for i, v := range variants {
+		out[i] = v
 	}
 	return out
 }
@@ -505,15 +495,10 @@ func (s *WindowFunction) GetVariants(urn string) []*WindowFunctionVariant {
 }
 
 func (s *WindowFunction) ResolveURN(urn string) []FunctionVariant {
-	out := make([]FunctionVariant, len(s.Impls))
-	for i, impl := range s.Impls {
-		out[i] = &WindowFunctionVariant{
-			name:        s.Name,
-			description: s.Description,
-			urn:         urn,
-			impl:        impl,
-			metadata:    s.Metadata,
-		}
+	variants := s.GetVariants(urn)
+	out := make([]FunctionVariant, len(variants))
+	for i, v := range variants {
+		out[i] = v
 	}
 	return out
 }
-- 
2.43.0

