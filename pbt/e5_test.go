package pbt

import (
	"fmt"
	"reflect"
	"testing"

	"github.com/substrait-io/substrait-go/v8/expr"
	ext "github.com/substrait-io/substrait-go/v8/extensions"
	"github.com/substrait-io/substrait-go/v8/plan"
	"github.com/substrait-io/substrait-go/v8/types"
	"pgregory.net/rapid"
)

// isNil tells a nil interface or a nil pointer in one.
func isNil(x any) bool {
	v := reflect.ValueOf(x)
	return x == nil || v.Kind() == reflect.Pointer && v.IsNil()
}

type badB struct{ err error }

func (b badB) BuildExpr() (expr.Expression, error)  { return nil, b.err }
func (b badB) BuildFuncArg() (types.FuncArg, error) { return nil, b.err }

type switchCase = struct {
	If   expr.Literal
	Then expr.Expression
}

// eSigs are the declarations of the functions, for the model of which calls fit.
var eSigs = map[string]struct {
	args     []string // kind, any1 or enum
	variadic bool
	ret      string
	declared int // nullability of the result under DECLARED_OUTPUT, 0 under MIRROR
	simple   string
}{
	"same": {[]string{"any1", "any1"}, false, "boolean", 0, "same"}, "add32": {[]string{"i32", "i32"}, false, "i32", 0, "add"},
	"add64": {[]string{"i64", "i64"}, false, "i64", 0, "add"}, "pick": {[]string{"any1"}, true, "any1", 0, "pick"},
	"label": {[]string{"string"}, false, "string", 1, "label"}, "part": {[]string{"enum", "date"}, false, "i64", 0, "part"},
	"rank": {nil, false, "i64", 0, "rank"}, "lag": {[]string{"any1"}, false, "any1", 0, "lag"},
	"total": {[]string{"i32"}, false, "i64", 1, "total"}, "least": {[]string{"any1"}, false, "any1", 0, "least"}, "count": {nil, false, "i64", 0, "count"},
}
var eSigOrder = []string{"same", "add32", "add64", "pick", "label", "part", "rank", "lag", "total", "least", "count"}

// callArg is an argument of a call: an enumeration value, an expression or nothing.
type callArg struct {
	What string // enum val nil
	T    *TD
}

// callResult is the model: the type of the call, or why the arguments don't fit. Unjudged calls give "?".
func callResult(fn string, args []callArg) (*TD, string) {
	sig := eSigs[fn]
	for _, a := range args {
		if a.What == "nil" {
			return nil, "nil argument"
		}
	}
	n := len(sig.args)
	if len(args) < n || len(args) > n && !sig.variadic {
		return nil, "count"
	}
	var any *TD
	null := 2
	for i, a := range args {
		want := sig.args[min(i, n-1)]
		if want == "enum" {
			if a.What != "enum" {
				return nil, "value for enumeration"
			}
			continue
		}
		if a.What == "enum" {
			return nil, "?"
		}
		if want == "any1" {
			if any != nil && !any.withNull(1).equal(a.T.withNull(1)) && !sig.variadic {
				return nil, "two types for one variable"
			}
			if any != nil && !any.withNull(1).equal(a.T.withNull(1)) {
				return nil, "two types for one variable" // CONSISTENT is the default
			}
			any = a.T
		} else if a.T.Kind != want {
			return nil, "kind"
		} else if a.T.Var != 0 {
			return nil, "?"
		}
		if a.T.Null == 1 {
			null = 1
		}
	}
	if sig.declared != 0 {
		null = sig.declared
	}
	if sig.ret == "any1" {
		return any.withNull(null), ""
	}
	return &TD{Kind: sig.ret, Null: null}, ""
}

func genCallArgs(t *rapid.T, fn string) (args []callArg) {
	sig := eSigs[fn]
	any := genETD(t)
	n := len(sig.args)
	if sig.variadic {
		n = rapid.IntRange(1, 4).Draw(t, "n")
	}
	if pct(t, 15) {
		n = rapid.IntRange(0, 4).Draw(t, "othern")
	}
	for i := 0; i < n; i++ {
		want := "any1"
		if len(sig.args) > 0 {
			want = sig.args[min(i, len(sig.args)-1)]
		}
		a := callArg{What: "val", T: &TD{Kind: want}}
		switch want {
		case "any1":
			a.T = any.clone()
		case "enum":
			a = callArg{What: "enum"}
		}
		if pct(t, 12) {
			switch rapid.IntRange(0, 3).Draw(t, "bad") {
			case 0:
				a = callArg{What: "nil"}
			case 1:
				a = callArg{What: "enum"}
			case 2:
				a = callArg{What: "val", T: genETD(t)}
			case 3:
				a = callArg{What: "val", T: &TD{Kind: rapid.SampledFrom([]string{"i32", "i64", "i16", "string", "date", "boolean"}).Draw(t, "k")}}
			}
		}
		if a.T != nil {
			a.T.Null = 1 + rapid.IntRange(0, 1).Draw(t, "null")
		}
		args = append(args, a)
	}
	return args
}

func TestE05(t *testing.T) {
	p := start(t, "E05", "calls of every function of a loaded file with fitting and unfitting arguments, conditionals and switches with agreeing and disagreeing or missing "+
		"parts, casts, parameters, lambdas, windows, and whole expression trees with one operand replaced by one of another type, each by the constructor and by the fluent "+
		"builder; non-trivial = the input is ill-typed or incomplete, or has at least 2 operands")
	defer p.finish()

	// routes checks that all routes agree with the model and with each other.
	type outcome struct {
		name string
		ex   any
		err  error
	}
	agree := func(c *C, want *TD, why string, outs ...outcome) {
		for _, o := range outs {
			if why != "" {
				c.Check(o.err != nil, "accepted:"+o.name, "%s accepts what is ill-typed or incomplete (%s): %v", o.name, why, o.ex)
				continue
			}
			c.Check(o.err == nil, "refused:"+o.name, "%s refuses a well-typed input: %v", o.name, o.err)
			c.Check(!isNil(o.ex), "nil:"+o.name, "%s gives nothing and no error", o.name)
			ty := o.ex.(interface{ GetType() types.Type }).GetType()
			c.Check(ty != nil && (want == nil || tdOf(ty).equal(want)), "type:"+o.name, "%s gives type %v, want %s", o.name, ty, want)
			if a, ok := outs[0].ex.(expr.Expression); ok {
				b := o.ex.(expr.Expression)
				c.Check(a.Equals(b) && b.Equals(a), "unequal:"+o.name, "%s and %s give\n%s\n%s", outs[0].name, o.name, a, b)
				c.Check(protoEq(a.ToProto(), b.ToProto()), "message:"+o.name, "%s and %s write\n%v\n%v", outs[0].name, o.name, a.ToProto(), b.ToProto())
			} else {
				a, b := outs[0].ex.(*expr.AggregateFunction), o.ex.(*expr.AggregateFunction)
				c.Check(protoEq(a.ToProto(), b.ToProto()), "message:"+o.name, "%s and %s write\n%v\n%v", outs[0].name, o.name, a.ToProto(), b.ToProto())
			}
		}
	}
	param := func(d *TD, i int) expr.Expression {
		return &expr.DynamicParameter{OutputType: d.build(), ParameterReference: uint32(i)}
	}

	p.sub("calls", 5000, func(c *C) {
		fn := rapid.SampledFrom(eSigOrder).Draw(c.T, "fn")
		f := eFns[fn]
		args := genCallArgs(c.T, fn)
		want, why := callResult(fn, args)
		id := fnID(fn)
		spelt := rapid.SampledFrom([]string{"compound", "compound", "simple", "unknown", "otherurn"}).Draw(c.T, "spelling")
		switch spelt {
		case "simple":
			id.Name = eSigs[fn].simple
			if id.Name == "add" && why != "" {
				why = "?" // resolves by the types of the arguments
			} else if id.Name == "add" {
				c.Label("by types")
			}
		case "unknown":
			if pct(c.T, 70) {
				spelt = "compound"
			} else {
				id.Name = rapid.SampledFrom([]string{"", "nope", "nope:i32", ":", "add:", "same:any", "add:i32_i64"}).Draw(c.T, "bad")
				why = "no such function"
			}
		case "otherurn":
			if pct(c.T, 70) {
				spelt = "compound"
			} else {
				id.URN = rapid.SampledFrom([]string{"", "extension:verif:custom", "extension:no:such"}).Draw(c.T, "badurn")
				why = "no such function"
			}
		}
		c.Case(why != "" || len(args) > 1, "%v(%v) %s", id, args, why)
		c.Label(fn)
		c.Label(why)
		if why == "?" {
			return
		}
		col := eCol()
		b := plan.NewBuilder(col)
		eb := b.GetExprBuilder()
		var fa []types.FuncArg
		var ba []expr.FuncArgBuilder
		for i, a := range args {
			switch a.What {
			case "nil":
				fa = append(fa, nil)
				if rapid.Bool().Draw(c.T, "nilb") {
					ba = append(ba, nil)
				} else {
					ba = append(ba, eb.Expression(nil))
				}
			case "enum":
				v := types.Enum(rapid.SampledFrom([]string{"YEAR", "MONTH"}).Draw(c.T, "enum"))
				fa = append(fa, v)
				ba = append(ba, eb.Enum(string(v)))
			default:
				fa = append(fa, param(a.T, i))
				ba = append(ba, eb.Expression(param(a.T, i)))
			}
		}
		var opts []*types.FunctionOption
		if pct(c.T, 30) {
			opts = []*types.FunctionOption{{Name: "overflow", Preference: []string{"ERROR"}}}
		}
		inv, ph := types.AggInvocationAll, types.AggPhaseInitialToResult
		if why != "" && rapid.Bool().Draw(c.T, "otherphase") {
			ph = types.AggPhaseInitialToIntermediate
		}
		var s1, s2, s3 outcome
		scalars := func() {
			x1, e1 := expr.NewScalarFunc(eb.Reg, id, opts, fa...)
			x2, e2 := eb.ScalarFunc(id, opts...).Args(ba...).BuildExpr()
			x3, e3 := b.ScalarFn(id.URN, id.Name, opts, fa...)
			s1, s2, s3 = outcome{"NewScalarFunc", x1, e1}, outcome{"builder.ScalarFunc", x2, e2}, outcome{"plan ScalarFn", x3, e3}
		}
		windows := func() {
			x1, e1 := expr.NewWindowFunc(eb.Reg, id, opts, inv, ph, fa...)
			x2, e2 := eb.WindowFunc(id, opts...).Args(ba...).Phase(ph).Invocation(inv).BuildExpr()
			s1, s2, s3 = outcome{"NewWindowFunc", x1, e1}, outcome{"builder.WindowFunc", x2, e2}, outcome{}
		}
		aggs := func() {
			x1, e1 := expr.NewAggregateFunc(eb.Reg, id, opts, inv, ph, nil, fa...)
			x2, e2 := eb.AggFunc(id, opts...).Args(ba...).Phase(ph).Invocation(inv).Build()
			x3, e3 := b.AggregateFn(id.URN, id.Name, opts, fa...)
			s1, s2, s3 = outcome{"NewAggregateFunc", x1, e1}, outcome{"builder.AggFunc", x2, e2}, outcome{"plan AggregateFn", x3, e3}
		}
		wrong := func(run func(), sig string) {
			if f.Kind == "agg" && sig == "window" {
				run()
				agree(c, want, why, s1, s2)
				return
			}
			run()
			outs := []outcome{s1, s2}
			if s3.name != "" {
				outs = append(outs, s3)
			}
			agree(c, nil, "a "+f.Kind+" function called as another kind", outs...)
		}
		switch f.Kind {
		case "scalar":
			scalars()
			agree(c, want, why, s1, s2, s3)
			wrong(windows, "window")
			wrong(aggs, "agg")
		case "window":
			windows()
			agree(c, want, why, s1, s2)
			wrong(scalars, "scalar")
			wrong(aggs, "agg")
		case "agg":
			aggs()
			agree(c, want, why, s1, s2, s3)
			wrong(scalars, "scalar")
			wrong(windows, "window")
		}
	})

	p.sub("conditionals", 3000, func(c *C) {
		ty := genETD(c.T)
		n := rapid.IntRange(1, 3).Draw(c.T, "n")
		why := ""
		part := func(good *TD, what string, i int) expr.Expression {
			if pct(c.T, 6) {
				why = "no " + what
				return nil
			}
			d := good.clone()
			if what == "condition" {
				d.Null = 1 + rapid.IntRange(0, 1).Draw(c.T, "null")
			}
			if pct(c.T, 8) {
				d = genETD(c.T)
				if what == "condition" {
					if d.Kind != "boolean" {
						why = what + " not boolean"
					}
				} else if !d.equal(good) {
					why = what + " of another type"
				}
			} else if what != "condition" && pct(c.T, 4) {
				d.Null = 3 - d.Null
				why = what + " of another nullability"
			}
			return param(d, i)
		}
		var pairs []expr.IfThenPair
		for i := 0; i < n; i++ {
			pairs = append(pairs, expr.IfThenPair{If: part(boolTD(1), "condition", 2*i), Then: part(ty, "branch", 2*i+1)})
		}
		els := part(ty, "else", 100)
		// what is wrong, from what was drawn
		why = ""
		var br types.Type
		if els == nil {
			why = "no else"
		} else {
			br = els.GetType()
		}
		for _, p := range pairs {
			switch {
			case p.If == nil:
				why = "no condition"
			case p.Then == nil:
				why = "no branch"
			case tdOf(p.If.GetType()).Kind != "boolean":
				why = "condition not boolean"
			case br != nil && !tdOf(p.Then.GetType()).equal(tdOf(br)):
				why = "branches of two types"
			}
		}
		if br != nil {
			ty = tdOf(br)
		}
		c.Case(why != "" || n > 1, "if %v else %v: %s", pairs, els, why)
		c.Label(why)
		got, err := expr.NewIfThen(pairs[0], els, pairs[1:]...)
		agree(c, ty, why, outcome{"NewIfThen", got, err})
		if why == "" {
			c.Check(got.NIfs() == n, "pairs", "%d", got.NIfs())
			before := got.String()
			for i := range pairs {
				if i > 0 {
					pairs[i].Then = nil
				}
			}
			c.Check(got.String() == before, "shares", "changing the argument slice changes the expression: %s, was %s", got, before)
		}
	})

	p.sub("switches", 3000, func(c *C) {
		mt := genLitTD(c.T, typeGenOpts{depth: 1, noFunc: true, noUnspec: true, decimalOK: true, noEmpty: true})
		for !mt.litable() {
			mt = &TD{Kind: "i32", Null: 2}
		}
		rt := genETD(c.T)
		n := rapid.IntRange(0, 3).Draw(c.T, "n")
		why := ""
		nullable := false
		res := func(what string, i int) expr.Expression {
			if pct(c.T, 5) {
				why = "no " + what
				return nil
			}
			d := rt.clone()
			d.Null = 1 + rapid.IntRange(0, 1).Draw(c.T, "null")
			if pct(c.T, 8) {
				d, _ = mutateTD(c.T, rt)
				if d.Null != 1 && d.Null != 2 {
					d = rt.clone()
				}
				if !d.withNull(1).equal(rt.withNull(1)) {
					why = what + " of another type"
				}
			}
			nullable = nullable || d.Null == 1
			return param(d, i)
		}
		var match expr.Expression
		if pct(c.T, 5) {
			why = "no match"
		} else {
			match = param(mt, 50)
		}
		var cases []switchCase
		for i := 0; i < n; i++ {
			var l expr.Literal
			switch d := mt.withNull(2 - i%2); {
			case pct(c.T, 5):
				why = "no case literal"
			case pct(c.T, 8):
				d = &TD{Kind: rapid.SampledFrom([]string{"i8", "i32", "string", "uuid"}).Draw(c.T, "k"), Null: 2}
				if d.withNull(1).equal(mt.withNull(1)) {
					break
				}
				why = "case of another type"
				l = genLV(c.T, d).lit()
			}
			if why == "" || l == nil && why != "no case literal" {
				l = genLV(c.T, mt.withNull(2-i%2)).lit()
			}
			cases = append(cases, switchCase{l, res("branch", i)})
		}
		var els expr.Expression
		if n > 1 || rapid.Bool().Draw(c.T, "else") {
			els = res("else", 100)
		}
		// what is wrong, from what was drawn
		why = ""
		if n == 0 {
			why = "no cases"
		}
		var rtd *TD
		result := func(e expr.Expression) {
			d := tdOf(e.GetType())
			if rtd != nil && !rtd.withNull(1).equal(d.withNull(1)) {
				why = "results of two types"
			}
			if rtd == nil {
				rtd = d
			}
		}
		if els != nil {
			result(els)
		}
		for _, k := range cases {
			switch {
			case k.If == nil:
				why = "no case literal"
			case k.Then == nil:
				why = "no branch"
			case match != nil && !tdOf(k.If.GetType()).withNull(1).equal(mt.withNull(1)):
				why = "case of another type"
			default:
				result(k.Then)
			}
		}
		if match == nil {
			why = "no match"
		}
		if rtd != nil {
			rt = rtd
		}
		c.Case(why != "" || n > 1, "switch %v %v else %v: %s", match, cases, els, why)
		c.Label(why)
		got, err := expr.NewSwitch(match, els, cases...)
		want := rt.withNull(2)
		if nullable {
			want.Null = 1
		}
		if why == "" && els == nil {
			want = nil // no default: the result may be null, which isn't pinned down
		}
		agree(c, want, why, outcome{"NewSwitch", got, err})
		if why == "" {
			c.Check(got.NCases() == n, "cases", "%d", got.NCases())
		}
	})

	p.sub("builders", 4000, func(c *C) {
		b := plan.NewBuilder(eCol())
		eb := b.GetExprBuilder()
		d := genETD(c.T)
		in := param(genETD(c.T), 3)
		boom := fmt.Errorf("boom")
		what := rapid.SampledFrom([]string{"cast", "cast", "param", "param", "lambda", "lambda", "lambda", "literal", "window", "window", "window", "agg", "custom", "error"}).Draw(c.T, "what")
		why := ""
		c.Label(what)
		bad := func(s string) bool {
			if pct(c.T, 15) {
				why = s
				return true
			}
			return false
		}
		switch what {
		case "cast":
			var from expr.Builder = eb.Expression(in)
			ty := d.build()
			if bad("no input") {
				from = []expr.Builder{nil, eb.Expression(nil), badB{boom}}[rapid.IntRange(0, 2).Draw(c.T, "i")]
			}
			if bad("no type") {
				ty = nil
			}
			fb := types.CastFailBehavior(rapid.IntRange(0, 2).Draw(c.T, "fb"))
			c.Case(true, "cast of %v to %v: %s", from, ty, why)
			got, err := eb.Cast(from, ty).FailBehavior(fb).BuildExpr()
			got2, err2 := eb.Cast(from, ty).FailBehavior(fb).BuildFuncArg()
			outs := []outcome{{"builder.Cast", got, err}, {"builder.Cast arg", got2, err2}}
			if why == "" {
				outs = append(outs, outcome{"Cast", &expr.Cast{Type: ty, Input: in, FailureBehavior: fb}, nil})
			}
			agree(c, d, why, outs...)
		case "param":
			ty := d.build()
			if bad("no type") {
				ty = nil
			}
			r := rapid.Uint32().Draw(c.T, "ref")
			c.Case(true, "parameter %d of %v: %s", r, ty, why)
			got, err := eb.DynamicParam(ty, r).BuildExpr()
			got2, err2 := eb.DynamicParam(ty, r).BuildFuncArg()
			outs := []outcome{{"builder.DynamicParam", got, err}, {"builder.DynamicParam arg", got2, err2}}
			if why == "" {
				outs = append(outs, outcome{"DynamicParameter", &expr.DynamicParameter{OutputType: ty, ParameterReference: r}, nil})
			}
			agree(c, d, why, outs...)
		case "lambda":
			ps := genCols(c.T, 0, 3)
			st := &types.StructType{Nullability: types.NullabilityRequired, Types: buildAll(ps.T)}
			var body expr.Builder = eb.Expression(in)
			bt := tdOf(in.GetType())
			if len(ps.T) > 0 && rapid.Bool().Draw(c.T, "uses") {
				i := rapid.IntRange(0, len(ps.T)-1).Draw(c.T, "i")
				body, bt = eb.LambdaParamRef(*expr.NewStructFieldRef(int32(i)), 0), ps.T[i]
				if pct(c.T, 30) {
					// a function over it
					body = eb.ScalarFunc(fnID("same")).Args(eb.LambdaParamRef(*expr.NewStructFieldRef(int32(i)), 0), eb.Expression(param(bt, 9)))
					bt = boolTD(bt.Null)
				}
			}
			switch {
			case bad("no parameters"):
				st = nil
			case bad("parameters that may be null"):
				st.Nullability = rapid.SampledFrom([]types.Nullability{types.NullabilityNullable, types.NullabilityUnspecified}).Draw(c.T, "n")
			case len(ps.T) > 0 && bad("parameter without type"):
				st.Types[rapid.IntRange(0, len(ps.T)-1).Draw(c.T, "at")] = nil
			}
			switch {
			case bad("no body"):
				body = []expr.Builder{nil, eb.Expression(nil), badB{boom}}[rapid.IntRange(0, 2).Draw(c.T, "i")]
			case bad("undeclared parameter"):
				body = eb.LambdaParamRef(*expr.NewStructFieldRef(int32(len(ps.T) + rapid.IntRange(0, 2).Draw(c.T, "over"))), 0)
			case bad("undeclared lambda"):
				body = eb.LambdaParamRef(*expr.NewStructFieldRef(0), uint32(rapid.IntRange(1, 3).Draw(c.T, "out")))
			}
			c.Case(true, "lambda (%v) of %v: %s", ps.T, body, why)
			got, err := eb.Lambda(st, body).BuildExpr()
			got2, err2 := eb.Lambda(st, body).BuildFuncArg()
			want := &TD{Kind: "func", Null: 2, Kids: append(append([]*TD{}, ps.T...), bt)}
			agree(c, want, why, outcome{"builder.Lambda", got, err}, outcome{"builder.Lambda arg", got2, err2})
			// a failed one leaves no lambda open
			_, err = eb.LambdaParamRef(*expr.NewStructFieldRef(0), 0).BuildExpr()
			c.Check(err != nil, "left_open", "a lambda parameter is accepted outside any lambda after building one")
		case "literal":
			d := genLitTD(c.T, typeGenOpts{depth: 2, noFunc: true, noUnspec: true, decimalOK: true, noEmpty: true})
			if !d.litable() {
				return
			}
			l := genLV(c.T, d.clone()).lit()
			var lerr error
			if bad("failed literal") {
				lerr = boom
			}
			c.Case(why != "", "literal %v: %s", l, why)
			got, err := eb.Wrap(l, lerr).BuildExpr()
			got2, err2 := eb.Wrap(l, lerr).BuildFuncArg()
			outs := []outcome{{"builder.Wrap", got, err}, {"builder.Wrap arg", got2, err2}}
			if why == "" {
				x1, e1 := eb.Literal(l).BuildExpr()
				x2, e2 := eb.Expression(l).BuildExpr()
				outs = append(outs, outcome{"builder.Literal", x1, e1}, outcome{"builder.Expression", x2, e2})
			}
			agree(c, nil, why, outs...)
			_, err = eb.Literal(nil).BuildExpr()
			c.Check(err != nil, "nil_literal", "no literal is accepted")
		case "window":
			fn := rapid.SampledFrom([]string{"rank", "lag", "c_rank"}).Draw(c.T, "fn")
			if fn == "c_rank" {
				fn = "rank"
			}
			ph := types.AggPhaseInitialToResult
			if eFns[fn].Many {
				ph = types.AggregationPhase(rapid.IntRange(1, 4).Draw(c.T, "phase"))
			} else if bad("phase of what isn't decomposable") {
				ph = types.AggPhaseInitialToIntermediate
			}
			var fa []types.FuncArg
			var ba []expr.FuncArgBuilder
			want := &TD{Kind: "i64", Null: 2}
			if fn == "lag" {
				fa, ba, want = []types.FuncArg{in}, []expr.FuncArgBuilder{eb.Expression(in)}, tdOf(in.GetType())
			}
			ns := rapid.IntRange(0, 3).Draw(c.T, "nsorts")
			var sorts []expr.SortField
			for i := 0; i < ns; i++ {
				sorts = append(sorts, expr.SortField{Expr: param(d, i), Kind: types.SortDescNullsFirst})
			}
			directWhy := why
			if ns > 0 && bad("incomplete sort") {
				if rapid.Bool().Draw(c.T, "which") {
					sorts[ns-1].Expr = nil
				} else {
					sorts[ns-1].Kind = nil
				}
			}
			bt := types.BoundsType(rapid.IntRange(0, 2).Draw(c.T, "bt"))
			var lo, up expr.Bound
			if rapid.Bool().Draw(c.T, "bounds") {
				lo, up = expr.PrecedingBound(2), expr.CurrentRow{}
			}
			if bt == types.BoundsTypeRange && ns != 1 {
				if lo != nil {
					why = "range bounds without exactly one sort"
				} else if why == "" {
					why = "?"
				}
			}
			var parts []expr.Builder
			var ps []expr.Expression
			for i := rapid.IntRange(0, 2).Draw(c.T, "nparts"); i > 0; i-- {
				ps = append(ps, param(d, i))
				parts = append(parts, eb.Expression(ps[len(ps)-1]))
			}
			if len(parts) > 0 && bad("missing partition") {
				parts[len(parts)-1] = []expr.Builder{nil, eb.Expression(nil), badB{boom}}[rapid.IntRange(0, 2).Draw(c.T, "i")]
			}
			c.Case(true, "window %s sorts %v bounds %v %v %v phase %v: %s", fn, sorts, bt, lo, up, ph, why)
			mk := func() (expr.Expression, error) {
				wb := eb.WindowFunc(fnID(fn)).Args(ba...).Phase(ph).Invocation(types.AggInvocationAll).Sort(sorts...).Partitions(parts...).BoundsType(bt).Bounds(lo, up)
				e, err := wb.BuildExpr()
				arg, aerr := wb.BuildFuncArg()
				c.Check((err == nil) == (aerr == nil), "window_arg", "as an expression %v, as an argument %v", err, aerr)
				if err == nil {
					x, ok := arg.(expr.Expression)
					c.Check(ok && x.Equals(e), "window_arg", "as an expression %v, as an argument %v", e, arg)
				}
				return e, err
			}
			if why == "?" {
				_, _ = mk()
				return
			}
			got, err := mk()
			direct, derr := expr.NewWindowFunc(eb.Reg, fnID(fn), nil, types.AggInvocationAll, ph, fa...)
			if directWhy != "" {
				agree(c, want, why, outcome{"builder.WindowFunc", got, err}, outcome{"NewWindowFunc", direct, derr})
				return
			}
			agree(c, want, why, outcome{"builder.WindowFunc", got, err})
			agree(c, want, "", outcome{"NewWindowFunc", direct, derr})
			if why == "" {
				direct.Sorts, direct.Partitions, direct.BoundsType, direct.LowerBound, direct.UpperBound = sorts, ps, bt, lo, up
				agree(c, want, why, outcome{"builder.WindowFunc", got, err}, outcome{"NewWindowFunc", direct, derr})
			}
		case "agg":
			sorts := []expr.SortField{{Expr: param(d, 1), Kind: types.SortAscNullsFirst}}
			if bad("incomplete sort") {
				if rapid.Bool().Draw(c.T, "which") {
					sorts[0].Expr = nil
				} else {
					sorts[0].Kind = nil
				}
			}
			inv := types.AggregationInvocation(rapid.IntRange(0, 2).Draw(c.T, "inv"))
			c.Case(true, "aggregate sorts %v: %s", sorts, why)
			got, err := eb.AggFunc(fnID("least")).Args(eb.Expression(in)).Phase(types.AggPhaseInitialToResult).Invocation(inv).Sorts(sorts...).Build()
			direct, derr := expr.NewAggregateFunc(eb.Reg, fnID("least"), nil, inv, types.AggPhaseInitialToResult, sorts, in)
			agree(c, tdOf(in.GetType()), why, outcome{"builder.AggFunc", got, err}, outcome{"NewAggregateFunc", direct, derr})
		case "custom":
			ty := d.build()
			if bad("no output type") {
				ty = nil
			}
			c.Case(true, "custom functions of type %v: %s", ty, why)
			s, e1 := expr.NewCustomScalarFunc(eb.Reg, ext.NewScalarFuncVariant(fnID("c_f")), ty, nil, in)
			w, e2 := expr.NewCustomWindowFunc(eb.Reg, ext.NewWindowFuncVariant(fnID("c_w")), ty, nil, types.AggInvocationAll, types.AggPhaseInitialToResult, in)
			a, e3 := expr.NewCustomAggregateFunc(eb.Reg, ext.NewAggFuncVariant(fnID("c_a")), ty, nil, types.AggInvocationAll, types.AggPhaseInitialToResult, nil, in)
			agree(c, d, why, outcome{"NewCustomScalarFunc", s, e1})
			agree(c, d, why, outcome{"NewCustomWindowFunc", w, e2})
			agree(c, d, why, outcome{"NewCustomAggregateFunc", a, e3})
		case "error":
			// the error of a failing operand is the error of the whole
			c.Case(true, "failing operand")
			_, e1 := eb.ScalarFunc(fnID("pick")).Args(eb.Expression(in), badB{boom}).BuildExpr()
			_, e2 := eb.WindowFunc(fnID("lag")).Args(badB{boom}).Phase(types.AggPhaseInitialToResult).BuildExpr()
			_, e3 := eb.AggFunc(fnID("least")).Args(badB{boom}).Phase(types.AggPhaseInitialToResult).Build()
			c.Check(e1 != nil && e2 != nil && e3 != nil, "lost", "the error of an operand is lost: %v %v %v", e1, e2, e3)
		}
	})

	p.sub("trees", 3000, func(c *C) {
		w := genWorld(c.T)
		x := ECtx{cols: &ECols{}, noSub: true}
		e := genEX(c.T, x, genWantTD(c.T), rapid.IntRange(2, 4).Draw(c.T, "depth"))
		why := ""
		if pct(c.T, 60) {
			why = misType(c.T, e)
		}
		c.Case(why != "" || len(e.Kids) > 1, "%s: %s", e, why)
		c.Label(why)
		reg := w.reg(c)
		x1, e1 := newEB(c, w, reg, x.cols, false).build(e)
		x2, e2 := newEB(c, w, reg, x.cols, true).build(e)
		if why != "" {
			agree(c, nil, why, outcome{"constructors", x1, e1}, outcome{"builder", x2, e2})
		} else {
			agree(c, e.T, why, outcome{"constructors", x1, e1}, outcome{"builder", x2, e2})
		}
	})
}

// misType replaces one operand somewhere by one whose type doesn't fit, if there is one that has to fit.
func misType(t *rapid.T, root *EX) string {
	type spot struct {
		e    *EX
		i    int
		what string
	}
	var spots []spot
	root.each(func(e *EX) {
		switch e.K {
		case "scalar":
			for _, a := range e.Args {
				if a.What != "v" {
					continue
				}
				switch e.Fn {
				case "add32", "add64", "label", "part", "same":
					spots = append(spots, spot{e, a.Kid, e.Fn})
				case "pick":
					if e.nArgs() > 1 {
						spots = append(spots, spot{e, a.Kid, e.Fn})
					}
				}
			}
		case "if":
			for i := 0; i+1 < len(e.Kids); i += 2 {
				spots = append(spots, spot{e, i, "condition"}, spot{e, i + 1, "branch"})
			}
			spots = append(spots, spot{e, len(e.Kids) - 1, "else"})
		case "switch":
			n := 0
			for i := 2; i < len(e.Kids); i += 2 {
				n++
			}
			spots = append(spots, spot{e, 0, "match"})
			if n > 1 || e.HasElse {
				spots = append(spots, spot{e, 2, "result"})
			}
		}
	})
	if len(spots) == 0 {
		return ""
	}
	s := rapid.SampledFrom(spots).Draw(t, "spot")
	old := s.e.Kids[s.i].T
	d := &TD{Kind: rapid.SampledFrom([]string{"i8", "fp64", "uuid", "binary"}).Draw(t, "newkind"), Null: old.Null}
	if d.Kind == old.Kind {
		d.Kind = "i16"
	}
	if (s.what == "branch" || s.what == "else") && rapid.Bool().Draw(t, "nullonly") {
		d = old.withNull(3 - old.Null)
	}
	s.e.Kids[s.i] = &EX{K: "param", T: d, Op: 77}
	return s.what
}
