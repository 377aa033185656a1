package pbt

import (
	"fmt"
	"strings"

	"github.com/substrait-io/substrait-go/v8/expr"
	ext "github.com/substrait-io/substrait-go/v8/extensions"
	"github.com/substrait-io/substrait-go/v8/functions"
	"github.com/substrait-io/substrait-go/v8/types"
	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	"pgregory.net/rapid"
)

// sParam spells a parameter type which accepts the type.
func sParam(t *rapid.T, d *TD, n *int, nested bool) string {
	s := d.Kind
	q := ""
	if d.Null == 1 && nested {
		q = "?"
	}
	par := func(p int32, pre string) string {
		if pct(t, 40) {
			return fmt.Sprint(p)
		}
		*n++
		return fmt.Sprintf("%s%d", pre, *n)
	}
	switch d.Kind {
	case "fixedchar", "varchar", "fixedbinary":
		s += q + "<" + par(d.P, "L") + ">"
	case "precision_time", "precision_timestamp", "precision_timestamp_tz", "interval_day":
		s += q + "<" + par(d.P, "P") + ">"
	case "decimal":
		s += q + "<" + par(d.P, "P") + "," + par(d.S, "S") + ">"
	case "list":
		s += q + "<" + sParam(t, d.Kids[0], n, true) + ">"
	default:
		s += q
	}
	return s
}

// sOther is a kind that does not accept the type.
func sOther(t *rapid.T, d *TD) string {
	for {
		k := []string{"boolean", "i8", "i32", "fp64", "string", "date", "uuid", "list<boolean>", "map<i8,i8>"}[pick(t, 9)]
		if !strings.HasPrefix(k, d.Kind) {
			return k
		}
	}
}

func (c *sCase) sInvoke(ch *C) {
	t := ch.T
	// what the arguments are; nil: an enum value
	var tds []*TD
	var enums []string
	nullable := false
	val := func(d *TD) {
		tds, enums = append(tds, d), append(enums, "")
		nullable = nullable || d.Null == 1
	}
	arg := func(a *sArg) {
		if a.V == nil {
			tds, enums = append(tds, nil), append(enums, a.Enum)
		} else {
			val(a.V.L.T)
		}
	}
	switch c.Form {
	case sScalar:
		for _, a := range c.Args {
			arg(a)
		}
	case sSingle:
		val(c.colTD(0))
	default:
		for _, a := range c.Aggs {
			if a.Scalar != nil {
				arg(a.Scalar)
			} else {
				val(c.colTD(a.Col))
			}
		}
	}
	urn, uri := "extension:verif:sinv", "extension:verif:sinv"
	if pct(t, 50) {
		n := []string{"functions_x", "a", "x.y", "deep/er"}[pick(t, 4)]
		urn, uri = "extension:io.substrait:"+n, "/extensions/"+n+".yaml"
	}
	enumArg := func(e string, i int) *ymap { return ym("name", fmt.Sprintf("a%d", i), "options", []any{"ZZ", e}) }
	valArg := func(s string, i int) *ymap { return ym("name", fmt.Sprintf("a%d", i), "value", s) }
	impl := func(args []any, ret, nul string) *ymap {
		m := ym("args", args)
		if nul != "" {
			m.add("nullability", nul)
		}
		m.add("return", ret)
		if c.Form != sScalar {
			m.add("decomposable", "NONE")
		}
		return m
	}
	short := func(d *TD) string { return d.build().ShortString() }
	n := 0
	exact := func() ([]any, string) {
		var as []any
		var sh []string
		for i, d := range tds {
			if d == nil {
				as, sh = append(as, enumArg(enums[i], i)), append(sh, "req")
			} else {
				as, sh = append(as, valArg(sParam(t, d, &n, false), i)), append(sh, short(d))
			}
		}
		return as, c.Func + ":" + strings.Join(sh, "_")
	}
	anys := func() ([]any, string) {
		var as []any
		var sh []string
		used := map[string]int{}
		some := false
		for i, d := range tds {
			switch {
			case d == nil:
				as, sh = append(as, enumArg(enums[i], i)), append(sh, "req")
			case !some || pct(t, 60):
				some = true
				k := d.withNull(2).String()
				if used[k] == 0 || pct(t, 50) {
					used[k] = i + 1
				}
				as, sh = append(as, valArg(fmt.Sprintf("any%d", used[k]), i)), append(sh, "any")
			default:
				as, sh = append(as, valArg(sParam(t, d, &n, false), i)), append(sh, short(d))
			}
		}
		if !some {
			return nil, ""
		}
		return as, c.Func + ":" + strings.Join(sh, "_")
	}
	rets := []string{"boolean", "i64", "string", "date?", "fp32"}
	type want struct {
		name string
		ret  *TD
	}
	var impls []any
	var wants []want
	put := func(as []any, name string) {
		if name == "" {
			return
		}
		r := rets[pick(t, len(rets))]
		nul := []string{"", "MIRROR", "DECLARED_OUTPUT"}[pick(t, 3)]
		d := &TD{Kind: strings.TrimSuffix(r, "?"), Null: 2}
		if nul != "DECLARED_OUTPUT" && nullable || nul == "DECLARED_OUTPUT" && strings.HasSuffix(r, "?") {
			d.Null = 1
		}
		if nul != "DECLARED_OUTPUT" {
			r = strings.TrimSuffix(r, "?")
		}
		impls, wants = append(impls, impl(as, r, nul)), append(wants, want{name, d})
	}
	mode := pick(t, 6)
	if mode == 0 && len(tds) == 0 {
		mode = 1
	}
	miss := func() { // a function of the name with other parameters
		as, name := exact()
		switch k := pick(t, 3); {
		case k == 0 || len(tds) == 0:
			as, name = append(as, valArg("i8", len(as))), name+"_i8"
		case k == 1 && len(tds) > 1:
			as = as[:len(as)-1]
		default:
			i := pick(t, len(tds))
			if tds[i] == nil {
				as[i] = valArg("list<boolean>", i)
			} else {
				as[i] = valArg(sOther(t, tds[i]), i)
			}
		}
		impls = append(impls, impl(as, "i8", ""))
	}
	doc := ym("urn", urn)
	class := "scalar_functions"
	if c.Form != sScalar {
		class = "aggregate_functions"
	}
	fname := c.Func
	what := ""
	switch mode {
	case 0:
		what = "other parameters"
		miss()
	case 1:
		what = "other name"
		put(exact())
		fname += "_"
		wants = nil
	case 2:
		what = "any"
		put(anys())
	default:
		what = "exact"
		put(exact())
		if pct(t, 40) {
			as, name := anys()
			if name != "" && name != wants[0].name {
				put(as, name)
			}
		}
	}
	if len(wants) > 0 && pct(t, 50) {
		as, _ := exact()
		impls = append([]any{impl(append(as, valArg("i16", len(as)), valArg("i16", len(as)+1)), "i8", "")}, impls...)
	}
	if len(impls) == 0 { // only enum arguments
		put(exact())
		what = "exact"
	}
	doc.add(class, []any{ym("name", fname, "impls", impls)})
	if pct(t, 30) { // a function of the other class
		as, _ := exact()
		if class == "scalar_functions" {
			m := impl(as, "i8", "")
			m.add("decomposable", "NONE")
			doc.add("aggregate_functions", []any{ym("name", "other_"+c.Func, "impls", []any{m})})
		} else {
			doc.add("scalar_functions", []any{ym("name", "other_"+c.Func, "impls", []any{ym("args", as, "return", "i8")})})
		}
	}
	col := &ext.Collection{}
	text := yText(doc, yStyle(t))
	if err := col.Load(strings.NewReader(text)); err != nil {
		ch.Fail("extension", "%v\n%s", err, text)
	}
	// the same function with another URN is another function
	if pct(t, 40) {
		n0 := n
		as, _ := exact()
		n = n0
		other := ym("urn", "extension:verif:elsewhere", class, []any{ym("name", c.Func, "impls", []any{impl(as, "i8", "")})})
		if err := col.Load(strings.NewReader(yText(other, yStyle(t)))); err != nil {
			ch.Fail("extension", "%v", err)
		}
	}
	src := sHeader(c.Form != sScalar, uri) + "# g\n" + c.text(t) + "\n"
	ch.Case(len(tds) >= 2, "%s of %s", what, src)
	ch.Label(what)
	tf, err := sParse(ch, src)
	ch.Check(err == nil && len(tf.TestCases) == 1, "well_formed_refused", "%v\n%s", err, src)
	tc := tf.TestCases[0]
	reg, fr := functions.NewExtensionAndFunctionRegistries(col)
	id := tc.ID()
	ch.Check(id.URN == urn, "urn", "URN of %s is %s, want %s", uri, id.URN, urn)
	var sf *expr.ScalarFunction
	var af *expr.AggregateFunction
	ch.NoPanic("invocation", func() {
		if c.Form == sScalar {
			sf, err = tc.GetScalarFunctionInvocation(&reg, fr)
		} else {
			af, err = tc.GetAggregateFunctionInvocation(&reg, fr)
		}
	})
	var err2 error
	ch.NoPanic("invocation", func() {
		if c.Form == sScalar {
			_, err2 = tc.GetAggregateFunctionInvocation(&reg, fr)
		} else {
			_, err2 = tc.GetScalarFunctionInvocation(&reg, fr)
		}
	})
	ch.Check(err2 != nil, "wrong_class", "a call of the other class for\n%s", src)
	if len(wants) == 0 {
		ch.Check(err != nil && sf == nil && af == nil, "unknown_function", "a call (%v %v) of %s with\n%s", sf, af, src, text)
		return
	}
	ch.Check(err == nil, "known_function_refused", "%v for %s with\n%s", err, src, text)
	w := wants[0]
	var got ext.FunctionID
	var args []*pb.FunctionArgument
	var opts []*types.FunctionOption
	var ret types.Type
	if c.Form == sScalar {
		got, ret, opts = sf.ID(), sf.GetType(), sf.GetOptions()
		p := sf.ToProto().GetScalarFunction()
		args = p.Arguments
		id2, ok := reg.DecodeFunc(p.FunctionReference)
		ch.Check(ok && id2 == got, "reference", "reference %d is %v, want %v", p.FunctionReference, id2, got)
	} else {
		got, ret, opts = af.ID(), af.GetType(), af.GetOptions()
		p := af.ToProto()
		args = p.Arguments
		id2, ok := reg.DecodeFunc(p.FunctionReference)
		ch.Check(ok && id2 == got, "reference", "reference %d is %v, want %v", p.FunctionReference, id2, got)
		ch.Check(p.Phase == pb.AggregationPhase_AGGREGATION_PHASE_INITIAL_TO_RESULT && p.Invocation == pb.AggregateFunction_AGGREGATION_INVOCATION_ALL && len(p.Sorts) == 0,
			"aggregation", "%v", p)
	}
	ch.Check(got.URN == urn && got.Name == w.name, "function", "%v, want %s of %s\n%s", got, w.name, src, text)
	ch.Check(tdOf(ret).String() == w.ret.String(), "return_type", "%v, want %v: %s\n%s", tdOf(ret), w.ret, src, text)
	ch.Check(len(args) == len(tds), "arguments", "%d arguments, want %d", len(args), len(tds))
	ch.Check(len(opts) == len(c.Opts), "call_options", "%v, want %v", opts, c.Opts)
	for i, o := range tc.GetFunctionOptions() {
		ch.Check(opts[i].Name == o.Name && fmt.Sprint(opts[i].Preference) == fmt.Sprint(o.Preference), "call_options", "%v, want %v", opts, tc.GetFunctionOptions())
	}
	column := func(i, k int) {
		f := args[i].GetValue().GetSelection()
		ch.Check(f.GetRootReference() != nil && f.GetDirectReference().GetStructField() != nil && f.GetDirectReference().GetStructField().Child == nil &&
			f.GetDirectReference().GetStructField().Field == int32(k), "column_reference", "argument %d is %v, want column %d of %s", i, args[i], k, src)
		ref, ok := af.Arg(i).(*expr.FieldReference)
		ch.Check(ok && tdOf(ref.GetType()).String() == c.colTD(k).String(), "column_type", "argument %d is %v, want %v", i, af.Arg(i), c.colTD(k))
	}
	value := func(i int, a *sArg) {
		if a.V == nil {
			ch.Check(args[i].GetEnum() == a.Enum, "enum_argument", "argument %d is %v, want %s", i, args[i], a.Enum)
			return
		}
		l := args[i].GetValue().GetLiteral()
		ch.Check(l != nil && litKey(l, false) == litKey(a.V.L.proto(), false), "value_argument", "argument %d is %v, want %v", i, args[i], a.V.L.proto())
	}
	switch c.Form {
	case sScalar:
		for i, a := range c.Args {
			value(i, a)
		}
	case sSingle:
		column(0, 0)
	default:
		for i, a := range c.Aggs {
			if a.Scalar != nil {
				value(i, a.Scalar)
			} else {
				column(i, a.Col)
			}
		}
	}
}
