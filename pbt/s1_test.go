package pbt

import (
	"fmt"
	"os"
	"strings"
	"testing"
	"testing/fstest"

	"github.com/substrait-io/substrait-go/v8/testcases/parser"
)

// sParse parses the text, keeping what the parser prints to itself.
func sParse(c *C, text string) (f *parser.TestFile, err error) {
	out := os.Stdout
	if null, e := os.OpenFile(os.DevNull, os.O_WRONLY, 0); e == nil {
		os.Stdout = null
		defer func() { os.Stdout = out; null.Close() }()
	}
	c.NoPanic("parse", func() { f, err = parser.ParseTestCasesFromString(text) })
	c.Check((f == nil) == (err != nil), "file_and_error", "file %v and error %v for\n%s", f, err, text)
	if hash64(text)%6 == 0 { // the same from a file
		fs := fstest.MapFS{"tests/a.test": {Data: []byte(text)}}
		var g *parser.TestFile
		var err2 error
		c.NoPanic("parse_file", func() { g, err2 = parser.ParseTestCaseFileFromFS(fs, "tests/a.test") })
		c.Check((err == nil) == (err2 == nil) && (g == nil) == (err2 != nil), "from_file", "from a file: %v, from a string: %v for\n%s", err2, err, text)
		if err == nil {
			c.Check(len(f.TestCases) == len(g.TestCases), "from_file_cases", "%d cases from a file, %d from a string for\n%s", len(g.TestCases), len(f.TestCases), text)
			for i, tc := range f.TestCases {
				c.Check(tc.String() == g.TestCases[i].String() && tc.GroupDesc == g.TestCases[i].GroupDesc, "from_file_case", "%q from a file, %q from a string", g.TestCases[i], tc)
			}
		}
		c.NoPanic("parse_no_file", func() { g, err2 = parser.ParseTestCaseFileFromFS(fs, "tests/b.test") })
		c.Check(err2 != nil && g == nil, "no_file", "a file that is not there gives %v", g)
	}
	return
}

func sHeader(agg bool, uri string) string {
	kw := "SCALAR"
	if agg {
		kw = "AGGREGATE"
	}
	return "### SUBSTRAIT_" + kw + "_TEST: v1.0\n### SUBSTRAIT_INCLUDE: '" + uri + "'\n"
}

// each visits the values of the case.
func (c *sCase) each(f func(v *LV, col bool)) {
	arg := func(a *sArg) {
		if a != nil && a.V != nil {
			f(a.V.L, false)
			for _, k := range a.V.L.flat() {
				f(k, false)
			}
		}
	}
	for _, a := range c.Args {
		arg(a)
	}
	arg(c.Result)
	for _, a := range c.Aggs {
		arg(a.Scalar)
	}
	for _, r := range c.Rows {
		for _, v := range r {
			if v.L != nil {
				f(v.L, true)
			}
		}
	}
}

func (v *LV) flat() []*LV {
	var out []*LV
	for _, k := range v.Kids {
		out = append(append(out, k), k.flat()...)
	}
	return out
}

// unprintable tells why the text of the case may not say what the case is.
func (c *sCase) unprintable() string {
	why := ""
	c.each(func(v *LV, col bool) {
		if v.Null {
			return
		}
		switch v.T.Kind {
		case "binary", "fixedbinary":
			why = "print:binary"
		case "timestamp_tz":
			why = "print:timestamp_tz"
		case "precision_timestamp_tz":
			if p := int(v.T.P); col || p > 3 && v.I%pow10(p-3).Int64() != 0 {
				why = "print:precision_timestamp_tz"
			}
		}
	})
	return why
}

func (c *sCase) checkCase(ch *C, tc *parser.TestCase, text string) {
	mode := kStrict
	got, want := goCaseKey(tc, kStrict, c), c.key(kStrict)
	if got != want && c.Form == sSingle && strings.HasPrefix(c.ColTypes[0].Kind, "precision_timestamp") && got == c.key(kPlain) {
		ch.Soft("column:"+c.ColTypes[0].Kind, "values of the column are plain timestamps:\n%s", got)
		mode = kPlain
	}
	if mode == kStrict {
		ch.Check(got == want, "parsed", "parsed\n%s\nwant\n%s\ntext:\n%s", got, want, text)
	}
	for i, a := range c.Args {
		if a.V == nil || a.V.L.T.Kind != "list" {
			w := a.Enum
			if a.V != nil {
				w = a.V.Text
			}
			ch.Check(tc.Args[i].ValueText == w, "value_text", "text of argument %d is %q, want %q", i, tc.Args[i].ValueText, w)
		}
	}
}

func (c *sCase) checkPrint(ch *C, tc *parser.TestCase, uri string) {
	var s string
	ch.NoPanic("print", func() { s = tc.String() })
	for i := 0; i < 4; i++ {
		ch.Check(tc.String() == s, "unstable_text", "%q, then %q", s, tc.String())
	}
	back, err := sParse(ch, sHeader(c.Form != sScalar, uri)+"# g\n"+s+"\n")
	why := c.unprintable()
	if err != nil {
		if why != "" {
			ch.Soft(why, "%q isn't parsed: %v", s, err)
			return
		}
		ch.Fail("printed_malformed", "%q isn't parsed: %v", s, err)
	}
	ch.Check(len(back.TestCases) == 1, "printed_count", "%q is %d cases", s, len(back.TestCases))
	got, want := goCaseKey(back.TestCases[0], kPrint, nil), goCaseKey(tc, kPrint, nil)
	if got != want {
		if why == "" && c.Form == sSingle && strings.HasPrefix(c.ColTypes[0].Kind, "precision_timestamp") {
			why = "column:" + c.ColTypes[0].Kind
		}
		if why != "" {
			ch.Soft(why, "%q is\n%s\nwant\n%s", s, got, want)
			return
		}
		ch.Fail("printed", "%q is\n%s\nwant\n%s", s, got, want)
	}
	// what it says, also by the model
	if why == "" {
		want := c.key(kPrint)
		if c.Form == sSingle && got == c.key(kPrintPlain) { // see checkCase
			want = got
		}
		ch.Check(got == want, "printed_model", "%q is\n%s\nwant\n%s", s, got, want)
	}
}

func TestS01(t *testing.T) {
	p := start(t, "S01", "files with three cases or more, malformed files that differ from a well-formed one in one place, function calls with two arguments or more")
	defer p.finish()

	p.sub("files", 6000, func(c *C) {
		f := genSFile(c.T)
		text := f.text(c.T)
		n := 0
		for _, g := range f.Groups {
			n += len(g.Cases)
		}
		c.Case(n >= 3, "%s", text)
		tf, err := sParse(c, text)
		c.Check(err == nil, "well_formed_refused", "%v\n%s", err, text)
		kind := parser.ScalarFuncType
		if f.Agg {
			kind = parser.AggregateFuncType
		}
		c.Check(tf.Header != nil && tf.Header.FuncType == kind && tf.Header.IncludedURI == f.Includes[0] && tf.Header.Version == f.Version,
			"header", "header %+v of\n%s", tf.Header, text)
		c.Check(len(tf.TestCases) == n, "number_of_cases", "%d cases, want %d:\n%s", len(tf.TestCases), n, text)
		i := 0
		for _, g := range f.Groups {
			desc := ""
			if g.Desc != nil {
				desc = strings.TrimSpace(*g.Desc)
			}
			for _, sc := range g.Cases {
				tc := tf.TestCases[i]
				i++
				c.Label([]string{"scalar", "single", "compact", "define"}[sc.Form])
				c.Check(tc.GroupDesc == desc, "group", "group %q, want %q", tc.GroupDesc, desc)
				c.Check(tc.BaseURI == f.Includes[0], "uri", "uri %q, want %q", tc.BaseURI, f.Includes[0])
				sc.checkCase(c, tc, text)
				sc.checkAccess(c, tc)
				sc.checkPrint(c, tc, "/extensions/x.yaml")
			}
		}
	})
	p.sub("malformed", 5000, sFaulty)
	p.sub("calls", 4000, func(c *C) { genSCase(c.T, pct(c.T, 60)).sInvoke(c) })
	p.sub("corpus", 400, sFromCorpus)
	p.sub("noise", 6000, sNoise)
}

// checkAccess compares what the accessors say with the case itself.
func (c *sCase) checkAccess(ch *C, tc *parser.TestCase) {
	c1 := c
	var want []string
	sig := func(d *TD) string { return d.build().ShortString() }
	var short []string
	arg := func(a *sArg) {
		if a.V == nil {
			want, short = append(want, "enum"), append(short, "req")
		} else {
			want, short = append(want, a.V.L.T.String()), append(short, sig(a.V.L.T))
		}
	}
	switch c.Form {
	case sScalar:
		for _, a := range c.Args {
			arg(a)
		}
	case sSingle:
		want, short = append(want, c.colTD(0).String()), append(short, sig(c.colTD(0)))
	default:
		for _, a := range c.Aggs {
			if a.Scalar != nil {
				arg(a.Scalar)
			} else {
				want, short = append(want, c.colTD(a.Col).String()), append(short, sig(c.colTD(a.Col)))
			}
		}
	}
	var got []string
	for i, typ := range tc.GetArgTypes() {
		if i < len(want) && want[i] == "enum" {
			got = append(got, typ.ShortString())
			want[i] = typ.ShortString()
		} else {
			got = append(got, tdOf(typ).String())
		}
	}
	ch.Check(fmt.Sprint(got) == fmt.Sprint(want), "arg_types", "argument types %v, want %v", got, want)
	for i := range short {
		if short[i] == "req" {
			short[i] = tc.GetArgTypes()[i].ShortString()
		}
	}
	name := c.Func + ":" + strings.Join(short, "_")
	ch.Check(tc.CompoundFunctionName() == name, "compound_name", "%s, want %s", tc.CompoundFunctionName(), name)
	opts := tc.GetFunctionOptions()
	ch.Check(len(opts) == len(c.Opts), "options", "%v, want %v", opts, c.Opts)
	for _, kv := range c.Opts {
		n := 0
		for _, o := range opts {
			if o.Name == kv[0] && len(o.Preference) == 1 && o.Preference[0] == kv[1] {
				n++
			}
		}
		ch.Check(n == 1, "options", "%v, want %v", opts, c.Opts)
	}
	first := fmt.Sprint(opts)
	for i := 0; i < 4; i++ {
		ch.Check(fmt.Sprint(tc.GetFunctionOptions()) == first, "options_order", "%v, then %v", first, tc.GetFunctionOptions())
	}
	cols, err := tc.GetAggregateColumnsData()
	if c.Form == sScalar {
		ch.Check(err != nil, "scalar_columns", "%v", cols)
		return
	}
	ch.Check(err == nil, "columns_data", "%v", err)
	ch.Check(len(cols) == len(c1.ColTypes), "columns_data", "%d columns, want %d", len(cols), len(c1.ColTypes))
	for _, col := range cols {
		ch.Check(len(col) == len(c.Rows), "columns_data", "%d values, want %d", len(col), len(c.Rows))
	}
}
