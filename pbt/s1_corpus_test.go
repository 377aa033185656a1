package pbt

import (
	"fmt"
	"io/fs"
	"strings"
	"sync"

	"github.com/substrait-io/substrait"
	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/testcases/parser"
	"github.com/substrait-io/substrait-go/v8/types"
)

// files of the specification that use syntax the library doesn't read
var sUnread = map[string]bool{"std_dev": true, "variance": true, "all_match": true, "any_match": true, "filter": true, "transform": true}

var sCorpus = sync.OnceValue(func() (out [][2]string) {
	f := substrait.GetSubstraitTestsFS()
	err := fs.WalkDir(f, ".", func(p string, d fs.DirEntry, err error) error {
		if err != nil || d.IsDir() || !strings.HasSuffix(p, ".test") || sUnread[strings.TrimSuffix(d.Name(), ".test")] {
			return err
		}
		b, err := fs.ReadFile(f, p)
		out = append(out, [2]string{p, string(b)})
		return err
	})
	if err != nil || len(out) < 100 {
		panic(fmt.Sprint(len(out), err))
	}
	return
})

// sGoUnprintable is unprintable of a parsed case.
func sGoUnprintable(tc *parser.TestCase) string {
	why := ""
	var lit func(l expr.Literal, col bool)
	lit = func(l expr.Literal, col bool) {
		if _, ok := l.(*expr.NullLiteral); ok {
			return
		}
		switch l.GetType().(type) {
		case *types.BinaryType, *types.FixedBinaryType:
			why = "print:binary"
		case *types.TimestampTzType:
			why = "print:timestamp_tz"
		case *types.PrecisionTimestampTzType:
			why = "print:precision_timestamp_tz"
		}
		if v, ok := l.(*expr.ListLiteral); ok {
			for _, k := range v.Value {
				lit(k, col)
			}
		}
	}
	arg := func(a *parser.CaseLiteral) {
		if a == nil {
			return
		}
		if l, ok := a.Value.(expr.Literal); ok {
			lit(l, false)
		}
	}
	for _, a := range tc.Args {
		arg(a)
	}
	for _, a := range tc.AggregateArgs {
		arg(a.Argument)
	}
	if r, ok := tc.Result.(*parser.CaseLiteral); ok {
		arg(r)
	}
	for _, col := range tc.Columns {
		for _, l := range col {
			lit(l, true)
		}
	}
	return why
}

// sFromCorpus parses a few lines of a file of the specification.
func sFromCorpus(c *C) {
	files := sCorpus()
	f := files[pick(c.T, len(files))]
	head, n, first := "", 0, true
	var body []string
	for _, l := range strings.Split(f[1], "\n") {
		switch s := strings.TrimSpace(l); {
		case strings.HasPrefix(s, "### SUBSTRAIT_"):
			head += l + "\n"
		case s == "" || strings.HasPrefix(s, "#") || strings.HasPrefix(s, "DEFINE"):
			body, first = append(body, l), first || strings.HasPrefix(s, "#")
		case !strings.Contains(s, " = "): // a table that goes on
			body = append(body, l)
		case first || pct(c.T, 60): // groups have a case
			n++
			first = false
			body = append(body, l)
		}
	}
	if n == 0 {
		c.T.Skip("no case left")
	}
	text := head + strings.Join(body, "\n") + "\n"
	c.Case(n >= 3, "%s: %d cases", f[0], n)
	tf, err := sParse(c, text)
	c.Check(err == nil, "specification_refused", "%s: %v\n%s", f[0], err, text)
	c.Check(len(tf.TestCases) == n, "number_of_cases", "%s: %d cases, want %d\n%s", f[0], len(tf.TestCases), n, text)
	for _, tc := range tf.TestCases {
		c.NoPanic("print", func() { _ = tc.String() })
		if sGoUnprintable(tc) != "" {
			continue
		}
		c.Label("printed")
		checkReprint(c, tc)
	}
}

func checkReprint(c *C, tc *parser.TestCase) {
	s := tc.String()
	back, err := sParse(c, sHeader(tc.FuncType == parser.AggregateFuncType, "/extensions/x.yaml")+"# g\n"+s+"\n")
	c.Check(err == nil && len(back.TestCases) == 1, "printed_malformed", "%q isn't parsed: %v", s, err)
	got, want := goCaseKey(back.TestCases[0], kPrint, nil), goCaseKey(tc, kPrint, nil)
	c.Check(got == want, "printed", "%q is\n%s\nwant\n%s", s, got, want)
}

// sNoise garbles the text of a file: the outcome is one, and not a panic.
func sNoise(c *C) {
	t := c.T
	var b []byte
	if pct(t, 30) {
		fs := sCorpus()
		ls := strings.Split(fs[pick(t, len(fs))][1], "\n")
		i := pick(t, len(ls))
		b = []byte(strings.Join(append(ls[:min(3, len(ls))], ls[i:min(len(ls), i+6)]...), "\n") + "\n")
	} else {
		f := genSFile(t)
		f.Groups = f.Groups[:1]
		f.Groups[0].Cases = f.Groups[0].Cases[:1]
		b = []byte(f.text(t))
	}
	bits := []string{"(", ")", "((", "))", "()", "[", "]", "<", ">", "<0>", "<38,0>", "::", ":", ",", "'", "''", "\"", "null", "Null::i8?", "nan", "-inf", "col0", "col9", "t.col1",
		"=", "<!ERROR>", "<!", "#", "###", "\n", " ", "DEFINE t(i8) = ((1))", "list<i8>", "::enum", "1", "-1", "99999999999999999999", "1e9", "1.5", "'P1Y'", "P", "é", "\x00", "\xff",
		"decimal<99,1>", "i8?", "any1", "struct<i8>", "map<i8,i8>", "func<i8 -> i8>", "(x -> x)::func<i8 -> i8>", "interval_compound<3>", "u!a", "/*", "//"}
	for k := []int{1, 1, 1, 2, 3}[pick(t, 5)]; k > 0; k-- {
		i := pick(t, len(b)+1)
		j := min(len(b), i+[]int{0, 1, 1, 3, 10}[pick(t, 5)])
		ins := ""
		if pct(t, 70) {
			ins = bits[pick(t, len(bits))]
		} else if l := pick(t, len(b)+1); pct(t, 50) {
			ins = string(b[l:min(len(b), l+pick(t, 12))])
		}
		b = append(append(append([]byte{}, b[:i]...), ins...), b[j:]...)
	}
	text := string(b)
	tf, err := sParse(c, text)
	c.Case(err == nil, "%v\n%s", err, text)
	say := func(tf *parser.TestFile, err error) (s string) {
		if err != nil {
			return "error"
		}
		c.NoPanic("print", func() {
			s = fmt.Sprintf("%+v\n", *tf.Header)
			for _, tc := range tf.TestCases {
				s += tc.BaseURI + "|" + tc.GroupDesc + "|" + tc.String() + "\n"
			}
		})
		c.NoPanic("access", func() {
			for _, tc := range tf.TestCases {
				s += fmt.Sprint(tc.ID(), tc.GetFunctionOptions(), len(tc.GetArgTypes())) + "\n"
				tc.GetAggregateColumnsData()
			}
		})
		return
	}
	one := say(tf, err)
	two := say(sParse(c, text))
	c.Check(one == two, "unstable", "%s, then %s", one, two)
	if err == nil {
		c.Label("parsed")
		for _, tc := range tf.TestCases {
			if sGoUnprintable(tc) == "" {
				checkReprint(c, tc)
			}
		}
	}
}
