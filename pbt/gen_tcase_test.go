package pbt

import (
	"fmt"
	"math"
	"math/big"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/testcases/parser"
	"github.com/substrait-io/substrait-go/v8/types"
	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"
)

// Model of function test-case files: what a file states, and the text that states it.

type sVal struct {
	Text string // as written, without the type
	L    *LV
}

// sArg is a typed value or an enum value.
type sArg struct {
	Enum     string
	V        *sVal
	TypeText string
}

type sAgg struct {
	Col      int    // column of the table, -1: none
	Name     string // column name as written
	TypeText string
	Scalar   *sArg
}

const (
	sScalar = iota
	sSingle
	sCompact
	sDefine
)

type sCase struct {
	Form     int
	Func     string
	Args     []*sArg
	Opts     [][2]string
	Outcome  string // "ERROR", "UNDEFINED" or ""
	Result   *sArg
	Table    string
	ColTypes []*TD // nil: no argument names the column's type
	ColTexts []string
	Rows     [][]*sVal
	Aggs     []*sAgg
}

type sGroup struct {
	Desc  *string
	Cases []*sCase
}

type sFile struct {
	Agg      bool
	Version  string
	Includes []string
	Deps     []string
	Groups   []*sGroup
}

// words which the lexer keeps for itself, wherever identifiers are expected
var sReserved = func() map[string]bool {
	m := map[string]bool{}
	for _, w := range strings.Fields(`define overflow rounding error saturate silent tie_to_even nan accept_nulls ignore_nulls null_handling
		spaces_only truncate true false inf snan p t y m d h s f null enum if then else func boolean i8 i16 i32 i64 fp32 fp64 string binary
		timestamp timestamp_tz date time interval_year interval_day interval_compound uuid decimal precision_time precision_timestamp
		precision_timestamp_tz fixedchar varchar fixedbinary struct nstruct list map bool str vbin ts tstz iyear iday icompound dec pt pts
		ptstz fchar vchar fbin any and or substrait_scalar_test substrait_aggregate_test substrait_include substrait_dependency`) {
		m[w] = true
	}
	return m
}()

var sReservedRE = regexp.MustCompile(`^(?i:v\d+|col(0|[1-9]\d*)|any\d)$`)

func sIdent(t *rapid.T) string {
	for {
		s := rapid.OneOf(rapid.SampledFrom([]string{"add", "Corr", "LIST_AGG", "f1", "$x", "_", "YEAR", "col", "col01", "v1a", "any10", "nulls", "enum_", "i128", "t1", "x_y$z"}),
			rapid.StringMatching(`[A-Za-z_$][A-Za-z0-9_$]{0,6}`)).Draw(t, "ident")
		if !sReserved[strings.ToLower(s)] && !sReservedRE.MatchString(s) {
			return s
		}
	}
}

// anyCase spells a word that may be written in any case.
func anyCase(t *rapid.T, s string) string {
	switch pick(t, 4) {
	case 1:
		return strings.ToUpper(s)
	case 2:
		return strings.ToLower(s)
	case 3:
		b := []byte(strings.ToLower(s))
		for i := range b {
			if pct(t, 50) {
				b[i] = strings.ToUpper(string(b[i : i+1]))[0]
			}
		}
		return string(b)
	}
	return s
}

func sp(t *rapid.T) string {
	return []string{"", "", "", "", "", " ", "  ", "\t", "\n", "/*x*/"}[pick(t, 10)]
}

var sKindNames = map[string][]string{
	"boolean": {"boolean", "bool"}, "i8": {"i8"}, "i16": {"i16"}, "i32": {"i32"}, "i64": {"i64"}, "fp32": {"fp32"}, "fp64": {"fp64"},
	"string": {"string", "str"}, "binary": {"binary", "vbin"}, "timestamp": {"timestamp", "ts"}, "timestamp_tz": {"timestamp_tz", "tstz"},
	"date": {"date"}, "time": {"time"}, "interval_year": {"interval_year", "iyear"}, "interval_day": {"interval_day", "iday"}, "uuid": {"uuid"},
	"fixedchar": {"fixedchar", "fchar"}, "varchar": {"varchar", "vchar"}, "fixedbinary": {"fixedbinary", "fbin"}, "decimal": {"decimal", "dec"},
	"precision_time": {"precision_time", "pt"}, "precision_timestamp": {"precision_timestamp", "pts"}, "precision_timestamp_tz": {"precision_timestamp_tz", "ptstz"},
	"list": {"list"},
}

// text spells the type.
func (d *TD) sText(t *rapid.T) string {
	ns := sKindNames[d.Kind]
	s := anyCase(t, ns[pick(t, len(ns))])
	if d.Null == 1 {
		s += sp(t) + "?"
	}
	switch d.Kind {
	case "interval_day":
		if d.P != 0 || pct(t, 30) {
			s += fmt.Sprintf("<%s%d%s>", sp(t), d.P, sp(t))
		}
	case "fixedchar", "varchar", "fixedbinary", "precision_time", "precision_timestamp", "precision_timestamp_tz":
		s += fmt.Sprintf("%s<%s%d%s>", sp(t), sp(t), d.P, sp(t))
	case "decimal":
		if d.P != 38 || d.S != 0 || pct(t, 30) {
			s += fmt.Sprintf("%s<%d%s,%s%d>", sp(t), d.P, sp(t), sp(t), d.S)
		}
	case "list":
		s += "<" + sp(t) + d.Kids[0].sText(t) + sp(t) + ">"
	}
	return s
}

var sArgKinds = []string{"boolean", "i8", "i16", "i32", "i64", "fp32", "fp64", "string", "decimal", "date", "time", "timestamp", "timestamp_tz",
	"interval_year", "interval_day", "fixedchar", "varchar", "fixedbinary", "precision_time", "precision_timestamp", "precision_timestamp_tz"}

// genSTD draws a type that values can be written of; elem: as an element of a list or column.
func genSTD(t *rapid.T, elem bool, depth int) *TD {
	d := &TD{Null: 1 + pick(t, 2)}
	if depth > 0 && pct(t, 25) {
		d.Kind = "list"
		d.Kids = []*TD{genSTD(t, true, depth-1)}
		return d
	}
	ks := sArgKinds
	if elem && pct(t, 5) {
		d.Kind = "binary"
		return d
	}
	d.Kind = ks[pick(t, len(ks))]
	switch d.Kind {
	case "decimal":
		d.P = int32(1 + pick(t, 38))
		if pct(t, 40) {
			d.P = 38
		}
		if pct(t, 70) {
			d.S = int32(pick(t, int(d.P)+1))
		}
	case "fixedchar", "varchar", "fixedbinary":
		d.P = int32(1 + pick(t, 9))
		if pct(t, 10) {
			d.P = []int32{2147483647, 65536, 255}[pick(t, 3)]
		}
	case "precision_time", "precision_timestamp", "precision_timestamp_tz":
		d.P = int32(pick(t, 10))
	case "interval_day":
		if pct(t, 60) {
			d.P = int32(pick(t, 10))
		}
	}
	return d
}

// text between quotes that the lexer does not take for a string
var sShaped = []*regexp.Regexp{
	regexp.MustCompile(`^(?i)\d{4}-\d\d-\d\d(T\d\d:\d\d:\d\d(\.\d+)?([+-]\d\d:\d\d)?)?$`),
	regexp.MustCompile(`^\d\d:\d\d:\d\d(\.\d+)?$`),
	regexp.MustCompile(`^(?i)P([+-]?\d+Y)?([+-]?\d+M)?([+-]?\d+D)?(T.*)?$`),
}

func sIsShaped(raw string) bool {
	for _, re := range sShaped {
		if re.MatchString(raw) {
			return true
		}
	}
	return false
}

// genRaw is the text between the quotes of a string: at most n characters (bytes, if bin).
func genRaw(t *rapid.T, n int, elem, bin bool) string {
	for {
		var b strings.Builder
		k := pick(t, min(n, 8)+1)
		for i := 0; i < k; i++ {
			switch pick(t, 12) {
			case 0:
				b.WriteString(`''`)
			case 1:
				b.WriteString(`\` + []string{"'", "d", `\`, "n", "x"}[pick(t, 5)])
			case 2:
				b.WriteString([]string{"#", "//", "/*", "::", "\n", "\t", "(", ")", "=", ",", "\"", "null", "%s", "%"}[pick(t, 14)])
			case 3:
				b.WriteString([]string{"é", "日", "😄", "\u00a0"}[pick(t, 4)])
			default:
				b.WriteString(string("abcXYZ019 ._-+ePT"[pick(t, 17)]))
			}
		}
		s := b.String()
		if elem && pct(t, 10) {
			s = []string{"1991-01-01", "13:01:01", "P1D", "P1Y", "P", "1991-01-01T01:02:03+00:00"}[pick(t, 6)]
		}
		l := len([]rune(s))
		if bin {
			l = len(s)
		}
		if l <= n && (elem || !sIsShaped(s)) {
			return s
		}
	}
}

func sFrac(t *rapid.T, p int) (string, int64) { // text and its value in units of 10^-p
	n := pick(t, p+1)
	if n == 0 {
		return "", 0
	}
	v := int64(0)
	var b strings.Builder
	b.WriteByte('.')
	for i := 0; i < p; i++ {
		dg := 0
		if i < n {
			dg = pick(t, 10)
			b.WriteByte(byte('0' + dg))
		}
		v = v*10 + int64(dg)
	}
	return b.String(), v
}

func sDate(t *rapid.T, p int32) (int, int, int) {
	y := pick(t, 10000)
	switch {
	case p > 6:
		y = 1700 + pick(t, 500)
	case pct(t, 50):
		y = 1960 + pick(t, 80)
	}
	m := 1 + pick(t, 12)
	last := time.Date(y, time.Month(m)+1, 0, 0, 0, 0, 0, time.UTC).Day()
	day := 1 + pick(t, last)
	if pct(t, 15) {
		day = last
	}
	return y, m, day
}

func sClock(t *rapid.T) (h, m, s int) {
	if pct(t, 10) {
		return 23, 59, 59
	}
	return pick(t, 24), pick(t, 60), pick(t, 60)
}

// genSVal draws a value of the type that is not null, and a spelling of it.
func genSVal(t *rapid.T, d *TD, elem bool) *sVal {
	v := &LV{T: d}
	s := ""
	switch d.Kind {
	case "boolean":
		v.I = int64(pick(t, 2))
		s = anyCase(t, []string{"false", "true"}[v.I])
	case "i8", "i16", "i32", "i64":
		bits := map[string]uint{"i8": 7, "i16": 15, "i32": 31, "i64": 63}[d.Kind]
		v.I = genTD64(t, -1<<bits, 1<<bits-1)
		s = strconv.FormatInt(v.I, 10)
		if v.I >= 0 && pct(t, 10) {
			s = "+" + s
		}
		if v.I == 0 && pct(t, 20) {
			s = "-0"
		}
	case "fp32", "fp64":
		bits := 64
		if d.Kind == "fp32" {
			bits = 32
		}
		for {
			switch pick(t, 8) {
			case 0:
				s = []string{"inf", "-inf", "+Inf", "INF", "-Inf", "nan", "NaN", "NAN"}[pick(t, 8)]
			case 1:
				s = strconv.FormatFloat(rapid.Float64().Draw(t, "f"), 'e', pick(t, 18), bits)
			case 2:
				s = strconv.FormatFloat(float64(rapid.Float32().Draw(t, "f")), 'f', -1, 32)
			case 3:
				s = fmt.Sprint(pick(t, 200) - 100)
			case 4:
				s = []string{"1.", "0.", "007", "00.5", "1E5", "2.5e-3", "+3.25", "1.e2", "16777217", "0.1", "9007199254740993", "1e-320", "3.4028235e38"}[pick(t, 13)]
			default:
				s = fmt.Sprintf("%d.%0*d", pick(t, 2000)-1000, 1+pick(t, 9), pick(t, 1000))
			}
			f, err := strconv.ParseFloat(s, bits)
			if err == nil && sNumRE.MatchString(s) {
				v.F = f
				break
			}
		}
	case "decimal":
		v.D = genDecimalUnscaled(t, int(d.P))
		s = sDecText(t, v.D, int(d.S))
	case "string":
		v.S = genRaw(t, 8, elem, false)
		s = "'" + v.S + "'"
	case "fixedchar", "varchar":
		v.S = genRaw(t, int(d.P), elem, false)
		s = "'" + v.S + "'"
	case "fixedbinary":
		v.B = []byte(genRaw(t, int(d.P), elem, true))
		s = "'" + string(v.B) + "'"
	case "binary":
		v.B = []byte(genRaw(t, 8, elem, true))
		s = "'" + string(v.B) + "'"
	case "date":
		y, m, day := sDate(t, 0)
		v.I = time.Date(y, time.Month(m), day, 0, 0, 0, 0, time.UTC).Unix() / 86400
		s = fmt.Sprintf("'%04d-%02d-%02d'", y, m, day)
	case "time", "precision_time":
		p := int(d.P)
		if d.Kind == "time" {
			p = 6
		}
		h, m, sec := sClock(t)
		f, n := sFrac(t, p)
		v.I = int64(h*3600+m*60+sec)*pow10(p).Int64() + n
		s = fmt.Sprintf("'%02d:%02d:%02d%s'", h, m, sec, f)
	case "timestamp", "timestamp_tz", "precision_timestamp", "precision_timestamp_tz":
		p := d.P
		if d.Kind == "timestamp" || d.Kind == "timestamp_tz" {
			p = 6
		}
		y, m, day := sDate(t, p)
		h, mi, sec := sClock(t)
		f, n := sFrac(t, int(p))
		unix := time.Date(y, time.Month(m), day, h, mi, sec, 0, time.UTC).Unix()
		zone := ""
		if strings.HasSuffix(d.Kind, "_tz") {
			oh, om := 0, 0
			if pct(t, 60) {
				oh, om = pick(t, 16), pick(t, 60)
			}
			sign := 1
			zone = "+"
			if pct(t, 50) {
				sign, zone = -1, "-"
			}
			zone += fmt.Sprintf("%02d:%02d", oh, om)
			unix -= int64(sign * (oh*3600 + om*60))
		}
		v.I = unix*pow10(int(p)).Int64() + n
		s = fmt.Sprintf("'%04d-%02d-%02dT%02d:%02d:%02d%s%s'", y, m, day, h, mi, sec, f, zone)
	case "interval_year":
		num := func() int32 {
			if pct(t, 20) {
				return int32(genTD64(t, math.MinInt32, math.MaxInt32))
			}
			return int32(pick(t, 40) - 5)
		}
		switch pick(t, 3) {
		case 0:
			v.Y = num()
			s = fmt.Sprintf("'P%dY'", v.Y)
		case 1:
			v.M = num()
			s = fmt.Sprintf("'P%dM'", v.M)
		default:
			v.Y, v.M = num(), num()
			s = fmt.Sprintf("'P%dY%dM'", v.Y, v.M)
		}
	case "interval_day":
		s = "'P"
		timePart := pct(t, 75)
		if pct(t, 75) || !timePart {
			v.Dy = int32(pick(t, 40))
			if pct(t, 15) {
				v.Dy = int32(genTD64(t, 0, math.MaxInt32))
			}
			s += fmt.Sprintf("%dD", v.Dy)
		}
		if timePart {
			s += "T"
			mask := 1 + pick(t, 7)
			if mask == 5 && pct(t, 50) {
				mask = 7
			}
			if mask&1 != 0 {
				n := pick(t, 30)
				v.Sec += int32(n * 3600)
				s += fmt.Sprintf("%dH", n)
			}
			if mask&2 != 0 {
				n := pick(t, 70)
				v.Sec += int32(n * 60)
				s += fmt.Sprintf("%dM", n)
			}
			if mask&4 != 0 {
				n := pick(t, 70)
				if pct(t, 15) {
					n = pick(t, math.MaxInt32-200000)
				}
				f, sub := sFrac(t, int(d.P))
				v.Sec += int32(n)
				v.Sub = sub
				s += fmt.Sprintf("%d%sS", n, f)
			}
		}
		s += "'"
	case "list":
		n := pick(t, 4)
		parts := make([]string, n)
		for i := range parts {
			k := genSCell(t, d.Kids[0], true)
			parts[i] = sp(t) + k.Text + sp(t)
			v.Kids = append(v.Kids, k.L)
		}
		s = "[" + strings.Join(parts, ",") + "]"
	default:
		panic(d.Kind)
	}
	return &sVal{s, v}
}

var sNumRE = regexp.MustCompile(`^(?i)([+-]?\d+(\.\d*)?(e[+-]?\d+)?|[+-]?inf|nan)$`)

func sDecText(t *rapid.T, u *big.Int, scale int) string {
	digits := new(big.Int).Abs(u).String()
	for len(digits) <= scale {
		digits = "0" + digits
	}
	ip, fp := digits[:len(digits)-scale], digits[len(digits)-scale:]
	if pct(t, 50) {
		fp = strings.TrimRight(fp, "0")
	}
	if pct(t, 10) && len(ip)+len(fp) < 36 {
		fp += "0"
	}
	if pct(t, 10) {
		ip = "00" + ip
	}
	s := ip
	if fp != "" {
		s += "." + fp
	}
	switch {
	case u.Sign() < 0:
		s = "-" + s
	case pct(t, 10):
		s = "+" + s
	}
	return s
}

// genSCell draws a value of the type, null if the type allows.
func genSCell(t *rapid.T, d *TD, elem bool) *sVal {
	if d.Null == 1 && pct(t, 15) {
		return &sVal{anyCase(t, "null"), &LV{T: d, Null: true}}
	}
	return genSVal(t, d, elem)
}

func genSArg(t *rapid.T) *sArg {
	if pct(t, 8) {
		return &sArg{Enum: sIdent(t)}
	}
	d := genSTD(t, false, 2)
	if pct(t, 3) { // only null can be written of these
		d = &TD{Null: 1, Kind: []string{"uuid", "binary"}[pick(t, 2)]}
		return &sArg{V: &sVal{anyCase(t, "null"), &LV{T: d, Null: true}}, TypeText: d.sText(t)}
	}
	return &sArg{V: genSCell(t, d, false), TypeText: d.sText(t)}
}

func (a *sArg) text(t *rapid.T) string {
	if a.V == nil {
		return a.Enum + sp(t) + "::" + sp(t) + anyCase(t, "enum")
	}
	return a.V.Text + sp(t) + "::" + sp(t) + a.TypeText
}

func genSOpts(t *rapid.T) [][2]string {
	if !pct(t, 40) {
		return nil
	}
	var out [][2]string
	seen := map[string]bool{}
	i := 1 + pick(t, 3)
	if pct(t, 15) {
		i += pick(t, 7)
	}
	for ; i > 0; i-- {
		var k, v string
		if pct(t, 50) {
			k = anyCase(t, []string{"overflow", "rounding", "null_handling", "spaces_only"}[pick(t, 4)])
		} else {
			k = sIdent(t)
		}
		if pct(t, 60) {
			vs := []string{"ERROR", "SATURATE", "SILENT", "TIE_TO_EVEN", "NAN", "TRUNCATE", "ACCEPT_NULLS", "IGNORE_NULLS", "TRUE", "false", "null"}
			v = anyCase(t, vs[pick(t, len(vs))])
		} else {
			v = sIdent(t)
		}
		if !seen[k] {
			seen[k] = true
			out = append(out, [2]string{k, v})
		}
	}
	return out
}

func genSCase(t *rapid.T, agg bool) *sCase {
	c := &sCase{Func: sIdent(t), Opts: genSOpts(t)}
	if pct(t, 5) {
		c.Func = []string{"and", "OR", "truncate"}[pick(t, 3)]
	}
	switch pick(t, 6) {
	case 0:
		c.Outcome = "ERROR"
	case 1:
		c.Outcome = "UNDEFINED"
	default:
		c.Result = genSArg(t)
	}
	if !agg {
		for i := 1 + pick(t, 3); i > 0; i-- {
			c.Args = append(c.Args, genSArg(t))
		}
		return c
	}
	c.Form = 1 + pick(t, 3)
	ncols := 1
	if c.Form != sSingle {
		ncols = 1 + pick(t, 3)
	}
	nrows := pick(t, 5)
	named := make([]bool, ncols)
	for i := 0; i < ncols; i++ {
		c.ColTypes = append(c.ColTypes, genSTD(t, true, 0))
		c.ColTexts = append(c.ColTexts, c.ColTypes[i].sText(t))
	}
	if c.Form != sSingle {
		for i := pick(t, 4); i > 0; i-- {
			if pct(t, 25) {
				c.Aggs = append(c.Aggs, &sAgg{Col: -1, Scalar: genSArg(t)})
				continue
			}
			k := pick(t, ncols)
			named[k] = true
			c.Aggs = append(c.Aggs, &sAgg{Col: k, Name: anyCase(t, "col") + fmt.Sprint(k), TypeText: c.ColTypes[k].sText(t)})
		}
	}
	if c.Form == sDefine {
		c.Table = sIdent(t)
	}
	if c.Form == sCompact {
		for i := range named {
			if !named[i] {
				c.ColTypes[i] = nil
			}
		}
		if nrows == 0 {
			// only the arguments tell what columns an empty table has
			last := -1
			for i, n := range named {
				if n {
					last = i
				}
			}
			c.ColTypes, c.ColTexts = c.ColTypes[:last+1], c.ColTexts[:last+1]
		}
	}
	for i := 0; i < nrows; i++ {
		row := make([]*sVal, len(c.ColTypes))
		for j, d := range c.ColTypes {
			switch {
			case d == nil:
				row[j] = genUntyped(t)
			case pct(t, 12): // null also in columns of required types
				row[j] = &sVal{anyCase(t, "null"), &LV{T: d.withNull(1), Null: true}}
			default:
				row[j] = genSVal(t, d, true)
			}
		}
		c.Rows = append(c.Rows, row)
	}
	return c
}

// genUntyped draws a cell of a column without type: L is nil for null.
func genUntyped(t *rapid.T) *sVal {
	if pct(t, 20) {
		return &sVal{Text: anyCase(t, "null")}
	}
	return genSVal(t, &TD{Null: 2, Kind: []string{"i64", "fp64", "string", "boolean"}[pick(t, 4)]}, false)
}

func genSFile(t *rapid.T) *sFile {
	f := &sFile{Agg: pct(t, 50), Version: []string{"v1.0", "v1", "V10.25", "v0.0"}[pick(t, 4)]}
	uri := func() string {
		if pct(t, 60) {
			return []string{"/extensions/functions_arithmetic.yaml", "extensions/x.yaml", "/extensions/a/b.yaml", "extension:io.substrait:functions_boolean", "", "/x"}[pick(t, 6)]
		}
		return genRaw(t, 12, false, false)
	}
	f.Includes = []string{uri()}
	if pct(t, 10) {
		f.Includes = append(f.Includes, uri())
	}
	for pct(t, 25) {
		f.Deps = append(f.Deps, uri())
	}
	for i := 1 + pick(t, 3); i > 0; i-- {
		g := &sGroup{}
		if len(f.Groups) > 0 || pct(t, 80) {
			d := ""
			for k := pick(t, 12); k > 0; k-- {
				d += []string{"a", "B", " ", "#", "'", "//", ":", "é", "1", "\t", "/*", "=", "###"}[pick(t, 13)]
			}
			g.Desc = &d
		}
		for j := 1 + pick(t, 3); j > 0; j-- {
			g.Cases = append(g.Cases, genSCase(t, f.Agg))
		}
		f.Groups = append(f.Groups, g)
	}
	return f
}

func (c *sCase) text(t *rapid.T) string {
	var b strings.Builder
	rows := func() {
		b.WriteString("(")
		for i, r := range c.Rows {
			if i > 0 {
				b.WriteString("," + sp(t))
			}
			b.WriteString("(")
			for j, v := range r {
				if j > 0 {
					b.WriteString(sp(t) + "," + sp(t))
				}
				b.WriteString(v.Text)
			}
			b.WriteString(")" + sp(t))
		}
		b.WriteString(")")
	}
	switch c.Form {
	case sScalar:
		b.WriteString(c.Func + sp(t) + "(")
		for i, a := range c.Args {
			if i > 0 {
				b.WriteString("," + sp(t))
			}
			b.WriteString(a.text(t))
		}
	case sSingle:
		b.WriteString(c.Func + "(" + sp(t) + "(")
		for i, r := range c.Rows {
			if i > 0 {
				b.WriteString("," + sp(t))
			}
			b.WriteString(r[0].Text)
		}
		b.WriteString(")" + sp(t) + "::" + sp(t) + c.ColTexts[0])
	case sCompact:
		rows()
		b.WriteString(sp(t) + c.Func + "(")
	case sDefine:
		b.WriteString(anyCase(t, "define") + " " + c.Table + sp(t) + "(")
		for i, s := range c.ColTexts {
			if i > 0 {
				b.WriteString("," + sp(t))
			}
			b.WriteString(s)
		}
		b.WriteString(")" + sp(t) + "=" + sp(t))
		rows()
		b.WriteString([]string{"\n", " ", "\r\n"}[pick(t, 3)] + c.Func + "(")
	}
	for i, a := range c.Aggs {
		if i > 0 {
			b.WriteString(sp(t) + "," + sp(t))
		}
		switch {
		case a.Scalar != nil:
			b.WriteString(a.Scalar.text(t))
		case c.Form == sDefine:
			b.WriteString(c.Table + "." + a.Name)
		default:
			b.WriteString(a.Name + sp(t) + "::" + a.TypeText)
		}
	}
	b.WriteString(")")
	if len(c.Opts) > 0 {
		b.WriteString(sp(t) + "[")
		for i, o := range c.Opts {
			if i > 0 {
				b.WriteString("," + sp(t))
			}
			b.WriteString(o[0] + sp(t) + ":" + sp(t) + o[1])
		}
		b.WriteString("]")
	}
	b.WriteString(sp(t) + "=" + sp(t))
	if c.Outcome != "" {
		b.WriteString("<!" + anyCase(t, c.Outcome) + ">")
	} else {
		b.WriteString(c.Result.text(t))
	}
	return b.String()
}

func (f *sFile) text(t *rapid.T) string {
	var b strings.Builder
	nl := []string{"\n", "\n", "\r\n"}[pick(t, 3)]
	kw := "SUBSTRAIT_SCALAR_TEST"
	if f.Agg {
		kw = "SUBSTRAIT_AGGREGATE_TEST"
	}
	b.WriteString("### " + anyCase(t, kw) + sp(t) + ": " + f.Version + nl + "### " + anyCase(t, "SUBSTRAIT_INCLUDE") + ":" + sp(t))
	for i, s := range f.Includes {
		if i > 0 {
			b.WriteString(", ")
		}
		b.WriteString("'" + s + "'")
	}
	b.WriteString(nl)
	for _, s := range f.Deps {
		b.WriteString("### SUBSTRAIT_DEPENDENCY: '" + s + "'" + nl)
	}
	for _, g := range f.Groups {
		if g.Desc != nil {
			b.WriteString([]string{"", nl, " "}[pick(t, 3)] + "# " + *g.Desc + nl)
		}
		for _, c := range g.Cases {
			b.WriteString(sp(t) + c.text(t))
			if pct(t, 10) {
				b.WriteString(" // note 'x")
			}
			b.WriteString(nl)
		}
	}
	s := b.String()
	if pct(t, 20) {
		s = strings.TrimRight(s, "\r\n")
	}
	return s
}

// ---- what a case says, as text to compare

const (
	kStrict = iota // as the file states it
	kPrint         // as far as printed cases state it
	kPlain         // strict, with the values of precision timestamp columns as plain timestamps
	kPrintPlain
)

func litKey(p *pb.Expression_Literal, loose bool) string {
	if p == nil {
		return "<nothing>"
	}
	if loose {
		p = proto.Clone(p).(*pb.Expression_Literal)
		p.Nullable = false
		if n := p.GetNull(); n != nil {
			return "null"
		}
	}
	return protojson.MarshalOptions{}.Format(p)
}

func (a *sArg) key() string {
	if a.V == nil {
		return "enum " + a.Enum
	}
	return a.V.L.T.String() + " " + litKey(a.V.L.proto(), false)
}

func goArgKey(c *parser.CaseLiteral) string {
	switch v := c.Value.(type) {
	case types.Enum:
		if c.Type != types.CommonEnumType {
			return fmt.Sprintf("enum %s of type %v", v, c.Type)
		}
		return "enum " + string(v)
	case expr.Literal:
		k := tdOf(c.Type).String() + " " + litKey(v.ToProtoLiteral(), false)
		if w := tdOf(v.GetType()).String(); w != tdOf(c.Type).String() {
			k += " literal of " + w
		}
		return k
	}
	return fmt.Sprintf("%T", c.Value)
}

func optKey(o map[string]string) string {
	var s []string
	for k, v := range o {
		s = append(s, k+":"+v)
	}
	sort.Strings(s)
	return "options " + strings.Join(s, ",")
}

// colTD is the type of a column: nullable if it has nulls.
func (c *sCase) colTD(i int) *TD {
	d := c.ColTypes[i]
	if d == nil {
		return nil
	}
	for _, r := range c.Rows {
		if r[i].L.Null {
			return d.withNull(1)
		}
	}
	return d
}

func (c *sCase) key(mode int) string {
	var b strings.Builder
	plain := mode == kPlain || mode == kPrintPlain
	if mode == kPrintPlain {
		mode = kPrint
	}
	fmt.Fprintf(&b, "%s %s\n", []string{"scalar", "aggregate", "aggregate", "aggregate"}[c.Form], c.Func)
	for i, a := range c.Args {
		fmt.Fprintf(&b, "arg %d: %s\n", i, a.key())
	}
	o := map[string]string{}
	for _, kv := range c.Opts {
		o[kv[0]] = kv[1]
	}
	b.WriteString(optKey(o) + "\n")
	if c.Outcome != "" {
		fmt.Fprintf(&b, "result <!%s>\n", c.Outcome)
	} else {
		fmt.Fprintf(&b, "result %s\n", c.Result.key())
	}
	if c.Form == sScalar {
		return b.String()
	}
	if mode != kPrint {
		fmt.Fprintf(&b, "table %q\n", c.Table)
	}
	named := map[int]bool{}
	if c.Form == sSingle {
		fmt.Fprintf(&b, "agg 0: values %s\n", c.colTD(0))
		named[0] = true
	}
	for i, a := range c.Aggs {
		if a.Scalar != nil {
			fmt.Fprintf(&b, "agg %d: %s\n", i, a.Scalar.key())
		} else {
			fmt.Fprintf(&b, "agg %d: column %d %s %s\n", i, a.Col, a.Name, c.colTD(a.Col))
			named[a.Col] = true
		}
	}
	for i := range c.ColTypes {
		if mode == kPrint && !named[i] {
			if len(c.Rows) > 0 { // the columns of empty tables are not printed
				fmt.Fprintf(&b, "column %d: %d values\n", i, len(c.Rows))
			}
			continue
		}
		d := c.colTD(i)
		fmt.Fprintf(&b, "column %d: %v", i, d)
		for _, r := range c.Rows {
			v := r[i]
			switch {
			case d == nil && v.L == nil:
				b.WriteString(" | null")
			case d == nil && v.L.T.Kind != "boolean":
				s := v.Text
				if v.L.T.Kind == "string" {
					s = v.L.S
				}
				fmt.Fprintf(&b, " | %q", s)
			default:
				l := v.L
				if plain && !l.Null && strings.HasPrefix(l.T.Kind, "precision_timestamp") {
					l = l.clone()
					l.T.Kind = strings.TrimPrefix(l.T.Kind, "precision_")
					if p := int(l.T.P); p > 6 {
						l.I = floorDiv(l.I, pow10(p-6).Int64())
					} else {
						l.I *= pow10(6 - p).Int64()
					}
				}
				b.WriteString(" | " + litKey(l.proto(), c.ColTypes[i] == nil || c.ColTypes[i].Null != 1 || mode == kPrint))
			}
		}
		b.WriteString("\n")
	}
	return b.String()
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b < 0 {
		q--
	}
	return q
}

// goCaseKey is key of a parsed case. c, if not nil, is what it should be: it tells which columns were declared nullable.
func goCaseKey(tc *parser.TestCase, mode int, c *sCase) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s %s\n", tc.FuncType, tc.FuncName)
	for i, a := range tc.Args {
		fmt.Fprintf(&b, "arg %d: %s\n", i, goArgKey(a))
	}
	b.WriteString(optKey(tc.Options) + "\n")
	switch r := tc.Result.(type) {
	case *parser.CaseLiteral:
		fmt.Fprintf(&b, "result %s\n", goArgKey(r))
	case parser.NonValueOutcome:
		fmt.Fprintf(&b, "result %s\n", r)
	default:
		fmt.Fprintf(&b, "result %T\n", r)
	}
	if tc.FuncType == parser.ScalarFuncType {
		if len(tc.AggregateArgs) > 0 || len(tc.Columns) > 0 || len(tc.ColumnTypes) > 0 || tc.TableName != "" {
			b.WriteString("scalar with columns\n")
		}
		return b.String()
	}
	if mode != kPrint {
		fmt.Fprintf(&b, "table %q\n", tc.TableName)
	}
	named := map[int]bool{}
	cols, colTypes := tc.Columns, tc.ColumnTypes
	for i, a := range tc.AggregateArgs {
		switch {
		case a.IsScalar:
			fmt.Fprintf(&b, "agg %d: %s\n", i, goArgKey(a.Argument))
		case a.ColumnName == "":
			fmt.Fprintf(&b, "agg %d: values %s\n", i, tdOf(a.ColumnType))
			if !a.ColumnType.Equals(a.Argument.Type) || len(tc.Columns) > 0 || len(tc.AggregateArgs) != 1 {
				fmt.Fprintf(&b, "inconsistent: %v %v\n", a.Argument.Type, tc.Columns)
			}
			named[0] = true
			l, ok := a.Argument.Value.(*expr.ListLiteral)
			if !ok {
				fmt.Fprintf(&b, "values are a %T\n", a.Argument.Value)
				continue
			}
			cols, colTypes = [][]expr.Literal{l.Value}, []types.Type{a.ColumnType}
			if lt, ok := l.Type.(*types.ListType); !ok || !lt.Type.Equals(a.ColumnType) {
				fmt.Fprintf(&b, "list of type %v\n", l.Type)
			}
		default:
			fmt.Fprintf(&b, "agg %d: column %d %s %s\n", i, a.ColumnIndex, a.ColumnName, tdOf(a.ColumnType))
			named[int(a.ColumnIndex)] = true
		}
		if mode != kPrint && a.TableName != "" && a.TableName != tc.TableName {
			fmt.Fprintf(&b, "table of the argument: %q\n", a.TableName)
		}
	}
	if len(cols) != len(colTypes) {
		fmt.Fprintf(&b, "%d columns, %d types\n", len(cols), len(colTypes))
		return b.String()
	}
	for i, col := range cols {
		if mode == kPrint && !named[i] {
			if len(col) > 0 {
				fmt.Fprintf(&b, "column %d: %d values\n", i, len(col))
			}
			continue
		}
		if colTypes[i] == nil {
			fmt.Fprintf(&b, "column %d: <nil>", i)
		} else {
			fmt.Fprintf(&b, "column %d: %v", i, tdOf(colTypes[i]))
		}
		for _, l := range col {
			_, isNull := l.(*expr.NullLiteral)
			s, isStr := l.(*expr.PrimitiveLiteral[string])
			switch {
			case colTypes[i] == nil && isNull:
				b.WriteString(" | null")
			case colTypes[i] == nil && isStr:
				fmt.Fprintf(&b, " | %q", s.Value)
			default:
				if isNull && l.GetType().GetNullability() != types.NullabilityNullable {
					b.WriteString(" (null of a required type)")
				}
				loose := mode == kPrint || c == nil || i >= len(c.ColTypes) || c.ColTypes[i] == nil || c.ColTypes[i].Null != 1
				b.WriteString(" | " + litKey(l.ToProtoLiteral(), loose))
			}
		}
		b.WriteString("\n")
	}
	return b.String()
}
