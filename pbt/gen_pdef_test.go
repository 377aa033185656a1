package pbt

// PD is an independent model of a parameterised type (a type as it appears in a function
// declaration): concrete or with integer variables and any-variables.

import (
	"fmt"
	"strconv"
	"strings"
	"unicode"

	"github.com/substrait-io/substrait-go/v8/types"
	ip "github.com/substrait-io/substrait-go/v8/types/integer_parameters"
	"pgregory.net/rapid"
)

type PD struct {
	Kind  string // TD kinds, plus "any"; "udt" with Name
	Null  bool
	P, S  string // integer text or variable name
	Name  string // any variable ("any", "any1"), or user-defined type name
	Kids  []*PD
	UArgs []PDArg
}

type PDArg struct {
	Kind string // type int string
	T    *PD
	I    int32
	Str  string
}

type pdOpts struct {
	depth    int
	vars     []string // integer variable names allowed
	anys     []string // any-variable names allowed
	noUDT    bool
	noFunc   bool
	udtArgs  bool
	typeOnly bool // udt arguments are types only
	validDec bool
	nullProb int // 0..10
}

var pdSimple = []string{"boolean", "i8", "i16", "i32", "i64", "fp32", "fp64", "string", "binary", "date", "time",
	"timestamp", "timestamp_tz", "interval_year", "uuid"}
var pdOne = []string{"fixedchar", "varchar", "fixedbinary", "precision_time", "precision_timestamp", "precision_timestamp_tz", "interval_day"}

func isPrecKind(k string) bool {
	switch k {
	case "precision_time", "precision_timestamp", "precision_timestamp_tz", "interval_day", "interval_compound":
		return true
	}
	return false
}

func genInt(t *rapid.T, o pdOpts, lo, hi int32) string {
	if len(o.vars) > 0 && rapid.IntRange(0, 1).Draw(t, "isvar") == 1 {
		return rapid.SampledFrom(o.vars).Draw(t, "var")
	}
	return strconv.Itoa(int(rapid.Int32Range(lo, hi).Draw(t, "int")))
}

func genPD(t *rapid.T, o pdOpts) *PD {
	d := &PD{Null: rapid.IntRange(0, 9).Draw(t, "null") < o.nullProb}
	cls := []string{"simple", "simple", "one", "one", "dec"}
	if len(o.anys) > 0 {
		cls = append(cls, "any", "any")
	}
	if !o.noUDT {
		cls = append(cls, "udt")
	}
	if o.depth > 0 {
		cls = append(cls, "list", "map", "struct", "list")
		if !o.noFunc {
			cls = append(cls, "func")
		}
	}
	sub := o
	sub.depth--
	switch k := rapid.SampledFrom(cls).Draw(t, "class"); k {
	case "simple":
		d.Kind = rapid.SampledFrom(pdSimple).Draw(t, "kind")
	case "one":
		d.Kind = rapid.SampledFrom(pdOne).Draw(t, "kind")
		if isPrecKind(d.Kind) {
			d.P = genInt(t, o, 0, 9)
		} else {
			d.P = genInt(t, o, 1, 300)
		}
	case "dec":
		d.Kind = "decimal"
		p := rapid.Int32Range(1, 38).Draw(t, "p")
		d.P = strconv.Itoa(int(p))
		d.S = strconv.Itoa(int(rapid.Int32Range(0, p).Draw(t, "s")))
		if len(o.vars) > 0 {
			if rapid.Bool().Draw(t, "pv") {
				d.P = rapid.SampledFrom(o.vars).Draw(t, "pvar")
			}
			if rapid.Bool().Draw(t, "sv") {
				d.S = rapid.SampledFrom(o.vars).Draw(t, "svar")
			}
		}
	case "any":
		d.Kind = "any"
		d.Name = rapid.SampledFrom(o.anys).Draw(t, "any")
	case "udt":
		d.Kind = "udt"
		d.Name = rapid.SampledFrom([]string{"point", "Point", "my_type", "T2", "$x"}).Draw(t, "udt")
		if o.udtArgs {
			n := rapid.IntRange(0, 3).Draw(t, "nargs")
			for i := 0; i < n; i++ {
				a := PDArg{Kind: rapid.SampledFrom([]string{"type", "int", "string"}).Draw(t, "akind")}
				if o.typeOnly {
					a.Kind = "type"
				}
				switch a.Kind {
				case "type":
					a.T = genPD(t, sub)
				case "int":
					a.I = rapid.OneOf(rapid.Int32Range(0, 50), rapid.Int32()).Draw(t, "i")
				case "string":
					a.Str = rapid.SampledFrom([]string{"L1", "abc", "X_1"}).Draw(t, "s")
				}
				d.UArgs = append(d.UArgs, a)
			}
		}
	case "list":
		d.Kind, d.Kids = "list", []*PD{genPD(t, sub)}
	case "map":
		d.Kind, d.Kids = "map", []*PD{genPD(t, sub), genPD(t, sub)}
	case "struct":
		d.Kind = "struct"
		n := rapid.IntRange(1, 6).Draw(t, "n")
		for i := 0; i < n; i++ {
			d.Kids = append(d.Kids, genPD(t, sub))
		}
	case "func":
		d.Kind = "func"
		n := rapid.IntRange(2, 6).Draw(t, "n")
		for i := 0; i < n; i++ {
			d.Kids = append(d.Kids, genPD(t, sub))
		}
	}
	return d
}

func isVar(s string) bool { return s != "" && s[0] != '-' && (s[0] < '0' || s[0] > '9') }

// String is the canonical spelling in the grammar.
func (d *PD) String() string {
	q := ""
	if d.Null {
		q = "?"
	}
	join := func(ks []*PD) string {
		var out []string
		for _, k := range ks {
			out = append(out, k.String())
		}
		return strings.Join(out, ", ")
	}
	switch d.Kind {
	case "any":
		return d.Name + q
	case "decimal":
		return fmt.Sprintf("decimal%s<%s, %s>", q, d.P, d.S)
	case "udt":
		s := "u!" + d.Name + q
		if len(d.UArgs) > 0 {
			var as []string
			for _, a := range d.UArgs {
				switch a.Kind {
				case "type":
					as = append(as, a.T.String())
				case "int":
					as = append(as, strconv.Itoa(int(a.I)))
				default:
					as = append(as, a.Str)
				}
			}
			s += "<" + strings.Join(as, ", ") + ">"
		}
		return s
	case "list", "map", "struct":
		return d.Kind + q + "<" + join(d.Kids) + ">"
	case "func":
		l := len(d.Kids) - 1
		return "func" + q + "<(" + join(d.Kids[:l]) + ") -> " + d.Kids[l].String() + ">"
	}
	if d.P != "" {
		return d.Kind + q + "<" + d.P + ">"
	}
	return d.Kind + q
}

func (d *PD) clone() *PD {
	o := *d
	o.Kids = nil
	for _, k := range d.Kids {
		o.Kids = append(o.Kids, k.clone())
	}
	o.UArgs = nil
	for _, a := range d.UArgs {
		if a.T != nil {
			a.T = a.T.clone()
		}
		o.UArgs = append(o.UArgs, a)
	}
	return &o
}

// each visits the node and everything below it.
func (d *PD) each(f func(*PD)) {
	f(d)
	for _, k := range d.Kids {
		k.each(f)
	}
	for _, a := range d.UArgs {
		if a.T != nil {
			a.T.each(f)
		}
	}
}

func (d *PD) hasIntVars() bool {
	r := false
	d.each(func(n *PD) { r = r || isVar(n.P) || isVar(n.S) })
	return r
}

func (d *PD) hasAny() bool {
	r := false
	d.each(func(n *PD) { r = r || n.Kind == "any" })
	return r
}

func (d *PD) concrete() bool { return !d.hasIntVars() && !d.hasAny() }

// td is the concrete type the expression denotes, with variables from ints and anys.
func (d *PD) td(ints map[string]int32, anys map[string]*TD) *TD {
	num := func(s string) int32 {
		if s == "" {
			return 0
		}
		if isVar(s) {
			return ints[s]
		}
		n, _ := strconv.ParseInt(s, 10, 32)
		return int32(n)
	}
	out := &TD{Kind: d.Kind, Null: 2, P: num(d.P), S: num(d.S)}
	if d.Null {
		out.Null = 1
	}
	if d.Kind == "any" {
		b := anys[d.Name].clone()
		if d.Null {
			b.Null = 1
		}
		return b
	}
	for _, k := range d.Kids {
		out.Kids = append(out.Kids, k.td(ints, anys))
	}
	for _, a := range d.UArgs {
		switch a.Kind {
		case "type":
			out.Params = append(out.Params, TPD{Kind: "type", T: a.T.td(ints, anys)})
		case "int":
			out.Params = append(out.Params, TPD{Kind: "int", I: int64(a.I)})
		default:
			out.Params = append(out.Params, TPD{Kind: "string", Str: a.Str})
		}
	}
	return out
}

// def builds the declaration type directly, not through the parser.
func (d *PD) def() types.FuncDefArgType {
	n := types.NullabilityRequired
	if d.Null {
		n = types.NullabilityNullable
	}
	num := func(s string) ip.IntegerParameter {
		if isVar(s) {
			return ip.NewVariableIntParam(s)
		}
		v, _ := strconv.ParseInt(s, 10, 32)
		return ip.NewConcreteIntParam(int32(v))
	}
	kids := func(ks []*PD) []types.FuncDefArgType {
		var out []types.FuncDefArgType
		for _, k := range ks {
			out = append(out, k.def())
		}
		return out
	}
	switch d.Kind {
	case "any":
		return &types.AnyType{Name: d.Name, Nullability: n}
	case "fixedchar":
		return &types.ParameterizedFixedCharType{IntegerOption: num(d.P), Nullability: n}
	case "varchar":
		return &types.ParameterizedVarCharType{IntegerOption: num(d.P), Nullability: n}
	case "fixedbinary":
		return &types.ParameterizedFixedBinaryType{IntegerOption: num(d.P), Nullability: n}
	case "precision_time":
		return &types.ParameterizedPrecisionTimeType{IntegerOption: num(d.P), Nullability: n}
	case "precision_timestamp":
		return &types.ParameterizedPrecisionTimestampType{IntegerOption: num(d.P), Nullability: n}
	case "precision_timestamp_tz":
		return &types.ParameterizedPrecisionTimestampTzType{IntegerOption: num(d.P), Nullability: n}
	case "interval_day":
		return &types.ParameterizedIntervalDayType{IntegerOption: num(d.P), Nullability: n}
	case "decimal":
		return &types.ParameterizedDecimalType{Precision: num(d.P), Scale: num(d.S), Nullability: n}
	case "list":
		return &types.ParameterizedListType{Type: d.Kids[0].def(), Nullability: n}
	case "map":
		return &types.ParameterizedMapType{Key: d.Kids[0].def(), Value: d.Kids[1].def(), Nullability: n}
	case "struct":
		return &types.ParameterizedStructType{Types: kids(d.Kids), Nullability: n}
	case "func":
		l := len(d.Kids) - 1
		return &types.ParameterizedFuncType{Parameters: kids(d.Kids[:l]), Return: d.Kids[l].def(), Nullability: n}
	case "udt":
		var ps []types.UDTParameter
		for _, a := range d.UArgs {
			switch a.Kind {
			case "type":
				ps = append(ps, &types.DataTypeUDTParam{Type: a.T.def()})
			case "int":
				ps = append(ps, &types.IntegerUDTParam{Integer: a.I})
			default:
				ps = append(ps, &types.StringUDTParam{StringVal: a.Str})
			}
		}
		return &types.ParameterizedUserDefinedType{Name: d.Name, TypeParameters: ps, Nullability: n}
	}
	td := &TD{Kind: d.Kind, Null: int(n)}
	return td.build().(types.FuncDefArgType)
}

// pdOf reads a declaration type back into the model.
func pdOf(ft types.FuncDefArgType) (*PD, error) {
	d := &PD{}
	switch ft.GetNullability() {
	case types.NullabilityNullable:
		d.Null = true
	case types.NullabilityRequired:
	default:
		return nil, fmt.Errorf("nullability of %s is %v", ft, ft.GetNullability())
	}
	num := func(p ip.IntegerParameter) string {
		switch v := p.(type) {
		case *ip.ConcreteIntParam:
			return strconv.Itoa(int(*v))
		case *ip.VariableIntParam:
			return string(*v)
		}
		return fmt.Sprintf("?%T", p)
	}
	var kerr error
	kid := func(k types.FuncDefArgType) *PD {
		x, err := pdOf(k)
		if err != nil {
			kerr = err
			return &PD{}
		}
		return x
	}
	switch v := ft.(type) {
	case *types.AnyType:
		d.Kind, d.Name = "any", v.Name
	case *types.ParameterizedFixedCharType:
		d.Kind, d.P = "fixedchar", num(v.IntegerOption)
	case *types.ParameterizedVarCharType:
		d.Kind, d.P = "varchar", num(v.IntegerOption)
	case *types.ParameterizedFixedBinaryType:
		d.Kind, d.P = "fixedbinary", num(v.IntegerOption)
	case *types.ParameterizedPrecisionTimeType:
		d.Kind, d.P = "precision_time", num(v.IntegerOption)
	case *types.ParameterizedPrecisionTimestampType:
		d.Kind, d.P = "precision_timestamp", num(v.IntegerOption)
	case *types.ParameterizedPrecisionTimestampTzType:
		d.Kind, d.P = "precision_timestamp_tz", num(v.IntegerOption)
	case *types.ParameterizedIntervalDayType:
		d.Kind, d.P = "interval_day", num(v.IntegerOption)
	case *types.ParameterizedDecimalType:
		d.Kind, d.P, d.S = "decimal", num(v.Precision), num(v.Scale)
	case *types.ParameterizedListType:
		d.Kind, d.Kids = "list", []*PD{kid(v.Type)}
	case *types.ParameterizedMapType:
		d.Kind, d.Kids = "map", []*PD{kid(v.Key), kid(v.Value)}
	case *types.ParameterizedStructType:
		d.Kind = "struct"
		for _, k := range v.Types {
			d.Kids = append(d.Kids, kid(k))
		}
	case *types.ParameterizedFuncType:
		d.Kind = "func"
		for _, k := range v.Parameters {
			d.Kids = append(d.Kids, kid(k))
		}
		d.Kids = append(d.Kids, kid(v.Return))
	case *types.ParameterizedUserDefinedType:
		d.Kind, d.Name = "udt", v.Name
		for _, p := range v.TypeParameters {
			switch a := p.(type) {
			case *types.DataTypeUDTParam:
				d.UArgs = append(d.UArgs, PDArg{Kind: "type", T: kid(a.Type)})
			case *types.IntegerUDTParam:
				d.UArgs = append(d.UArgs, PDArg{Kind: "int", I: a.Integer})
			case *types.StringUDTParam:
				d.UArgs = append(d.UArgs, PDArg{Kind: "string", Str: a.StringVal})
			default:
				return nil, fmt.Errorf("user-defined type argument %T", p)
			}
		}
	default:
		ty, ok := ft.(types.Type)
		if !ok {
			return nil, fmt.Errorf("unexpected %T", ft)
		}
		td := tdFromProto(types.TypeToProto(ty))
		if td.Var != 0 || len(td.Kids) > 0 || td.P != 0 {
			return nil, fmt.Errorf("unexpected concrete %s", td)
		}
		d.Kind = td.Kind
	}
	return d, kerr
}

// ---- a reference parser for type expressions (all of the grammar but derivation programs) ----

type ptok struct{ k, s string } // k: id num kw sym

var pdKeywords = map[string]bool{"if": true, "then": true, "else": true, "func": true, "and": true, "or": true, "any": true,
	"nstruct": true, "struct": true, "list": true, "map": true, "decimal": true, "interval_compound": true,
	"bool": true, "str": true, "vbin": true, "ts": true, "tstz": true, "iyear": true, "iday": true, "icompound": true, "dec": true,
	"pt": true, "pts": true, "ptstz": true, "fchar": true, "vchar": true, "fbin": true}

func init() {
	for _, k := range append(append([]string{}, pdSimple...), pdOne...) {
		pdKeywords[k] = true
	}
	for i := 0; i < 10; i++ {
		pdKeywords[fmt.Sprintf("any%d", i)] = true
	}
}

type pdLexErr struct{}

func lexPD(s string) (out []ptok, ok bool) {
	r := []rune(s)
	idStart := func(c rune) bool {
		return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || c == '$'
	}
	for i := 0; i < len(r); {
		c := r[i]
		switch {
		case c == ' ' || c == '\t':
			i++
		case c == '/' && i+1 < len(r) && r[i+1] == '*':
			j := i + 2
			for j+1 < len(r) && !(r[j] == '*' && r[j+1] == '/') {
				j++
			}
			if j+1 >= len(r) {
				return nil, false
			}
			i = j + 2
		case c == '/' && i+1 < len(r) && r[i+1] == '/':
			for i < len(r) && r[i] != '\n' {
				i++
			}
		case (c == 'u' || c == 'U') && i+1 < len(r) && r[i+1] == '!':
			out = append(out, ptok{"sym", "u!"})
			i += 2
		case idStart(c):
			j := i
			for j < len(r) && (idStart(r[j]) || r[j] >= '0' && r[j] <= '9') {
				j++
			}
			w := string(r[i:j])
			if pdKeywords[strings.ToLower(w)] {
				out = append(out, ptok{"kw", strings.ToLower(w)})
			} else {
				out = append(out, ptok{"id", w})
			}
			i = j
		case c >= '0' && c <= '9' || c == '-' && i+1 < len(r) && r[i+1] >= '0' && r[i+1] <= '9':
			j := i
			if c == '-' {
				j++
			}
			if r[j] == '0' {
				j++
			} else {
				for j < len(r) && r[j] >= '0' && r[j] <= '9' {
					j++
				}
			}
			out = append(out, ptok{"num", string(r[i:j])})
			i = j
		case c == '-' && i+1 < len(r) && r[i+1] == '>':
			out = append(out, ptok{"sym", "->"})
			i += 2
		case strings.ContainsRune("<>=!:", c) && i+1 < len(r) && r[i+1] == '=':
			out = append(out, ptok{"sym", string(r[i : i+2])})
			i += 2
		case c == ':' && i+1 < len(r) && r[i+1] == ':':
			out = append(out, ptok{"sym", "::"})
			i += 2
		case strings.ContainsRune("<>(),?+-*/%=!:[]#.\n", c):
			out = append(out, ptok{"sym", string(c)})
			i++
		case unicode.IsPrint(c) || true:
			return nil, false
		}
	}
	return out, true
}

type pdParser struct {
	toks []ptok
	i    int
}

func (p *pdParser) peek() ptok {
	if p.i < len(p.toks) {
		return p.toks[p.i]
	}
	return ptok{}
}

func (p *pdParser) accept(k, s string) bool {
	t := p.peek()
	if t.k == k && t.s == s {
		p.i++
		return true
	}
	return false
}

func (p *pdParser) want(k, s string) {
	if !p.accept(k, s) {
		panic(pdLexErr{})
	}
}

func (p *pdParser) intParam() string {
	t := p.peek()
	p.i++
	switch t.k {
	case "num":
		if _, err := strconv.ParseInt(t.s, 10, 32); err != nil {
			panic(pdLexErr{})
		}
		return t.s
	case "id":
		return t.s
	}
	panic(pdLexErr{})
}

func (p *pdParser) typ() *PD {
	if p.accept("sym", "(") {
		d := p.typ()
		p.want("sym", ")")
		return d
	}
	if p.accept("sym", "u!") {
		t := p.peek()
		if t.k != "id" {
			panic(pdLexErr{})
		}
		p.i++
		d := &PD{Kind: "udt", Name: t.s}
		d.Null = p.accept("sym", "?")
		if p.accept("sym", "<") {
			for {
				d.UArgs = append(d.UArgs, p.uarg())
				if !p.accept("sym", ",") {
					break
				}
			}
			p.want("sym", ">")
		}
		return d
	}
	t := p.peek()
	p.i++
	if t.k != "kw" {
		panic(pdLexErr{})
	}
	d := &PD{Kind: t.s}
	d.Null = p.accept("sym", "?")
	if strings.HasPrefix(t.s, "any") {
		d.Kind, d.Name = "any", t.s
		return d
	}
	for _, k := range pdSimple {
		if k == t.s {
			return d
		}
	}
	p.want("sym", "<")
	for _, k := range pdOne {
		if k == t.s {
			d.P = p.intParam()
			p.want("sym", ">")
			return d
		}
	}
	switch t.s {
	case "decimal":
		d.P = p.intParam()
		p.want("sym", ",")
		d.S = p.intParam()
	case "list":
		d.Kids = []*PD{p.typ()}
	case "map":
		k := p.typ()
		p.want("sym", ",")
		d.Kids = []*PD{k, p.typ()}
	case "struct":
		d.Kids = []*PD{p.typ()}
		for p.accept("sym", ",") {
			d.Kids = append(d.Kids, p.typ())
		}
	case "func":
		// "(" starts a parameter list or a parenthesised single parameter; a list of one is the same
		if p.accept("sym", "(") {
			d.Kids = []*PD{p.typ()}
			for p.accept("sym", ",") {
				d.Kids = append(d.Kids, p.typ())
			}
			p.want("sym", ")")
		} else {
			d.Kids = []*PD{p.typ()}
		}
		p.want("sym", "->")
		d.Kids = append(d.Kids, p.typ())
	default:
		panic(pdLexErr{})
	}
	p.want("sym", ">")
	return d
}

func (p *pdParser) uarg() PDArg {
	t := p.peek()
	switch {
	case t.k == "num":
		p.i++
		n, err := strconv.ParseInt(t.s, 10, 32)
		if err != nil {
			panic(pdLexErr{})
		}
		return PDArg{Kind: "int", I: int32(n)}
	case t.k == "id":
		p.i++
		p.accept("sym", "?")
		return PDArg{Kind: "string", Str: t.s}
	case t.k == "sym" && t.s == "(":
		p.i++
		a := p.uarg()
		p.want("sym", ")")
		return a
	}
	return PDArg{Kind: "type", T: p.typ()}
}

// refParsePD parses a type expression; ok is false when the text is not one.
func refParsePD(s string) (d *PD, ok bool) {
	toks, ok := lexPD(s)
	if !ok {
		return nil, false
	}
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(pdLexErr); is {
				d, ok = nil, false
				return
			}
			panic(r)
		}
	}()
	p := &pdParser{toks: toks}
	d = p.typ()
	if p.i != len(p.toks) {
		return nil, false
	}
	return d, true
}

// spell writes the tokens of a canonical spelling with random case, white space and comments.
func spell(t *rapid.T, s string) string {
	toks, ok := lexPD(s)
	if !ok {
		panic("spell: " + s)
	}
	style := rapid.IntRange(0, 3).Draw(t, "style")
	var b strings.Builder
	ws := func(need bool) {
		k := 0
		if style == 3 {
			k = rapid.IntRange(0, 5).Draw(t, "ws")
		}
		switch k {
		case 0, 1:
			if need {
				b.WriteByte(' ')
			}
		case 2:
			b.WriteString(" ")
		case 3:
			b.WriteString("\t ")
		case 4:
			b.WriteString("   ")
		case 5:
			b.WriteString("  ")
		}
	}
	word := func(k string) bool { return k == "id" || k == "kw" || k == "num" }
	for i, tk := range toks {
		if i > 0 {
			ws(word(tk.k) && word(toks[i-1].k))
		} else if style == 3 {
			ws(false)
		}
		w := tk.s
		if tk.k == "kw" || w == "u!" {
			switch style {
			case 1:
				w = strings.ToUpper(w)
			case 2, 3:
				rs := []rune(w)
				for j := range rs {
					if rapid.Bool().Draw(t, "up") {
						rs[j] = unicode.ToUpper(rs[j])
					}
				}
				w = string(rs)
			}
		}
		b.WriteString(w)
	}
	return b.String()
}
