package pbt

// XFile is an independent model of an extension file, with its own YAML writer.

import (
	"encoding/json"
	"fmt"
	"regexp"
	"sort"
	"strings"

	"github.com/substrait-io/substrait-go/v8/extensions"
	"github.com/substrait-io/substrait-go/v8/types"
	"pgregory.net/rapid"
)

// ymap is an ordered YAML mapping; values are *ymap, []any, string, int, bool or nil.
type ykv struct {
	K string
	V any
}
type ymap struct{ kv []ykv }

func ym(kvs ...any) *ymap {
	m := &ymap{}
	for i := 0; i < len(kvs); i += 2 {
		m.kv = append(m.kv, ykv{kvs[i].(string), kvs[i+1]})
	}
	return m
}
func (m *ymap) add(k string, v any) { m.kv = append(m.kv, ykv{k, v}) }

func ycopy(v any) any {
	switch x := v.(type) {
	case *ymap:
		o := &ymap{}
		for _, e := range x.kv {
			o.kv = append(o.kv, ykv{e.K, ycopy(e.V)})
		}
		return o
	case []any:
		o := make([]any, len(x))
		for i := range x {
			o[i] = ycopy(x[i])
		}
		return o
	}
	return v
}

var yPlain = regexp.MustCompile(`^[a-zA-Z_][a-zA-Z0-9_]*(<[a-zA-Z0-9, ?<>]*>)?\??$`)
var yReserved = regexp.MustCompile(`(?i)^(true|false|null|yes|no|on|off|y|n|nan|inf)$`)

func yScalar(v any, style func() int, flow bool) string {
	switch x := v.(type) {
	case nil:
		return "null"
	case string:
		if yPlain.MatchString(x) && !yReserved.MatchString(x) && style()%2 == 0 && (!flow || !strings.ContainsAny(x, ",?<>")) {
			return x
		}
		b, _ := json.Marshal(x)
		s := string(b)
		for _, r := range [][2]string{{`\u003c`, "<"}, {`\u003e`, ">"}, {`\u0026`, "&"}} {
			s = strings.ReplaceAll(s, r[0], r[1])
		}
		return s
	}
	return fmt.Sprint(v)
}

// yEmit writes v; style gives arbitrary layout choices.
func yEmit(b *strings.Builder, v any, indent int, style func() int) {
	pad := strings.Repeat(" ", indent)
	switch x := v.(type) {
	case *ymap:
		if len(x.kv) == 0 || indent > 4 && style()%7 == 0 {
			b.WriteString(" ")
			yFlow(b, v, style)
			b.WriteString("\n")
			return
		}
		b.WriteString("\n")
		for _, e := range x.kv {
			b.WriteString(pad + yScalar(e.K, style, true) + ":")
			yEmit(b, e.V, indent+2, style)
		}
	case []any:
		if len(x) == 0 || indent > 4 && style()%5 == 0 {
			b.WriteString(" ")
			yFlow(b, v, style)
			b.WriteString("\n")
			return
		}
		b.WriteString("\n")
		for _, e := range x {
			if m, ok := e.(*ymap); ok && len(m.kv) > 0 && style()%6 != 0 {
				for i, kv := range m.kv {
					if i == 0 {
						b.WriteString(pad + "- ")
					} else {
						b.WriteString(pad + "  ")
					}
					b.WriteString(yScalar(kv.K, style, true) + ":")
					yEmit(b, kv.V, indent+4, style)
				}
				continue
			}
			b.WriteString(pad + "- ")
			yFlow(b, e, style)
			b.WriteString("\n")
		}
	default:
		b.WriteString(" " + yScalar(v, style, false) + "\n")
	}
}

func yFlow(b *strings.Builder, v any, style func() int) {
	switch x := v.(type) {
	case *ymap:
		b.WriteString("{")
		for i, e := range x.kv {
			if i > 0 {
				b.WriteString(", ")
			}
			b.WriteString(yScalar(e.K, style, true) + ": ")
			yFlow(b, e.V, style)
		}
		b.WriteString("}")
	case []any:
		b.WriteString("[")
		for i, e := range x {
			if i > 0 {
				b.WriteString(", ")
			}
			yFlow(b, e, style)
		}
		b.WriteString("]")
	default:
		b.WriteString(yScalar(v, style, true))
	}
}

func yText(doc any, style func() int) string {
	var b strings.Builder
	b.WriteString("%YAML 1.2\n---")
	yEmit(&b, doc, 0, style)
	return b.String()
}

// yAny is the value as a generic decoder gives it, printed.
func yAny(v any) string {
	switch x := v.(type) {
	case *ymap:
		if x == nil {
			return "nothing"
		}
		var ks []string
		m := map[string]any{}
		for _, e := range x.kv {
			ks = append(ks, e.K)
			m[e.K] = e.V
		}
		sort.Strings(ks)
		var out []string
		for _, k := range ks {
			out = append(out, k+":"+yAny(m[k]))
		}
		return "map[" + strings.Join(out, " ") + "]"
	case []any:
		var out []string
		for _, e := range x {
			out = append(out, yAny(e))
		}
		return "[" + strings.Join(out, " ") + "]"
	}
	return fmt.Sprint(v)
}

type XArg struct {
	Name, Desc string
	Enum       []string
	IsEnum     bool
	T          *PD
	IsType     bool
	Const      bool
}

type XImpl struct {
	Args     []XArg
	Options  []ykv // name -> *ymap{description, values}
	opts     map[string]extensions.Option
	Variadic bool
	Min, Max int
	Cons     string
	Null     string
	Det      string // "" true false
	Sess     bool
	Ret      *PD
	Prog     *prog
	Inter    *PD
	Ordered  bool
	MaxSet   int
	Decomp   string
	Window   string
}

type XFunc struct {
	Kind, Name, Desc string
	Meta             *ymap
	Impls            []*XImpl
}

type XType struct {
	Name   string
	Struct any // nil, string or *ymap
	Params []extensions.TypeParamDef
	Var    bool
	Meta   *ymap
}

type XVar struct{ Name, Parent, Desc, Funcs string }

type XFile struct {
	URN   string
	Deps  []ykv
	Meta  *ymap
	Types []XType
	Vars  []XVar
	Funcs []*XFunc
}

var xText = rapid.SampledFrom([]string{"", "x", "a b", "it's: #1, \"quoted\"", "line one\nline two", "é ü", "- dash", "  padded ", "yes", "12", "null"})
var xName = rapid.SampledFrom([]string{"add", "sub", "Add", "mul_2", "f", "sum", "count", "row_number", "like", "max"})

func genMeta(t *rapid.T) *ymap {
	if rapid.IntRange(0, 2).Draw(t, "meta") > 0 {
		return nil
	}
	return genMetaMap(t, 2)
}

func genMetaMap(t *rapid.T, depth int) *ymap {
	m := &ymap{}
	n := rapid.IntRange(1, 3).Draw(t, "nmeta")
	for i := 0; i < n; i++ {
		k := rapid.SampledFrom([]string{"vendor", "status", "tags", "v.1", "Deep"}).Draw(t, "mk")
		dup := false
		for _, e := range m.kv {
			dup = dup || e.K == k
		}
		if dup {
			continue
		}
		m.add(k, genMetaVal(t, depth))
	}
	return m
}

func genMetaVal(t *rapid.T, depth int) any {
	cls := []string{"s", "i", "b"}
	if depth > 0 {
		cls = append(cls, "m", "l")
	}
	switch rapid.SampledFrom(cls).Draw(t, "mv") {
	case "i":
		return rapid.IntRange(-5, 100).Draw(t, "i")
	case "b":
		return rapid.Bool().Draw(t, "b")
	case "m":
		return genMetaMap(t, depth-1)
	case "l":
		n := rapid.IntRange(1, 3).Draw(t, "nl")
		var l []any
		for i := 0; i < n; i++ {
			l = append(l, genMetaVal(t, depth-1))
		}
		return l
	}
	return xText.Draw(t, "s")
}

var xShort = map[string]string{"i8": "i8", "i16": "i16", "i32": "i32", "i64": "i64", "fp32": "fp32", "fp64": "fp64", "boolean": "bool", "string": "str",
	"binary": "vbin", "date": "date", "time": "time", "timestamp": "ts", "timestamp_tz": "tstz", "interval_year": "iyear", "interval_day": "iday",
	"interval_compound": "icompound", "uuid": "uuid", "fixedchar": "fchar", "varchar": "vchar", "fixedbinary": "fbin", "decimal": "dec",
	"precision_time": "pt", "precision_timestamp": "pts", "precision_timestamp_tz": "ptstz", "struct": "struct", "list": "list", "map": "map", "func": "func"}

func (d *PD) short() string {
	switch d.Kind {
	case "any":
		return "any"
	case "udt":
		return "u!" + d.Name
	}
	return xShort[d.Kind]
}

func (m *XImpl) compound(name string) string {
	var ps []string
	for _, a := range m.Args {
		switch {
		case a.IsEnum:
			ps = append(ps, "req")
		case a.IsType:
			ps = append(ps, "type")
		default:
			ps = append(ps, a.T.short())
		}
	}
	return name + ":" + strings.Join(ps, "_")
}

func genXImpl(t *rapid.T, kind string) *XImpl {
	sg := genSig(t, sigOpts{anys: []string{"any", "any1", "any2"}, vars: []string{"P", "S"}, maxParams: rapid.SampledFrom([]int{4, 4, 4, 4, 11}).Draw(t, "maxp"), depth: 1})
	sg.genRet(t, true)
	m := &XImpl{Variadic: sg.Variadic, Min: sg.Min, Max: sg.Max, Cons: sg.Cons, Null: sg.Null, Ret: sg.Ret, Prog: sg.Prog}
	for _, p := range sg.Params {
		a := XArg{Name: xText.Draw(t, "aname"), Desc: xText.Draw(t, "adesc"), T: p.T, IsEnum: p.T == nil}
		if a.IsEnum {
			n := rapid.IntRange(0, 4).Draw(t, "nopt")
			for i := 0; i < n; i++ {
				a.Enum = append(a.Enum, rapid.SampledFrom([]string{"TRUE", "YEAR", "a-b", "null", "1", "x y"}).Draw(t, "opt"))
			}
		} else {
			a.Const = rapid.IntRange(0, 3).Draw(t, "const") == 0
			if rapid.IntRange(0, 11).Draw(t, "istype") == 0 {
				a.IsType, a.Const = true, false
			}
		}
		m.Args = append(m.Args, a)
	}
	m.opts = map[string]extensions.Option{}
	n := rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(t, "nopts")
	for i := 0; i < n; i++ {
		k := rapid.SampledFrom([]string{"overflow", "rounding", "null_handling"}).Draw(t, "oname")
		if _, ok := m.opts[k]; ok {
			continue
		}
		var o extensions.Option
		y := &ymap{}
		if rapid.Bool().Draw(t, "odesc") {
			o.Description = xText.Draw(t, "odesct")
			y.add("description", o.Description)
		}
		var vals []any
		nv := rapid.IntRange(1, 3).Draw(t, "nvals")
		for j := 0; j < nv; j++ {
			v := rapid.SampledFrom([]string{"SILENT", "ERROR", "TRUE", "TIE_TO_EVEN"}).Draw(t, "val")
			vals = append(vals, v)
			o.Values = append(o.Values, v)
		}
		y.add("values", vals)
		m.opts[k] = o
		m.Options = append(m.Options, ykv{k, y})
	}
	m.Det = rapid.SampledFrom([]string{"", "", "true", "false"}).Draw(t, "det")
	m.Sess = rapid.IntRange(0, 3).Draw(t, "sess") == 0
	if kind != "scalar" {
		if rapid.Bool().Draw(t, "hasinter") {
			m.Inter = genPD(t, pdOpts{depth: 2, nullProb: 3})
		}
		m.Ordered = rapid.Bool().Draw(t, "ordered")
		m.MaxSet = rapid.SampledFrom([]int{0, 0, 1, 7}).Draw(t, "maxset")
		m.Decomp = rapid.SampledFrom([]string{"", "NONE", "ONE", "MANY"}).Draw(t, "decomp")
	}
	if kind == "window" {
		m.Window = rapid.SampledFrom([]string{"", "STREAMING", "PARTITION"}).Draw(t, "wtype")
	}
	return m
}

func genXFile(t *rapid.T, urn string, loaded []string, maxFuncs int) *XFile {
	f := &XFile{URN: urn, Meta: genMeta(t)}
	for i, u := range loaded {
		if rapid.IntRange(0, 2).Draw(t, "dep") == 0 {
			f.Deps = append(f.Deps, ykv{[]string{"ext", "_x", "$d"}[i%3], u})
		}
	}
	for _, n := range udtNames {
		ty := XType{Name: n, Meta: genMeta(t), Var: rapid.IntRange(0, 3).Draw(t, "tvar") == 0}
		switch rapid.IntRange(0, 2).Draw(t, "struct") {
		case 1:
			ty.Struct = rapid.SampledFrom([]string{"i32", "struct<i32, i64?>", "any-text"}).Draw(t, "stext")
		case 2:
			ty.Struct = ym("latitude", "i32", "longitude", "fp64?")
		}
		np := rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(t, "ntp")
		for i := 0; i < np; i++ {
			p := extensions.TypeParamDef{Name: rapid.SampledFrom([]string{"", "T", "len"}).Draw(t, "pname"), Description: xText.Draw(t, "pdesc"),
				Type: rapid.SampledFrom([]extensions.ParamType{extensions.ParamDataType, extensions.ParamBool, extensions.ParamInteger, extensions.ParamEnum, extensions.ParamString}).Draw(t, "ptype"),
				Min:  rapid.IntRange(-3, 9).Draw(t, "pmin"), Max: rapid.IntRange(0, 9).Draw(t, "pmax"), Optional: rapid.Bool().Draw(t, "popt")}
			if p.Type == extensions.ParamEnum {
				p.Options = []string{"A", "b c"}
			}
			ty.Params = append(ty.Params, p)
		}
		f.Types = append(f.Types, ty)
	}
	nv := rapid.IntRange(0, 3).Draw(t, "nvar")
	for i := 0; i < nv; i++ {
		f.Vars = append(f.Vars, XVar{Name: []string{"dict4", "big endian", "point"}[i], Parent: rapid.SampledFrom([]string{"string", "decimal", "i64"}).Draw(t, "parent"),
			Desc: xText.Draw(t, "vdesc"), Funcs: rapid.SampledFrom([]string{"INHERITS", "SEPARATE"}).Draw(t, "vf")})
	}
	nf := rapid.IntRange(0, maxFuncs).Draw(t, "nf")
	seen := map[string]bool{}
	names := map[string]bool{}
	for i := 0; i < nf; i++ {
		kind := rapid.SampledFrom([]string{"scalar", "aggregate", "window"}).Draw(t, "kind")
		fn := &XFunc{Kind: kind, Name: xName.Draw(t, "fname"), Desc: xText.Draw(t, "fdesc"), Meta: genMeta(t)}
		if names[kind+fn.Name] && rapid.Bool().Draw(t, "again") {
			continue
		}
		names[kind+fn.Name] = true
		ni := rapid.SampledFrom([]int{0, 1, 1, 1, 2, 2, 3, 4}).Draw(t, "ni")
		for j := 0; j < ni; j++ {
			m := genXImpl(t, kind)
			if k := kind + m.compound(fn.Name); !seen[k] {
				seen[k] = true
				fn.Impls = append(fn.Impls, m)
			}
		}
		f.Funcs = append(f.Funcs, fn)
	}
	return f
}

// doc is the file as a YAML tree; order is arbitrary where it carries no meaning.
func (f *XFile) doc(t *rapid.T) *ymap {
	shuffle := func(kvs []ykv) *ymap {
		return &ymap{rapid.Permutation(kvs).Draw(t, "order")}
	}
	impl := func(kind string, m *XImpl) *ymap {
		var kv []ykv
		add := func(k string, v any) { kv = append(kv, ykv{k, v}) }
		if len(m.Args) > 0 {
			var as []any
			for _, a := range m.Args {
				var akv []ykv
				if a.Name != "" {
					akv = append(akv, ykv{"name", a.Name})
				}
				if a.Desc != "" {
					akv = append(akv, ykv{"description", a.Desc})
				}
				switch {
				case a.IsEnum:
					l := []any{}
					for _, o := range a.Enum {
						l = append(l, o)
					}
					akv = append(akv, ykv{"options", l})
				case a.IsType:
					akv = append(akv, ykv{"type", a.T.String()})
				default:
					akv = append(akv, ykv{"value", a.T.String()})
					if a.Const {
						akv = append(akv, ykv{"constant", true})
					}
				}
				as = append(as, shuffle(akv))
			}
			add("args", as)
		}
		if len(m.Options) > 0 {
			add("options", &ymap{m.Options})
		}
		if m.Variadic {
			v := ym("min", m.Min)
			if m.Max > 0 {
				v.add("max", m.Max)
			}
			if m.Cons != "" {
				v.add("parameterConsistency", m.Cons)
			}
			add("variadic", v)
		}
		if m.Null != "" {
			add("nullability", m.Null)
		}
		if m.Det != "" {
			add("deterministic", m.Det == "true")
		}
		if m.Sess {
			add("sessionDependent", true)
		}
		if m.Prog != nil {
			add("return", m.Prog.text(func(x string) string { return x }))
		} else {
			add("return", m.Ret.String())
		}
		if kind != "scalar" {
			if m.Inter != nil {
				add("intermediate", m.Inter.String())
			}
			if m.Ordered {
				add("ordered", true)
			}
			if m.MaxSet > 0 {
				add("maxset", m.MaxSet)
			}
			if m.Decomp != "" {
				add("decomposable", m.Decomp)
			}
		}
		if m.Window != "" {
			add("window_type", m.Window)
		}
		return shuffle(kv)
	}
	top := []ykv{{"urn", f.URN}}
	if len(f.Deps) > 0 {
		top = append(top, ykv{"dependencies", &ymap{f.Deps}})
	}
	if f.Meta != nil {
		top = append(top, ykv{"metadata", f.Meta})
	}
	var ts, vs []any
	for _, ty := range f.Types {
		m := ym("name", ty.Name)
		if ty.Struct != nil {
			m.add("structure", ty.Struct)
		}
		if ty.Var {
			m.add("variadic", true)
		}
		if ty.Meta != nil {
			m.add("metadata", ty.Meta)
		}
		if len(ty.Params) > 0 {
			var ps []any
			for _, p := range ty.Params {
				pm := &ymap{}
				if p.Name != "" {
					pm.add("name", p.Name)
				}
				pm.add("type", string(p.Type))
				if p.Description != "" {
					pm.add("description", p.Description)
				}
				if p.Min != 0 {
					pm.add("min", p.Min)
				}
				if p.Max != 0 {
					pm.add("max", p.Max)
				}
				if p.Options != nil {
					pm.add("options", []any{"A", "b c"})
				}
				if p.Optional {
					pm.add("optional", true)
				}
				ps = append(ps, pm)
			}
			m.add("parameters", ps)
		}
		ts = append(ts, m)
	}
	top = append(top, ykv{"types", ts})
	for _, v := range f.Vars {
		m := ym("parent", v.Parent, "name", v.Name)
		if v.Desc != "" {
			m.add("description", v.Desc)
		}
		m.add("functions", v.Funcs)
		vs = append(vs, m)
	}
	if len(vs) > 0 {
		top = append(top, ykv{"type_variations", vs})
	}
	for _, kind := range []string{"scalar", "aggregate", "window"} {
		var fs []any
		for _, fn := range f.Funcs {
			if fn.Kind != kind {
				continue
			}
			kv := []ykv{{"name", fn.Name}}
			if fn.Desc != "" {
				kv = append(kv, ykv{"description", fn.Desc})
			}
			if fn.Meta != nil {
				kv = append(kv, ykv{"metadata", fn.Meta})
			}
			var is []any
			for _, m := range fn.Impls {
				is = append(is, impl(kind, m))
			}
			if len(is) > 0 {
				kv = append(kv, ykv{"impls", is})
			}
			fs = append(fs, shuffle(kv))
		}
		if len(fs) > 0 {
			top = append(top, ykv{kind + "_functions", fs})
		}
	}
	return shuffle(top)
}

func yStyle(t *rapid.T) func() int {
	seed := rapid.Uint32().Draw(t, "style")
	return func() int {
		seed = seed*1664525 + 1013904223
		return int(seed >> 16)
	}
}

func orElse(s, d string) string {
	if s == "" {
		return d
	}
	return s
}

func sameMeta(got map[string]any, want *ymap) bool {
	if want == nil {
		return len(got) == 0
	}
	return fmt.Sprint(got) == yAny(want)
}

// xvariant is the interface of the getters all function variants have.
type xvariant interface {
	extensions.FunctionVariant
	ID() extensions.FunctionID
	Metadata() map[string]any
	Nullability() extensions.NullabilityHandling
	Deterministic() bool
	SessionDependent() bool
}

type xaggvariant interface {
	Decomposability() extensions.DecomposeType
	Intermediate() (types.FuncDefArgType, error)
	Ordered() bool
	MaxSet() int
}

// checkVariant compares a loaded variant with its model.
func (m *XImpl) checkVariant(c *C, f *XFile, fn *XFunc, v xvariant, asWindow bool) {
	name := m.compound(fn.Name)
	where := fn.Kind + " " + name
	c.Check(v.Name() == fn.Name, "name", "%s: name %q", where, v.Name())
	c.Check(v.CompoundName() == name, "compound_name", "%s: compound name %q", where, v.CompoundName())
	c.Check(v.URN() == f.URN, "urn", "%s: URN %q, want %q", where, v.URN(), f.URN)
	c.Check(v.ID() == (extensions.FunctionID{URN: f.URN, Name: name}), "id", "%s: ID %v", where, v.ID())
	c.Check(v.Description() == fn.Desc, "description", "%s: description %q, want %q", where, v.Description(), fn.Desc)
	c.Check(sameMeta(v.Metadata(), fn.Meta), "metadata", "%s: metadata %v, want %v", where, v.Metadata(), yAny(fn.Meta))
	c.Check(string(v.Nullability()) == orElse(m.Null, "MIRROR"), "nullability", "%s: nullability %v, want %v", where, v.Nullability(), m.Null)
	c.Check(v.Deterministic() == (m.Det != "false"), "deterministic", "%s: deterministic %v, file says %q", where, v.Deterministic(), m.Det)
	c.Check(v.SessionDependent() == m.Sess, "session_dependent", "%s: session dependent %v", where, v.SessionDependent())
	if m.Variadic {
		w := v.Variadic()
		c.Check(w != nil && w.Min == m.Min && w.Max == m.Max && string(w.ParameterConsistency) == orElse(m.Cons, "CONSISTENT"), "variadic", "%s: variadic %+v, want {%d %d %s}", where, w, m.Min, m.Max, m.Cons)
	} else {
		c.Check(v.Variadic() == nil, "variadic", "%s: variadic %+v, want none", where, v.Variadic())
	}
	c.Check(len(v.Options()) == len(m.opts), "options", "%s: options %v, want %v", where, v.Options(), m.opts)
	for k, o := range m.opts {
		got, ok := v.Options()[k]
		c.Check(ok && got.Description == o.Description && strings.Join(got.Values, "|") == strings.Join(o.Values, "|"), "options", "%s: option %s is %+v, want %+v", where, k, got, o)
	}
	c.Check(len(v.Args()) == len(m.Args), "args", "%s: %d arguments, want %d", where, len(v.Args()), len(m.Args))
	for i, a := range m.Args {
		switch g := v.Args()[i].(type) {
		case extensions.EnumArg:
			c.Check(a.IsEnum && g.Name == a.Name && g.Description == a.Desc && strings.Join(g.Options, "|") == strings.Join(a.Enum, "|"), "arg_enum", "%s: argument %d is %+v, want %+v", where, i, g, a)
		case extensions.ValueArg:
			c.Check(!a.IsEnum && !a.IsType && g.Name == a.Name && g.Description == a.Desc && g.Constant == a.Const && xSameType(g.Value.ValueType, a.T), "arg_value", "%s: argument %d is %+v of %v, want %+v", where, i, g, g.Value.ValueType, a)
		case extensions.TypeArg:
			c.Check(a.IsType && g.Name == a.Name && g.Description == a.Desc && xSameType(g.Type.ValueType, a.T), "arg_type", "%s: argument %d is %+v of %v, want %+v", where, i, g, g.Type.ValueType, a)
		default:
			c.Fail("arg_kind", "%s: argument %d is a %T", where, i, g)
		}
	}
	if ag, ok := v.(xaggvariant); ok {
		c.Check(ag.Ordered() == m.Ordered, "ordered", "%s: ordered %v", where, ag.Ordered())
		c.Check(ag.MaxSet() == m.MaxSet, "max_set", "%s: max set %d, want %d", where, ag.MaxSet(), m.MaxSet)
		c.Check(string(ag.Decomposability()) == orElse(m.Decomp, "NONE"), "decomposable", "%s: decomposable %v, want %q", where, ag.Decomposability(), m.Decomp)
		it, err := ag.Intermediate()
		if m.Inter == nil {
			c.Check(err != nil, "intermediate", "%s: intermediate %v, want none", where, it)
		} else {
			c.Check(err == nil && xSameType(it, m.Inter), "intermediate", "%s: intermediate %v (%v), want %v", where, it, err, m.Inter)
		}
	}
	if w, ok := v.(*extensions.WindowFunctionVariant); ok {
		want := orElse(m.Window, "PARTITION")
		if asWindow {
			want = "STREAMING"
		}
		c.Check(string(w.WindowType()) == want, "window_type", "%s: window type %v, want %v", where, w.WindowType(), want)
	}
}

func xSameType(ft types.FuncDefArgType, want *PD) bool {
	got, err := pdOf(ft)
	return err == nil && got.String() == want.String()
}

func (m *XImpl) sig(kind string) *FSig {
	s := &FSig{Kind: kind, Variadic: m.Variadic, Min: m.Min, Max: m.Max, Cons: m.Cons, Null: m.Null, Ret: m.Ret, Prog: m.Prog}
	for _, a := range m.Args {
		p := FParam{T: a.T}
		if a.IsEnum {
			p = FParam{Enum: []string{"x"}}
		}
		s.Params = append(s.Params, p)
	}
	return s
}
