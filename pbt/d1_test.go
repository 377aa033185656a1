package pbt

import (
	"fmt"
	"maps"
	"slices"
	"sort"
	"strings"
	"testing"

	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/extensions"
	"github.com/substrait-io/substrait-go/v8/functions"
	"github.com/substrait-io/substrait-go/v8/types"
	"pgregory.net/rapid"
)

// dArg is one kind of argument: how the extension file writes it, its name in identifiers and a
// type which it accepts.
type dArg struct {
	File, Short string
	Type        types.Type
}

var dArgs = []dArg{
	{"i8", "i8", &types.Int8Type{Nullability: 2}},
	{"i32", "i32", &types.Int32Type{Nullability: 2}},
	{"i64", "i64", &types.Int64Type{Nullability: 2}},
	{"fp64", "fp64", &types.Float64Type{Nullability: 2}},
	{"string", "str", &types.StringType{Nullability: 2}},
	{"boolean", "bool", &types.BooleanType{Nullability: 2}},
	{"any1", "any", &types.Int32Type{Nullability: 2}},
	{"any", "any", &types.StringType{Nullability: 2}},
	{"decimal<P,S>", "dec", &types.DecimalType{Precision: 10, Scale: 2, Nullability: 2}},
	{"varchar<L>", "vchar", &types.VarCharType{Length: 10, Nullability: 2}},
	{"date", "date", &types.DateType{Nullability: 2}},
	{"timestamp", "ts", &types.TimestampType{Nullability: 2}},
	{"precision_timestamp<P>", "pts", &types.PrecisionTimestampType{Precision: 6, Nullability: 2}},
}

var dKinds = []string{"scalar", "aggregate", "window"}

// dFn is a function variant of the universe a dialect picks from.
type dFn struct {
	Kind, URN, Name string
	Args            []dArg
	Min, Max        int // of a variadic one
	Variadic        bool
}

func (f *dFn) kernel() string {
	var s []string
	for _, a := range f.Args {
		s = append(s, a.Short)
	}
	return strings.Join(s, "_")
}

func (f *dFn) id() extensions.FunctionID {
	return extensions.FunctionID{URN: f.URN, Name: f.Name + ":" + f.kernel()}
}

// accepts reports whether a call may have n arguments; maybe is set where the existing tests ask
// for the variant although no call with that many arguments matches.
func (f *dFn) accepts(n int) (yes, maybe bool) {
	if !f.Variadic {
		return n == len(f.Args), false
	}
	v := n - (len(f.Args) - 1)
	return v >= f.Min && (f.Max == 0 || v <= f.Max), n == len(f.Args)
}

// dMap is how a dialect names a function.
type dMap struct {
	Local           string
	Infix, Postfix  bool
	Opts            map[string]string
	NoLocal, Column bool
	Odd             string // a malformed entry
}

func (m *dMap) notation() functions.FunctionNotation {
	switch {
	case m.Infix:
		return functions.INFIX
	case m.Postfix:
		return functions.POSTFIX
	}
	return functions.PREFIX
}

// dEntry is an entry of the function lists of a dialect file.
type dEntry struct {
	Kind, Alias, Name string
	M                 *dMap
	Kernels           []string
	Full              string // overrides Alias.Name
	Odd               string // an entry of the wrong kind
}

type dUniverse struct {
	Fns    []*dFn
	Col    *extensions.Collection
	Reg    functions.FunctionRegistry
	Text   []string
	Opt    []string
	broken error
}

var dOpts = map[string][]string{"overflow": {"SILENT", "ERROR"}, "rounding": {"FLOOR", "CEILING"}, "nulls": {"SKIP", "KEEP"}}

func genUniverse(t *rapid.T) *dUniverse {
	u := &dUniverse{Col: &extensions.Collection{}}
	urns := []string{"extension:verif:da", "extension:verif:db", "extension:other:da"}[:rapid.IntRange(1, 3).Draw(t, "urns")]
	names := []string{"f", "g", "h", "add", "plus"}[:rapid.IntRange(2, 5).Draw(t, "names")]
	for _, urn := range urns {
		doc := ym("urn", urn)
		for _, kind := range dKinds {
			var fns []any
			for _, name := range names {
				if !pct(t, 45) {
					continue
				}
				if kind == "window" && slices.ContainsFunc(u.Fns, func(f *dFn) bool { return f.URN == urn && f.Name == name && f.Kind == "window" }) {
					continue // already there as an aggregate function
				}
				var impls []any
				seen := map[string]bool{}
				for n := rapid.IntRange(1, 4).Draw(t, "impls"); n > 0; n-- {
					f := &dFn{Kind: kind, URN: urn, Name: name}
					a := rapid.IntRange(0, 3).Draw(t, "args")
					if pct(t, 10) {
						a = rapid.IntRange(4, 8).Draw(t, "more args")
					}
					for ; a > 0; a-- {
						f.Args = append(f.Args, dArgs[pick(t, len(dArgs))])
					}
					if seen[f.kernel()] {
						continue
					}
					seen[f.kernel()] = true
					im := ym()
					var args []any
					for i, a := range f.Args {
						args = append(args, ym("name", fmt.Sprintf("x%d", i), "value", a.File))
					}
					im.add("args", args)
					if len(f.Args) > 0 && pct(t, 30) {
						f.Variadic, f.Min = true, rapid.IntRange(0, 3).Draw(t, "min")
						v := ym("min", f.Min)
						if pct(t, 50) {
							f.Max = max(f.Min+rapid.IntRange(0, 2).Draw(t, "max"), 1)
							v.add("max", f.Max)
						}
						im.add("variadic", v)
					}
					if pct(t, 50) {
						o := ym()
						for _, k := range slices.Sorted(maps.Keys(dOpts)) {
							o.add(k, ym("values", []any{dOpts[k][0], dOpts[k][1]}))
						}
						im.add("options", o)
					}
					im.add("return", "i64")
					if kind == "aggregate" {
						im.add("decomposable", "MANY")
						im.add("intermediate", "i64")
					}
					impls = append(impls, im)
					u.Fns = append(u.Fns, f)
					if kind == "aggregate" {
						w := *f
						w.Kind = "window"
						u.Fns = append(u.Fns, &w)
					}
				}
				fns = append(fns, ym("name", name, "impls", impls))
			}
			if len(fns) > 0 {
				doc.add(kind+"_functions", fns)
			}
		}
		if len(doc.kv) == 1 {
			doc.add("scalar_functions", []any{ym("name", "only", "impls", []any{ym("args", []any{}, "return", "i8")})})
			u.Fns = append(u.Fns, &dFn{Kind: "scalar", URN: urn, Name: "only"})
		}
		text := yText(doc, yStyle(t))
		u.Text = append(u.Text, text)
		if err := u.Col.Load(strings.NewReader(text)); err != nil {
			u.broken = err
		}
	}
	u.Reg = functions.NewFunctionRegistry(u.Col)
	return u
}

// dDialect is the model of a dialect.
type dDialect struct {
	Deps    [][2]string // alias, URN
	Entries []*dEntry
	Types   [][2]any // name, *dMap (Local the SQL name, Column)
	Bad     string   // what is wrong with it
}

func (d *dDialect) doc(t *rapid.T) string {
	deps, tys := ym(), ym()
	for _, x := range d.Deps {
		deps.add(x[0], x[1])
	}
	for _, x := range d.Types {
		m := x[1].(*dMap)
		y := ym("sql_type_name", m.Local)
		if m.Odd == "list" {
			y = ym("sql_type_name", []any{m.Local, "X"})
		} else if m.Odd != "" {
			y.add("supported_as_column", m.Odd)
		} else if !m.Column {
			y.add("supported_as_column", false)
		} else if pct(t, 50) {
			y.add("supported_as_column", true)
		}
		tys.add(x[0].(string), y)
	}
	doc := ym("name", "d", "type", "sql", "dependencies", deps)
	if len(tys.kv) > 0 {
		doc.add("supported_types", tys)
	}
	for _, k := range dKinds {
		var l []any
		for _, e := range d.Entries {
			if e.Kind != k {
				continue
			}
			name := e.Alias + "." + e.Name
			if e.Full != "" {
				name = e.Full
			}
			y := ym("name", name)
			if !e.M.NoLocal {
				y.add("local_name", e.M.Local)
			}
			if e.M.Infix {
				y.add("infix", true)
			}
			if e.M.Postfix {
				y.add("postfix", true)
			}
			if len(e.M.Opts) > 0 {
				o := ym()
				for _, k := range slices.Sorted(maps.Keys(e.M.Opts)) {
					o.add(k, e.M.Opts[k])
				}
				y.add("required_options", o)
			}
			if k == "aggregate" && pct(t, 50) {
				y.add("aggregate", true)
			}
			var ks []any
			for _, k := range e.Kernels {
				ks = append(ks, k)
			}
			y.add("supported_kernels", ks)
			if e.Odd != "" {
				y.add(e.Odd, ym("x", "y"))
			}
			l = append(l, y)
		}
		if len(l) > 0 {
			doc.add(k+"_functions", l)
		}
	}
	return yText(doc, yStyle(t))
}

var dLocals = []string{"+", "f", "g", "h", "add", "plus", "PLUS", "IS NULL", "||", "F"}

func genDMap(t *rapid.T, name string) *dMap {
	m := &dMap{Local: dLocals[pick(t, len(dLocals))], Opts: map[string]string{}}
	if pct(t, 25) {
		m.Local, m.NoLocal = name, true
	}
	switch pick(t, 4) {
	case 0:
		m.Infix = true
	case 1:
		m.Postfix = true
	}
	for _, k := range slices.Sorted(maps.Keys(dOpts)) {
		if pct(t, 30) {
			m.Opts[k] = dOpts[k][pick(t, 2)]
		}
	}
	return m
}

// spelled is the kernel in one of the ways a dialect may write it.
func spelled(t *rapid.T, k string) string {
	ps := strings.Split(k, "_")
	for i, p := range ps {
		if p == "any" {
			ps[i] = []string{"any", "any1", "any2"}[pick(t, 3)]
		}
	}
	return strings.Join(ps, "_")
}

func genDDialect(t *rapid.T, u *dUniverse) (*dDialect, map[string]map[extensions.FunctionID]*dMap) {
	d := &dDialect{}
	want := map[string]map[extensions.FunctionID]*dMap{"scalar": {}, "aggregate": {}, "window": {}}
	aliases := []string{"da", "db", "f", "arith"}
	urns := map[string][]string{}
	perm := rapid.Permutation(aliases).Draw(t, "aliases")
	n := 0
	for _, f := range u.Fns {
		if _, ok := urns[f.URN]; !ok {
			urns[f.URN] = []string{perm[n]}
			d.Deps = append(d.Deps, [2]string{perm[n], f.URN})
			n++
		}
	}
	if n < len(perm) && pct(t, 40) { // two names for one file
		f := u.Fns[pick(t, len(u.Fns))]
		urns[f.URN] = append(urns[f.URN], perm[n])
		d.Deps = append(d.Deps, [2]string{perm[n], f.URN})
	}
	for _, f := range u.Fns {
		if !pct(t, 60) {
			continue
		}
		al := urns[f.URN][pick(t, len(urns[f.URN]))]
		var e *dEntry
		for _, o := range d.Entries {
			if o.Kind == f.Kind && o.Alias == al && o.Name == f.Name && pct(t, 60) {
				e = o
			}
		}
		if e == nil {
			e = &dEntry{Kind: f.Kind, Alias: al, Name: f.Name, M: genDMap(t, f.Name)}
			d.Entries = append(d.Entries, e)
		}
		e.Kernels = append(e.Kernels, spelled(t, f.kernel()))
		want[f.Kind][f.id()] = e.M
		if pct(t, 5) { // said twice, alike
			e.Kernels = append(e.Kernels, spelled(t, f.kernel()))
		}
	}
	d.Entries = rapid.Permutation(d.Entries).Draw(t, "entries")
	for _, e := range d.Entries {
		e.Kernels = rapid.Permutation(e.Kernels).Draw(t, "kernels")
	}
	var keys []string
	for _, a := range dArgs {
		if !slices.Contains(keys, a.Short) && a.Short != "any" {
			keys = append(keys, a.Short)
		}
	}
	long := map[string]string{"str": "string", "bool": "boolean", "dec": "decimal", "vchar": "varchar", "ts": "timestamp", "pts": "precision_timestamp"}
	for i, k := range keys {
		if pct(t, 75) || i == len(keys)-1 && len(d.Types) == 0 {
			name := k
			if l, ok := long[k]; ok && rapid.Bool().Draw(t, "long type name") {
				name = l
			}
			d.Types = append(d.Types, [2]any{name, &dMap{Local: fmt.Sprintf("T%d", i), Column: pct(t, 70)}})
		}
	}
	if len(d.Entries) == 0 {
		d.Bad = "no functions"
		return d, want
	}
	if !pct(t, 30) {
		return d, want
	}
	e := d.Entries[pick(t, len(d.Entries))]
	switch d.Bad = rapid.SampledFrom([]string{"unknown kernel", "unknown kind", "unknown alias", "unknown type in kernel", "no dot", "two dots", "no kernels", "two mappings",
		"no types", "unknown supported type", "unknown name", "unknown urn", "type twice", "malformed type entry", "malformed function entry"}).Draw(t, "bad"); d.Bad {
	case "unknown kernel":
		e.Kernels = append(e.Kernels, "i8_i8_i8_i8")
	case "unknown kind":
		for _, k := range dKinds {
			if !slices.ContainsFunc(u.Fns, func(f *dFn) bool {
				return f.Kind == k && f.Name == e.Name && urns[f.URN] != nil && slices.Contains(urns[f.URN], e.Alias)
			}) {
				d.Entries = append(d.Entries, &dEntry{Kind: k, Alias: e.Alias, Name: e.Name, M: genDMap(t, e.Name), Kernels: e.Kernels})
				return d, want
			}
		}
		d.Bad = ""
	case "unknown alias":
		c := *e
		c.Alias = "nowhere"
		if n := nearText(t, e.Alias); pct(t, 60) && n != "" && !strings.Contains(n, ".") && !slices.ContainsFunc(d.Deps, func(x [2]string) bool { return x[0] == n }) {
			c.Alias = n
		}
		d.Entries = append(d.Entries, &c)
	case "unknown type in kernel":
		e.Kernels = append(e.Kernels, []string{"i99", "i32_nonsense", "i32_i32x"}[pick(t, 3)])
	case "no dot":
		e.Full = e.Name
	case "two dots":
		e.Full = e.Alias + "." + e.Name + ".x"
	case "no kernels":
		d.Entries = append(d.Entries, &dEntry{Kind: e.Kind, Alias: e.Alias, Name: e.Name, M: e.M})
	case "two mappings":
		m := *e.M
		switch pick(t, 3) {
		case 0:
			m.Local, m.NoLocal = m.Local+"x", false
		case 1:
			m.Infix, m.Postfix = !m.Infix && !m.Postfix, false
		case 2:
			m.Opts = map[string]string{"overflow": "SILENT"}
			if e.M.Opts["overflow"] == "SILENT" {
				m.Opts["overflow"] = "ERROR"
			}
		}
		d.Entries = append(d.Entries, &dEntry{Kind: e.Kind, Alias: e.Alias, Name: e.Name, M: &m, Kernels: e.Kernels[:1]})
	case "no types":
		d.Types = nil
	case "unknown supported type":
		d.Types = append(d.Types, [2]any{[]string{"myth", "i33", "u!", "list", ""}[pick(t, 2)], &dMap{Local: "X", Column: true}})
	case "malformed type entry":
		if len(d.Types) == 0 {
			d.Bad = ""
			return d, want
		}
		x := d.Types[pick(t, len(d.Types))]
		m := *x[1].(*dMap)
		m.Odd = []string{"list", "maybe", "3"}[pick(t, 3)]
		d.Types = slices.Clone(d.Types)
		d.Types[slices.IndexFunc(d.Types, func(y [2]any) bool { return y[0] == x[0] })][1] = &m
	case "malformed function entry":
		c := *e
		c.Odd = []string{"local_name", "infix", "postfix", "required_options", "supported_kernels"}[pick(t, 5)]
		if c.Odd == "required_options" {
			c.Odd = ""
		}
		if c.Odd == "" || c.Odd == "local_name" && !e.M.NoLocal || c.Odd == "infix" && e.M.Infix || c.Odd == "postfix" && e.M.Postfix || c.Odd == "supported_kernels" {
			d.Bad = ""
			return d, want
		}
		d.Entries = append(d.Entries, &c)
	case "unknown name":
		c := *e
		c.Name = "no_such"
		if n := nearText(t, e.Name); pct(t, 60) && n != "" && !strings.Contains(n, ".") && !slices.ContainsFunc(u.Fns, func(f *dFn) bool { return f.Name == n }) {
			c.Name = n
		}
		d.Entries = append(d.Entries, &c)
	case "unknown urn":
		d.Deps = append(d.Deps, [2]string{"lost", "extension:verif:lost"})
		c := *e
		c.Alias = "lost"
		d.Entries = append(d.Entries, &c)
	case "type twice":
		for _, x := range d.Types {
			for s, l := range long {
				if x[0] == s || x[0] == l {
					other := s
					if x[0] == s {
						other = l
					}
					d.Types = append(d.Types, [2]any{other, &dMap{Local: "other", Column: true}})
					if m := *x[1].(*dMap); rapid.Bool().Draw(t, "column") { // the same but for columns
						m.Column = !m.Column
						d.Types[len(d.Types)-1][1] = &m
					}
					return d, want
				}
			}
		}
		d.Bad = ""
	}
	return d, want
}

type dLocal interface {
	extensions.FunctionVariant
	ID() extensions.FunctionID
	LocalName() string
	Notation() functions.FunctionNotation
	IsOptionSupported(name, value string) bool
	InvocationTypeName() string
}

func dLocalsOf[T dLocal](vs []T) (out []dLocal) {
	for _, v := range vs {
		out = append(out, v)
	}
	return
}

func dLookup(r functions.LocalFunctionRegistry, kind string, n functions.FunctionName, args int) []dLocal {
	switch kind {
	case "scalar":
		return dLocalsOf(r.GetScalarFunctions(n, args))
	case "aggregate":
		return dLocalsOf(r.GetAggregateFunctions(n, args))
	}
	return dLocalsOf(r.GetWindowFunctions(n, args))
}

func dKindOf(v any) string {
	switch v.(type) {
	case *functions.LocalScalarFunctionVariant:
		return "scalar"
	case *functions.LocalAggregateFunctionVariant:
		return "aggregate"
	case *functions.LocalWindowFunctionVariant:
		return "window"
	}
	return fmt.Sprintf("%T", v)
}

func dIDs(vs []dLocal) (out []string) {
	for _, v := range vs {
		out = append(out, fmt.Sprint(v.ID()))
	}
	return
}

func TestD01(t *testing.T) {
	p := start(t, "D01", "1 to 3 extension files with functions of the same names in several files and kinds, and dialects over some of their variants: entries split and ordered freely, two aliases of one file, "+
		"local names that are names of other functions or shared by several, notations, required options, any-kernels in all spellings, and 30% with one fault of 13 kinds; lookups by every name, kind and 0 to 10 "+
		"arguments, invocations with supported and unsupported types and options; and dialects over the default collection; non-trivial = at least two variants localized, or a fault refused")
	defer p.finish()

	// check compares a local registry with the model
	check := func(c *C, u *dUniverse, fns map[string]map[extensions.FunctionID]*dFn, want map[string]map[extensions.FunctionID]*dMap, reg functions.LocalFunctionRegistry, at string) {
		var all, exp []string
		for _, v := range reg.GetAllFunctions() {
			all = append(all, dKindOf(v)+" "+fmt.Sprint(v.(dLocal).ID()))
		}
		for k, m := range want {
			for id := range m {
				exp = append(exp, k+" "+fmt.Sprint(id))
			}
		}
		sort.Strings(all)
		sort.Strings(exp)
		c.Check(slices.Equal(all, exp), "functions"+at, "lists %v, want %v", all, exp)
		salt := rapid.Uint64().Draw(c.T, "salt")
		one := func(v dLocal, kind string) {
			m := want[kind][v.ID()]
			if m == nil {
				c.Fail("foreign"+at, "%s %s is not in the dialect", kind, v.ID())
			}
			f := fns[kind][v.ID()]
			c.Check(v.LocalName() == m.Local, "local_name"+at, "%s %s is named %q, want %q", kind, v.ID(), v.LocalName(), m.Local)
			c.Check(v.Notation() == m.notation(), "notation"+at, "%s %s has notation %v, want %v", kind, v.ID(), v.Notation(), m.notation())
			c.Check(v.InvocationTypeName() == kind && dKindOf(v) == kind, "kind"+at, "%s %s is %s", kind, v.ID(), v.InvocationTypeName())
			c.Check(v.Name() == f.Name && v.URN() == f.URN && len(v.Args()) == len(f.Args) && (v.Variadic() != nil) == f.Variadic, "variant"+at, "%s %s is %s of %s with %v", kind, v.ID(), v.Name(), v.URN(), v.Args())
			for _, o := range slices.Sorted(maps.Keys(dOpts)) {
				vals := dOpts[o]
				for _, val := range vals {
					w := m.Opts[o] == val
					c.Check(v.IsOptionSupported(o, val) == w && v.IsOptionSupported(o, strings.ToLower(val)) == w, "option"+at, "%s %s supports %s=%s: %v, want %v", kind, v.ID(), o, val, !w, w)
				}
				near := nearAt(vals[salt%2], salt+hash64(v.ID().Name))
				if !strings.EqualFold(near, vals[0]) && !strings.EqualFold(near, vals[1]) {
					c.Check(!v.IsOptionSupported(o, near), "option_near"+at, "%s %s supports %s=%q, which nothing says", kind, v.ID(), o, near)
				}
				no := nearAt(o, salt+hash64(v.ID().Name))
				c.Check(dOpts[no] != nil || !v.IsOptionSupported(no, m.Opts[o]), "option_name_near"+at, "%s %s supports %q=%s, which nothing says", kind, v.ID(), no, m.Opts[o])
				c.Check(!v.IsOptionSupported(o, "OTHER") && !v.IsOptionSupported(o, ""), "option_other"+at, "%s %s supports any value of %s", kind, v.ID(), o)
			}
			c.Check(!v.IsOptionSupported("unheard", "SILENT"), "option_unknown"+at, "%s %s supports an option it was not given", kind, v.ID())
		}
		for _, v := range reg.GetAllFunctions() {
			one(v.(dLocal), dKindOf(v))
		}
		names := map[string]bool{"": true, "no_such": true}
		for _, k := range dKinds {
			for id := range fns[k] {
				names[fns[k][id].Name] = true
			}
			for _, m := range want[k] {
				names[m.Local] = true
			}
		}
		for _, kind := range dKinds {
			for name := range names {
				for n := 0; n <= 10; n++ {
					for _, local := range []bool{true, false} {
						fn := functions.FunctionName(functions.SubstraitFunctionName(name))
						if local {
							fn = functions.LocalFunctionName(name)
						}
						got := dLookup(reg, kind, fn, n)
						seen := map[extensions.FunctionID]bool{}
						for _, v := range got {
							c.Check(!seen[v.ID()], "twice"+at, "%s %s is found twice as %T(%q)", kind, v.ID(), fn, name)
							seen[v.ID()] = true
							one(v, kind)
							ok := v.Name() == name
							if local {
								ok = v.LocalName() == name
							}
							c.Check(ok, "by_name"+at, "%T(%q) of %d arguments gives %s named %q", fn, name, n, v.ID(), v.LocalName())
							yes, maybe := fns[kind][v.ID()].accepts(n)
							c.Check(yes || maybe, "by_count"+at, "%T(%q) of %d arguments gives %s", fn, name, n, v.ID())
						}
						for id, m := range want[kind] {
							f := fns[kind][id]
							yes, _ := f.accepts(n)
							if yes && (local && m.Local == name || !local && f.Name == name) {
								c.Check(seen[id], "not_found"+at, "%s %T(%q) of %d arguments gives %v, not %s", kind, fn, name, n, dIDs(got), id)
							}
						}
					}
				}
			}
		}
	}

	p.sub("dialects", 2500, func(c *C) {
		t := c.T
		u := genUniverse(t)
		if u.broken != nil {
			c.Case(false, "%v\n%s", u.broken, strings.Join(u.Text, "\n"))
			c.Fail("universe", "the functions are refused: %v", u.broken)
		}
		d, want := genDDialect(t, u)
		text := d.doc(t)
		n := len(want["scalar"]) + len(want["aggregate"]) + len(want["window"])
		c.Case(n >= 2 || d.Bad != "", "bad: %q\n%s\nover\n%s", d.Bad, text, strings.Join(u.Text, "\n"))
		fns := map[string]map[extensions.FunctionID]*dFn{"scalar": {}, "aggregate": {}, "window": {}}
		for _, f := range u.Fns {
			fns[f.Kind][f.id()] = f
		}
		var dia functions.Dialect
		var reg functions.LocalFunctionRegistry
		var err error
		c.NoPanic("dialect", func() {
			if dia, err = functions.LoadDialect("named", strings.NewReader(text)); err == nil {
				reg, err = dia.LocalizeFunctionRegistry(u.Reg)
			}
		})
		if d.Bad != "" {
			c.Label("refused: " + d.Bad)
			c.Check(err != nil, "accepted:"+strings.ReplaceAll(d.Bad, " ", "_"), "a dialect with %s is accepted", d.Bad)
			return
		}
		c.Label("accepted")
		c.Check(err == nil, "refused", "refused: %v", err)
		c.Check(dia.Name() == "named" && reg.GetDialect() == dia && reg.GetFunctionRegistry() == u.Reg, "itself", "the registry does not know its dialect")
		check(c, u, fns, want, reg, "")
		// the same dialect again gives the same answers in the same order
		dia2, err2 := functions.LoadDialect("named", strings.NewReader(text))
		c.Check(err2 == nil, "again_refused", "the dialect is refused the second time: %v", err2)
		reg2, err2 := dia2.LocalizeFunctionRegistry(u.Reg)
		c.Check(err2 == nil, "again_refused", "the dialect is refused the second time: %v", err2)
		order := func(r functions.LocalFunctionRegistry) (out []string) {
			for _, v := range r.GetAllFunctions() {
				out = append(out, dKindOf(v)+" "+fmt.Sprint(v.(dLocal).ID()))
			}
			for _, k := range dKinds {
				for _, l := range dLocals {
					out = append(out, strings.Join(dIDs(dLookup(r, k, functions.LocalFunctionName(l), 2)), ","))
				}
			}
			return
		}
		c.Check(slices.Equal(order(reg), order(reg2)), "again", "localized twice, the functions are in another order:\n%v\n%v", order(reg), order(reg2))
		// and with the lists in another order the same functions
		d.Entries = rapid.Permutation(d.Entries).Draw(t, "entries again")
		dia3, err3 := functions.LoadDialect("named", strings.NewReader(d.doc(t)))
		c.Check(err3 == nil, "reordered_refused", "with its entries in another order the dialect is refused: %v", err3)
		reg3, err3 := dia3.LocalizeFunctionRegistry(u.Reg)
		c.Check(err3 == nil, "reordered_refused", "with its entries in another order the dialect is refused: %v", err3)
		check(c, u, fns, want, reg3, ":reordered")

		// invocations
		supported := map[string]bool{}
		for _, x := range d.Types {
			n := x[0].(string)
			for _, a := range dArgs {
				if l := strings.SplitN(a.File, "<", 2)[0]; a.Short == n || l == n {
					supported[a.Short] = true
				}
			}
		}
		ereg := expr.NewEmptyExtensionRegistry(u.Col)
		for i := rapid.IntRange(1, 6).Draw(t, "invocations"); i > 0; i-- {
			f := u.Fns[pick(t, len(u.Fns))]
			m := want[f.Kind][f.id()]
			var args []types.FuncArg
			typesOK := true
			n := len(f.Args)
			if f.Variadic {
				n = len(f.Args) - 1 + f.Min
			}
			var anys types.Type
			for j := 0; j < n; j++ {
				a := f.Args[min(j, len(f.Args)-1)]
				ty := a.Type
				if strings.HasPrefix(a.File, "any") {
					if anys == nil {
						anys = dArgs[pick(t, len(dArgs))].Type
					}
					ty = anys
				}
				if pct(t, 20) {
					ty = ty.WithNullability(types.NullabilityNullable)
				}
				typesOK = typesOK && supported[ty.ShortString()]
				args = append(args, &expr.DynamicParameter{OutputType: ty, ParameterReference: uint32(j)})
			}
			var opts []*types.FunctionOption
			optsOK := true
			for _, o := range slices.Sorted(maps.Keys(dOpts)) {
				if !pct(t, 25) {
					continue
				}
				fo := &types.FunctionOption{Name: o}
				for _, val := range dOpts[o] {
					if m != nil && m.Opts[o] == val && pct(t, 80) || pct(t, 15) {
						fo.Preference = append(fo.Preference, val)
						if m != nil && m.Opts[o] != val {
							optsOK = false
						}
					}
				}
				if len(fo.Preference) > 0 {
					opts = append(opts, fo)
				}
			}
			what := fmt.Sprintf("%s %s over %v with %v", f.Kind, f.id(), args, opts)
			var got dLocal
			var err error
			call := func() bool {
				switch f.Kind {
				case "scalar":
					x, e := expr.NewScalarFunc(ereg, f.id(), opts, args...)
					if e != nil {
						return false
					}
					v, e := reg.GetScalarFunctionByInvocation(x)
					if err = e; v != nil {
						got = v
					}
				case "aggregate":
					x, e := expr.NewAggregateFunc(ereg, f.id(), opts, types.AggInvocationAll, types.AggPhaseInitialToResult, nil, args...)
					if e != nil {
						return false
					}
					v, e := reg.GetAggregateFunctionByInvocation(x)
					if err = e; v != nil {
						got = v
					}
				case "window":
					x, e := expr.NewWindowFunc(ereg, f.id(), opts, types.AggInvocationAll, types.AggPhaseInitialToResult, args...)
					if e != nil {
						return false
					}
					v, e := reg.GetWindowFunctionByInvocation(x)
					if err = e; v != nil {
						got = v
					}
				}
				return true
			}
			made := false
			c.NoPanic("invocation", func() { made = call() })
			if !made {
				c.Label("no invocation")
				continue
			}
			if m != nil && typesOK && optsOK {
				c.Label("invoked")
				c.Check(err == nil && got != nil, "invocation_refused", "%s: %v", what, err)
				c.Check(got.ID() == f.id() && dKindOf(got) == f.Kind && got.LocalName() == m.Local, "invocation_other", "%s gives %s named %q", what, got.ID(), got.LocalName())
			} else {
				c.Label("invocation refused")
				c.Check(err != nil, "invocation_accepted", "%s is accepted (in the dialect %v, types %v, options %v)", what, m != nil, typesOK, optsOK)
			}
		}
	})

	// the functions of the default collection, as far as dialects can name them
	p.sub("standard", 150, func(c *C) {
		t := c.T
		col := extensions.GetDefaultCollectionWithNoError()
		u := &dUniverse{Col: col, Reg: functions.NewFunctionRegistry(col)}
		known := map[string]bool{"": true}
		for _, k := range []string{"i8", "i16", "i32", "i64", "fp32", "fp64", "str", "vbin", "bool", "date", "time", "ts", "tstz", "iyear", "iday", "uuid", "fbin", "fchar", "vchar", "dec", "pt", "pts", "ptstz", "any"} {
			known[k] = true
		}
		fns := map[string]map[extensions.FunctionID]*dFn{"scalar": {}, "aggregate": {}, "window": {}}
		add := func(kind string, v interface {
			extensions.FunctionVariant
			ID() extensions.FunctionID
		}) {
			name, kernel, _ := strings.Cut(v.CompoundName(), ":")
			f := &dFn{Kind: kind, URN: v.URN(), Name: name}
			for _, k := range strings.Split(kernel, "_") {
				if !known[k] {
					return
				}
				if k != "" {
					f.Args = append(f.Args, dArg{Short: k})
				}
			}
			if len(f.Args) != len(v.Args()) {
				return
			}
			if b := v.Variadic(); b != nil {
				f.Variadic, f.Min, f.Max = true, b.Min, b.Max
			}
			u.Fns = append(u.Fns, f)
			fns[kind][f.id()] = f
		}
		for _, v := range col.GetAllScalarFunctions() {
			add("scalar", v)
		}
		for _, v := range col.GetAllAggregateFunctions() {
			add("aggregate", v)
		}
		for _, v := range col.GetAllWindowFunctions() {
			add("window", v)
		}
		sort.Slice(u.Fns, func(i, j int) bool {
			return u.Fns[i].Kind+fmt.Sprint(u.Fns[i].id()) < u.Fns[j].Kind+fmt.Sprint(u.Fns[j].id())
		})
		// a name, and everything that shares it; and some others
		d, want := &dDialect{Types: [][2]any{{"i32", &dMap{Local: "INT", Column: true}}}}, map[string]map[extensions.FunctionID]*dMap{"scalar": {}, "aggregate": {}, "window": {}}
		alias := map[string]string{}
		chosen := u.Fns[pick(t, len(u.Fns))].Name
		for _, f := range u.Fns {
			if f.Name == chosen && !pct(t, 85) || f.Name != chosen && !pct(t, 4) {
				continue
			}
			if alias[f.URN] == "" {
				alias[f.URN] = fmt.Sprintf("a%d", len(alias))
				d.Deps = append(d.Deps, [2]string{alias[f.URN], f.URN})
			}
			e := &dEntry{Kind: f.Kind, Alias: alias[f.URN], Name: f.Name, M: genDMap(t, f.Name), Kernels: []string{spelled(t, f.kernel())}}
			d.Entries = append(d.Entries, e)
			want[f.Kind][f.id()] = e.M
		}
		if len(d.Entries) == 0 {
			return
		}
		text := d.doc(t)
		c.Case(len(d.Entries) >= 2, "%s", text)
		c.Label(fmt.Sprintf("up to %d functions", (len(d.Entries)/20+1)*20))
		dia, err := functions.LoadDialect("standard", strings.NewReader(text))
		c.Check(err == nil, "standard_refused", "refused: %v", err)
		reg, err := dia.LocalizeFunctionRegistry(u.Reg)
		c.Check(err == nil, "standard_refused", "refused: %v", err)
		check(c, u, fns, want, reg, ":standard")
	})

	// the registry a dialect is applied to
	p.sub("registry", 2000, func(c *C) {
		u := genUniverse(c.T)
		c.Case(len(u.Fns) > 1, "%s", strings.Join(u.Text, "\n"))
		c.Check(u.broken == nil, "universe", "the functions are refused: %v", u.broken)
		var all, exp []string
		for _, v := range u.Reg.GetAllFunctions() {
			all = append(all, fmt.Sprintf("%T %s %s", v, v.URN(), v.CompoundName()))
		}
		names := map[string]bool{"": true, "no_such": true}
		tn := map[string]string{"scalar": "*extensions.ScalarFunctionVariant", "aggregate": "*extensions.AggregateFunctionVariant", "window": "*extensions.WindowFunctionVariant"}
		for _, f := range u.Fns {
			exp = append(exp, fmt.Sprintf("%s %s %s", tn[f.Kind], f.URN, f.id().Name))
			names[f.Name] = true
		}
		sort.Strings(all)
		sort.Strings(exp)
		c.Check(slices.Equal(all, exp), "all_functions", "lists %v, want %v", all, exp)
		for name := range names {
			for n := -1; n <= 6; n++ {
				for _, kind := range dKinds {
					var got []string
					put := func(v extensions.FunctionVariant) { got = append(got, v.URN()+" "+v.CompoundName()) }
					switch kind {
					case "scalar":
						if n < 0 {
							each(u.Reg.GetScalarFunctionsByName(name), put)
						} else {
							each(u.Reg.GetScalarFunctions(name, n), put)
						}
					case "aggregate":
						if n < 0 {
							each(u.Reg.GetAggregateFunctionsByName(name), put)
						} else {
							each(u.Reg.GetAggregateFunctions(name, n), put)
						}
					case "window":
						if n < 0 {
							each(u.Reg.GetWindowFunctionsByName(name), put)
						} else {
							each(u.Reg.GetWindowFunctions(name, n), put)
						}
					}
					var must, may []string
					for _, f := range u.Fns {
						if f.Kind != kind || f.Name != name {
							continue
						}
						s := f.URN + " " + f.id().Name
						yes, maybe := f.accepts(n)
						if n < 0 || yes {
							must = append(must, s)
						} else if maybe {
							may = append(may, s)
						}
					}
					for _, s := range must {
						c.Check(slices.Contains(got, s), "registry_missing", "%s %q with %d arguments gives %v, want %s", kind, name, n, got, s)
					}
					for i, s := range got {
						c.Check(!slices.Contains(got[:i], s) && (slices.Contains(must, s) || slices.Contains(may, s)), "registry_extra", "%s %q with %d arguments gives %v, want %v", kind, name, n, got, must)
					}
				}
			}
		}
	})
}

func each[T extensions.FunctionVariant](vs []T, f func(extensions.FunctionVariant)) {
	for _, v := range vs {
		f(v)
	}
}
