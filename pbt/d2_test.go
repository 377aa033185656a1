package pbt

import (
	"fmt"
	"maps"
	"reflect"
	"slices"
	"strings"
	"testing"

	"github.com/substrait-io/substrait-go/v8/functions"
	"github.com/substrait-io/substrait-go/v8/types"
	"pgregory.net/rapid"
)

// lType is a type dialects can name.
type lType struct {
	Short, Long string
	Params      int // number of parameters; -1: one or none
	Build       func(n types.Nullability, ps []int32) types.Type
}

func simpleL[T any, P interface {
	*T
	types.Type
}](short, long string) lType {
	return lType{short, long, 0, func(n types.Nullability, _ []int32) types.Type { return P(new(T)).WithNullability(n) }}
}

var lTypes = []lType{
	simpleL[types.Int8Type]("i8", "i8"), simpleL[types.Int16Type]("i16", "i16"), simpleL[types.Int32Type]("i32", "i32"), simpleL[types.Int64Type]("i64", "i64"),
	simpleL[types.Float32Type]("fp32", "fp32"), simpleL[types.Float64Type]("fp64", "fp64"), simpleL[types.StringType]("str", "string"), simpleL[types.BinaryType]("vbin", "binary"),
	simpleL[types.BooleanType]("bool", "boolean"), simpleL[types.DateType]("date", "date"), simpleL[types.TimeType]("time", "time"), simpleL[types.TimestampType]("ts", "timestamp"),
	simpleL[types.TimestampTzType]("tstz", "timestamp_tz"), simpleL[types.IntervalYearType]("iyear", "interval_year"), simpleL[types.UUIDType]("uuid", "uuid"),
	{"fchar", "fixedchar", 1, func(n types.Nullability, ps []int32) types.Type {
		return &types.FixedCharType{Nullability: n, Length: ps[0]}
	}},
	{"vchar", "varchar", 1, func(n types.Nullability, ps []int32) types.Type {
		return &types.VarCharType{Nullability: n, Length: ps[0]}
	}},
	{"fbin", "fixedbinary", 1, func(n types.Nullability, ps []int32) types.Type {
		return &types.FixedBinaryType{Nullability: n, Length: ps[0]}
	}},
	{"dec", "decimal", 2, func(n types.Nullability, ps []int32) types.Type {
		return &types.DecimalType{Nullability: n, Precision: ps[0], Scale: ps[1]}
	}},
	{"iday", "interval_day", -1, func(n types.Nullability, ps []int32) types.Type {
		return &types.IntervalDayType{Nullability: n, Precision: types.TimePrecision(ps[0])}
	}},
	{"pt", "precision_time", -1, func(n types.Nullability, ps []int32) types.Type {
		return &types.PrecisionTimeType{Nullability: n, Precision: types.TimePrecision(ps[0])}
	}},
	{"pts", "precision_timestamp", -1, func(n types.Nullability, ps []int32) types.Type {
		return &types.PrecisionTimestampType{Nullability: n, Precision: types.TimePrecision(ps[0])}
	}},
	{"ptstz", "precision_timestamp_tz", -1, func(n types.Nullability, ps []int32) types.Type {
		return &types.PrecisionTimestampTzType{PrecisionTimestampType: types.PrecisionTimestampType{Nullability: n, Precision: types.TimePrecision(ps[0])}}
	}},
}

func (l *lType) params(t *rapid.T) []int32 {
	switch l.Params {
	case 1:
		return []int32{[]int32{1, 2, 10, 255, 65535, 2147483647}[pick(t, 6)]}
	case 2:
		p := int32(1 + pick(t, 38))
		return []int32{p, int32(pick(t, int(p)+1))}
	case -1:
		return []int32{int32(pick(t, 10))}
	}
	return nil
}

func joinParams(ps []int32) string {
	var s []string
	for _, p := range ps {
		s = append(s, fmt.Sprint(p))
	}
	return strings.Join(s, ",")
}

// lEntry is how a dialect names a type.
type lEntry struct {
	L      *lType
	Key    string // in the file
	Local  string
	Column bool
}

var lNames = []string{"INTEGER", "BIGINT", "DOUBLE PRECISION", "TEXT", "i32", "i64", "string", "str", "decimal", "dec", "VARCHAR", "varchar", "CHAR", "TIMESTAMP(6)", "TIMESTAMP(6) WITH TIME ZONE", "INTERVAL YEAR TO MONTH",
	"NUMERIC", "NUMERIC(10)", "X", "x", "Int", "int", "BIT VARYING", "date", "time", "ts", "timestamp", "Nullable(Int8)", "LowCardinality(String)", "uuid", "bool", "BOOL", "fp64", "REAL", "BLOB", "precision_timestamp", "pts", "a.b", "T[]", "T(1,2)"}

// otherL are types no dialect can name.
func otherL(t *rapid.T) types.Type {
	i := &types.Int32Type{Nullability: types.NullabilityRequired}
	return []types.Type{
		&types.ListType{Type: i, Nullability: 2}, &types.MapType{Key: i, Value: i, Nullability: 2}, &types.StructType{Types: []types.Type{i}, Nullability: 2},
		types.NewIntervalCompoundType().WithPrecision(3).WithNullability(2), &types.FuncType{ParameterTypes: []types.Type{i}, ReturnType: i, Nullability: 2},
	}[pick(t, 5)]
}

// badParams are parameter lists which no type has, or not this one.
func badParams(t *rapid.T, l *lType) string {
	all := []string{"", "x", "-1", "+1", "1,2,3", "1,2,3,4", "1;2", ",", "1,", ",1", "2147483648", "99999999999999999999", "1.5", "0x10", "-1,2", "1,-2", "+3,+1"}
	switch l.Params {
	case 0:
		all = append(all, "1", "5", "1,2")
	case 1:
		all = append(all, "1,2")
	case 2:
		all = append(all, "5", "38")
	case -1:
		all = append(all, "10", "38", "1,2", "255")
	}
	return all[pick(t, len(all))]
}

// vandal sets everything that can be set of a type to something else.
func vandal(ty types.Type) {
	r := reflect.ValueOf(ty)
	if r.Kind() != reflect.Pointer {
		return
	}
	var each func(v reflect.Value)
	each = func(v reflect.Value) {
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			switch {
			case f.Kind() == reflect.Struct:
				each(f)
			case !f.CanSet():
			case f.CanInt():
				f.SetInt(1)
			case f.CanUint():
				f.SetUint(77)
			}
		}
	}
	each(r.Elem())
}

func TestD02(t *testing.T) {
	p := start(t, "D02", "one or two dialects each naming 1 to 23 of the types (by short or long name, with local names that contain parameters or are names of other types), and 10 to 40 translations both ways over either: "+
		"all types with parameters and nullability, unsupported ones, well-formed and malformed names; the answers and the map of supported types are then written over; non-trivial = both directions and a refusal seen")
	defer p.finish()

	p.sub("translations", 8000, func(c *C) {
		t := c.T
		type side struct {
			es  []*lEntry
			reg functions.LocalTypeRegistry
		}
		var sides []*side
		var texts []string
		for n := rapid.IntRange(1, 2).Draw(t, "dialects"); n > 0; n-- {
			s := &side{}
			names := rapid.Permutation(lNames).Draw(t, "names")
			d := &dDialect{Deps: [][2]string{{"a", "extension:verif:expr"}}, Entries: []*dEntry{{Kind: "scalar", Alias: "a", Name: "add", M: &dMap{NoLocal: true}, Kernels: []string{"i32_i32"}}}}
			some := []int{15, 50, 100}[pick(t, 3)]
			for i := range lTypes {
				if !pct(t, some) && !(i == len(lTypes)-1 && len(s.es) == 0) {
					continue
				}
				e := &lEntry{L: &lTypes[i], Key: lTypes[i].Short, Local: names[i], Column: pct(t, 70)}
				if rapid.Bool().Draw(t, "long name") {
					e.Key = e.L.Long
				}
				s.es = append(s.es, e)
			}
			if len(s.es) > 1 && pct(t, 15) {
				s.es[pick(t, len(s.es))].Local = s.es[pick(t, len(s.es))].Local
			}
			for _, e := range rapid.Permutation(s.es).Draw(t, "order") {
				d.Types = append(d.Types, [2]any{e.Key, &dMap{Local: e.Local, Column: e.Column}})
			}
			text := d.doc(t)
			texts = append(texts, text)
			dia, err := functions.LoadDialect("d", strings.NewReader(text))
			c.Check(err == nil, "refused", "refused: %v\n%s", err, text)
			switch pick(t, 3) {
			case 0:
				s.reg, err = dia.GetLocalTypeRegistry()
			case 1:
				s.reg, err = dia.LocalizeTypeRegistry(functions.NewTypeRegistry())
			case 2:
				if _, err = dia.LocalizeFunctionRegistry(functions.NewFunctionRegistry(eCol())); err == nil {
					s.reg, err = dia.GetLocalTypeRegistry()
				}
			}
			c.Check(err == nil, "refused", "refused: %v\n%s", err, text)
			sides = append(sides, s)
		}
		var log []string
		to, from, no := false, false, false
		global := functions.NewTypeRegistry()
		forms := func(l *lType, n types.Nullability, ps []int32) string {
			s := l.Short
			if rapid.Bool().Draw(t, "long") {
				s = l.Long
			}
			if n == types.NullabilityNullable {
				s += "?"
			}
			if len(ps) > 0 && !(l.Params == -1 && ps[0] == 0 && rapid.Bool().Draw(t, "bare")) {
				s += "<" + joinParams(ps) + ">"
			}
			return s
		}
		step := func() {
			s := sides[pick(t, len(sides))]
			l := &lTypes[pick(t, len(lTypes))]
			if len(s.es) > 0 && pct(t, 60) {
				l = s.es[pick(t, len(s.es))].L
			}
			var e *lEntry
			for _, x := range s.es {
				if x.L == l {
					e = x
				}
			}
			ps := l.params(t)
			null := []types.Nullability{types.NullabilityRequired, types.NullabilityNullable}[pick(t, 2)]
			ty := l.Build(null, ps)
			same := func(got, want types.Type, sig, what string) {
				c.Check(!isNil(got) && got.Equals(want) && want.Equals(got) && reflect.DeepEqual(got, want), sig, "%s gives %v, want %v\nafter %s", what, got, want, strings.Join(log, "; "))
				vandal(got)
			}
			refused := func(got types.Type, err error, sig, what string) {
				no = true
				c.Check(err != nil, sig, "%s gives %v\nafter %s", what, got, strings.Join(log, "; "))
			}
			switch k := pick(t, 9); k {
			case 0, 1: // there, and back
				name, err := s.reg.GetLocalTypeFromSubstraitType(ty)
				log = append(log, fmt.Sprintf("%v named", ty))
				if e == nil {
					no = true
					c.Check(err != nil, "unsupported_named", "%v is not supported but named %q", ty, name)
					return
				}
				to = true
				want := e.Local
				if l.Params != 0 {
					want += "(" + joinParams(ps) + ")"
				}
				c.Check(err == nil && name == want, "local_name", "%v is named %q, %v, want %q\nafter %s", ty, name, err, want, strings.Join(log, "; "))
				if shared(s.es, e) {
					return
				}
				back, err := s.reg.GetSubstraitTypeFromLocalType(name)
				c.Check(err == nil, "not_back", "%v is named %q which is refused: %v", ty, name, err)
				same(back, l.Build(types.NullabilityRequired, ps), "back", fmt.Sprintf("%v named %q", ty, name))
				from = true
			case 2: // a local name
				if e == nil || shared(s.es, e) {
					return
				}
				name := e.Local
				if len(ps) > 0 {
					name += "(" + joinParams(ps) + ")"
				}
				log = append(log, fmt.Sprintf("read %q", name))
				got, err := s.reg.GetSubstraitTypeFromLocalType(name)
				c.Check(err == nil, "local_refused", "%q is refused: %v", name, err)
				same(got, l.Build(types.NullabilityRequired, ps), "from_local", fmt.Sprintf("%q", name))
				from = true
			case 3: // a Substrait name
				str := forms(l, null, ps)
				log = append(log, fmt.Sprintf("parse %q", str))
				got, err := s.reg.GetTypeFromTypeString(str)
				if e == nil {
					refused(got, err, "unsupported_parsed", str)
				} else {
					c.Check(err == nil, "parse_refused", "%q is refused: %v", str, err)
					same(got, ty, "parse", fmt.Sprintf("%q", str))
				}
			case 4: // with any registry
				str := forms(l, null, ps)
				log = append(log, fmt.Sprintf("parse %q globally", str))
				got, err := global.GetTypeFromTypeString(str)
				c.Check(err == nil, "global_refused", "%q is refused: %v", str, err)
				same(got, ty, "global", fmt.Sprintf("%q", str))
			case 5: // columns
				got := s.reg.IsTypeSupportedInTables(ty)
				c.Check(got == (e != nil && e.Column), "columns", "%v in tables: %v, entry %+v", ty, got, e)
			case 6: // types no dialect has
				ty := otherL(t)
				log = append(log, fmt.Sprintf("%v named", ty))
				name, err := s.reg.GetLocalTypeFromSubstraitType(ty)
				no = true
				c.Check(err != nil, "other_named", "%v is named %q", ty, name)
				c.Check(!s.reg.IsTypeSupportedInTables(ty), "other_columns", "%v is supported in tables", ty)
			case 7: // malformed names
				bad := badParams(t, l)
				q := ""
				if null == types.NullabilityNullable {
					q = "?"
				}
				str := l.Long + q + "<" + bad + ">"
				switch pick(t, 8) {
				case 0:
					str = l.Long + q + "<1"
				case 1:
					str = l.Long + "??"
				case 2:
					str = "no_such_type" + q
				case 3:
					str = []string{"", "?", "<>", "<1>", "?<1>", " ", "I32", "list<i32>", "i32 ", " i32"}[pick(t, 10)]
				}
				log = append(log, fmt.Sprintf("parse %q", str))
				got, err := s.reg.GetTypeFromTypeString(str)
				refused(got, err, "malformed", fmt.Sprintf("%q", str))
				got, err = global.GetTypeFromTypeString(str)
				refused(got, err, "malformed_global", fmt.Sprintf("%q", str))
				if e == nil || shared(s.es, e) {
					return
				}
				loc := e.Local + "(" + bad + ")"
				if slices.ContainsFunc(s.es, func(x *lEntry) bool { return strings.HasPrefix(loc, x.Local+"(") && x != e || x.Local == loc }) {
					return // means something else
				}
				got, err = s.reg.GetSubstraitTypeFromLocalType(loc)
				refused(got, err, "malformed_local", fmt.Sprintf("%q", loc))
				// a name of another dialect, or of Substrait
				loc = lNames[pick(t, len(lNames))]
				if !slices.ContainsFunc(s.es, func(x *lEntry) bool { return strings.HasPrefix(loc, x.Local) }) {
					got, err = s.reg.GetSubstraitTypeFromLocalType(loc)
					refused(got, err, "foreign_local", fmt.Sprintf("%q", loc))
				}
			case 8: // what is supported
				m := s.reg.GetSupportedTypes()
				want := map[string]bool{}
				for _, e := range s.es {
					want[e.Local] = true
				}
				c.Check(slices.Equal(slices.Sorted(maps.Keys(m)), slices.Sorted(maps.Keys(want))), "supported", "supports %v, want %v", slices.Sorted(maps.Keys(m)), slices.Sorted(maps.Keys(want)))
				for _, e := range s.es {
					got := m[e.Local]
					ok := func(x *lEntry) bool { return x.Local == e.Local && got.ShortString() == x.L.Short }
					c.Check(slices.ContainsFunc(s.es, ok), "supported_type", "%q is %v, want %s", e.Local, got, e.L.Short)
				}
				log = append(log, "supported types written over")
				for k := range m {
					delete(m, k)
				}
				m["INTEGER"] = &types.DateType{}
			}
		}
		for n := rapid.IntRange(10, 40).Draw(t, "steps"); n > 0; n-- {
			c.NoPanic("translation", step)
		}
		c.Case(to && from && no, "%s\n%s", strings.Join(texts, "\n"), strings.Join(log, "; "))
		c.Label(fmt.Sprintf("%d dialects", len(sides)))
	})

	// a name shared by several types means the same one whenever the dialect is loaded
	p.sub("shared_names", 400, func(c *C) {
		t := c.T
		d := &dDialect{Deps: [][2]string{{"a", "extension:verif:expr"}}, Entries: []*dEntry{{Kind: "scalar", Alias: "a", Name: "add", M: &dMap{NoLocal: true}, Kernels: []string{"i32_i32"}}}}
		names := []string{"A", "B", "C"}
		for i := range lTypes {
			if pct(t, 50) {
				d.Types = append(d.Types, [2]any{lTypes[i].Short, &dMap{Local: names[pick(t, 3)], Column: true}})
			}
		}
		if len(d.Types) < 2 {
			return
		}
		text := d.doc(t)
		c.Case(true, "%s", text)
		var first string
		for i := 0; i < 6; i++ {
			dia, err := functions.LoadDialect("d", strings.NewReader(text))
			c.Check(err == nil, "refused", "refused: %v", err)
			reg, err := dia.GetLocalTypeRegistry()
			c.Check(err == nil, "refused", "refused: %v", err)
			m := reg.GetSupportedTypes()
			s := ""
			for _, n := range names {
				if ty := m[n]; ty != nil {
					s += n + "=" + ty.ShortString() + " "
				}
				for _, ps := range []string{"", "(3)", "(3,1)"} {
					ty, err := reg.GetSubstraitTypeFromLocalType(n + ps)
					s += fmt.Sprint(n, ps, "=", ty, err, " ")
				}
			}
			if i == 0 {
				first = s
			}
			c.Check(s == first, "order", "loaded again, the dialect translates differently:\n%s\n%s", first, s)
		}
	})
}

// shared reports whether another type has the local name, or a name that reads the same.
func shared(es []*lEntry, e *lEntry) bool {
	return slices.ContainsFunc(es, func(x *lEntry) bool {
		return x != e && (x.Local == e.Local || strings.HasPrefix(x.Local, e.Local+"(") && e.L.Params != 0)
	})
}
