package pbt

import (
	"fmt"
	"io"
	"maps"
	"slices"
	"sort"
	"strings"
	"testing"

	"github.com/creasty/defaults"
	"github.com/goccy/go-yaml"
	"github.com/substrait-io/substrait"
	"github.com/substrait-io/substrait-go/v8/extensions"
	"github.com/substrait-io/substrait-go/v8/types"
	"pgregory.net/rapid"
)

// checkLoaded compares everything a collection says with the files loaded into it.
func checkLoaded(c *C, col *extensions.Collection, files []*XFile) {
	want := map[string]map[extensions.FunctionID]func(v xvariant){"scalar": {}, "aggregate": {}, "window": {}}
	for _, f := range files {
		c.Check(col.URNLoaded(f.URN), "urn_loaded", "URN %s is not loaded", f.URN)
		c.Check(sameMeta(col.GetFileMetadata(f.URN), f.Meta), "file_metadata", "metadata of %s is %v, want %s", f.URN, col.GetFileMetadata(f.URN), yAny(f.Meta))
		for _, ty := range f.Types {
			g, ok := col.GetType(extensions.TypeID{URN: f.URN, Name: ty.Name})
			c.Check(ok && g.Name == ty.Name, "type", "type %s of %s: %v, %v", ty.Name, f.URN, g, ok)
			c.Check(g.Variadic == ty.Var && sameMeta(g.Metadata, ty.Meta), "type_fields", "type %s is %+v, want %+v", ty.Name, g, ty)
			if ty.Struct == nil {
				c.Check(g.Structure == nil, "type_structure", "type %s has structure %v, want none", ty.Name, g.Structure)
			} else {
				c.Check(fmt.Sprint(g.Structure) == yAny(ty.Struct), "type_structure", "type %s has structure %v, want %v", ty.Name, g.Structure, yAny(ty.Struct))
			}
			c.Check(fmt.Sprintf("%+v", g.Parameters) == fmt.Sprintf("%+v", ty.Params), "type_parameters", "type %s has parameters %+v, want %+v", ty.Name, g.Parameters, ty.Params)
		}
		for _, tv := range f.Vars {
			g, ok := col.GetTypeVariation(extensions.TypeVariationID{URN: f.URN, Name: tv.Name})
			c.Check(ok && g == (extensions.TypeVariation{Name: tv.Name, Parent: tv.Parent, Description: tv.Desc, Functions: extensions.TypeVariationFunctions(tv.Funcs)}),
				"type_variation", "type variation %s of %s: %+v, %v, want %+v", tv.Name, f.URN, g, ok, tv)
		}
		for _, fn := range f.Funcs {
			for _, m := range fn.Impls {
				f, fn, m := f, fn, m
				id := extensions.FunctionID{URN: f.URN, Name: m.compound(fn.Name)}
				want[fn.Kind][id] = func(v xvariant) { m.checkVariant(c, f, fn, v, false) }
			}
		}
	}
	nagg := 0
	for _, f := range files {
		for _, fn := range f.Funcs {
			if fn.Kind != "aggregate" {
				continue
			}
			for _, m := range fn.Impls {
				f, fn, m := f, fn, m
				id := extensions.FunctionID{URN: f.URN, Name: m.compound(fn.Name)}
				if _, ok := want["window"][id]; !ok {
					nagg++
					want["window"][id] = func(v xvariant) { m.checkVariant(c, f, fn, v, true) }
				}
			}
		}
	}
	get := map[string]func(extensions.FunctionID) (xvariant, bool){
		"scalar":    func(id extensions.FunctionID) (xvariant, bool) { v, ok := col.GetScalarFunc(id); return v, ok },
		"aggregate": func(id extensions.FunctionID) (xvariant, bool) { v, ok := col.GetAggregateFunc(id); return v, ok },
		"window":    func(id extensions.FunctionID) (xvariant, bool) { v, ok := col.GetWindowFunc(id); return v, ok },
	}
	all := map[string][]xvariant{}
	for _, v := range col.GetAllScalarFunctions() {
		all["scalar"] = append(all["scalar"], v)
	}
	for _, v := range col.GetAllAggregateFunctions() {
		all["aggregate"] = append(all["aggregate"], v)
	}
	for _, v := range col.GetAllWindowFunctions() {
		all["window"] = append(all["window"], v)
	}
	kinds := []string{"scalar", "aggregate", "window"}
	for _, k := range kinds {
		for id, f := range want[k] {
			v, ok := get[k](id)
			c.Check(ok, "found", "%s function %v is not found", k, id)
			f(v)
		}
		for _, v := range all[k] {
			f := want[k][v.ID()]
			c.Check(f != nil, "invented", "%s function %v is not in any file", k, v.ID())
			f(v)
		}
		c.Check(len(all[k]) == len(want[k]), "all_functions", "%d %s functions listed, want %d", len(all[k]), k, len(want[k]))
		// not found: under another kind, another URN, or a changed name
		for _, k2 := range kinds {
			for id := range want[k2] {
				for _, other := range files {
					id2 := extensions.FunctionID{URN: other.URN, Name: id.Name}
					_, ok := get[k](id2)
					c.Check(ok == (want[k][id2] != nil), "found_elsewhere", "%s function %v found: %v", k, id2, ok)
				}
				for _, n := range []string{id.Name + "_i32", strings.ToUpper(id.Name) + "x", strings.TrimSuffix(id.Name, ":") + ":zzz"} {
					_, ok := get[k](extensions.FunctionID{URN: id.URN, Name: n})
					c.Check(!ok || want[k][extensions.FunctionID{URN: id.URN, Name: n}] != nil, "found_undefined", "%s function %s is found", k, n)
				}
			}
		}
	}
	// nor under a name that differs a little
	simple := map[extensions.FunctionID]bool{}
	for _, f := range files {
		for _, fn := range f.Funcs {
			simple[extensions.FunctionID{URN: f.URN, Name: fn.Name}] = true
		}
	}
	for _, k := range kinds {
		for _, k2 := range kinds {
			var ids []extensions.FunctionID
			for id := range want[k2] {
				ids = append(ids, id)
			}
			sort.Slice(ids, func(i, j int) bool { return ids[i].URN+ids[i].Name < ids[j].URN+ids[j].Name })
			for range min(2, len(ids)) {
				near := ids[pick(c.T, len(ids))]
				id := near
				if pct(c.T, 75) {
					near.Name = nearText(c.T, id.Name)
				} else {
					near.URN = nearText(c.T, id.URN)
				}
				_, ok := get[k](near)
				c.Check(!ok || want[k][near] != nil || simple[near], "found_near", "%s function %q is found", k, near)
			}
		}
	}
	for _, f := range files {
		tys, tvs := map[string]bool{}, map[string]bool{}
		for _, ty := range f.Types {
			tys[ty.Name] = true
		}
		for _, tv := range f.Vars {
			tvs[tv.Name] = true
		}
		for _, ns := range []map[string]bool{tys, tvs, {"nothing": true}} {
			for _, n := range slices.Sorted(maps.Keys(ns)) {
				for _, n := range []string{n, nearText(c.T, n)} {
					_, ok := col.GetType(extensions.TypeID{URN: f.URN, Name: n})
					c.Check(ok == tys[n], "type_near", "type %q is found: %v", n, ok)
					_, ok = col.GetTypeVariation(extensions.TypeVariationID{URN: f.URN, Name: n})
					c.Check(ok == tvs[n], "variation_near", "type variation %q is found: %v", n, ok)
				}
			}
		}
	}
	// simple names
	for _, f := range files {
		n := map[string]map[string]int{}
		for _, fn := range f.Funcs {
			if n[fn.Name] == nil {
				n[fn.Name] = map[string]int{}
			}
			n[fn.Name][fn.Kind] += len(fn.Impls)
		}
		for name, by := range n {
			total := by["scalar"] + by["aggregate"] + by["window"]
			id := extensions.FunctionID{URN: f.URN, Name: name}
			for _, k := range kinds {
				v, ok := get[k](id)
				mine := by[k]
				if k == "window" {
					mine += by["aggregate"]
				}
				if ok {
					c.Check(mine == 1, "simple_ambiguous", "%s function %q of %s is found by simple name as %s; %d variants have it", k, name, f.URN, v.CompoundName(), mine)
					c.Check(v.Name() == name && v.URN() == f.URN, "simple_wrong", "%s function %q of %s is found by simple name as %v", k, name, f.URN, v.ID())
				} else {
					c.Check(!(total == 1 && mine == 1), "simple_name", "%s function %q of %s is not found by its simple name, which is unambiguous", k, name, f.URN)
				}
			}
		}
		for _, name := range []string{"add", "sub", "nothing", ""} {
			if n[name] != nil {
				continue
			}
			for _, k := range kinds {
				_, ok := get[k](extensions.FunctionID{URN: f.URN, Name: name})
				c.Check(!ok, "simple_undefined", "%s function %q is found in %s", k, name, f.URN)
			}
		}
		_, ok := col.GetType(extensions.TypeID{URN: f.URN, Name: "nothing"})
		_, ok2 := col.GetTypeVariation(extensions.TypeVariationID{URN: f.URN, Name: "nothing"})
		c.Check(!ok && !ok2, "type_undefined", "an undefined type is found")
	}
	if nagg > 0 {
		c.Label("aggregate_as_window")
	}
}

func (f *XFile) nImpls() (n int) {
	for _, fn := range f.Funcs {
		n += len(fn.Impls)
	}
	return
}

func TestX02(t *testing.T) {
	p := start(t, "X02", "one to three generated extension files (types, variations, functions of all kinds with every attribute, all argument kinds, dependencies, metadata) in random YAML layout and load order, "+
		"compared definition by definition, plus the shipped files decoded generically; non-trivial = at least two function variants")
	defer p.finish()

	p.sub("files", 1500, func(c *C) {
		n := rapid.IntRange(1, 3).Draw(c.T, "nfiles")
		col := &extensions.Collection{}
		var files []*XFile
		var urns, texts []string
		impls := 0
		for i := 0; i < n; i++ {
			f := genXFile(c.T, fmt.Sprintf("extension:verif%d:lib", i), urns, 4)
			text := yText(f.doc(c.T), yStyle(c.T))
			files = append(files, f)
			urns = append(urns, f.URN)
			texts = append(texts, text)
			impls += f.nImpls()
		}
		c.Case(impls >= 2, "%s", strings.Join(texts, "\n"))
		for i := range files {
			var err error
			c.NoPanic("Load", func() { err = col.Load(strings.NewReader(texts[i])) })
			c.Check(err == nil, "load_error", "file %d does not load: %v", i, err)
			if i+1 < len(files) {
				checkLoaded(c, col, files[:i+1])
			}
		}
		checkLoaded(c, col, files)
		checkLoaded(c, col, files) // whatever was looked up before
	})

	// the definitions by themselves, without a collection
	p.sub("definitions", 800, func(c *C) {
		f := genXFile(c.T, "extension:verif:lib", nil, 4)
		text := yText(f.doc(c.T), yStyle(c.T))
		c.Case(f.nImpls() >= 2, "%s", text)
		var file extensions.SimpleExtensionFile
		err := yaml.NewDecoder(strings.NewReader(text)).Decode(&file)
		c.Check(err == nil, "decode_error", "%v", err)
		c.Check(file.Urn == f.URN, "urn", "URN %q, want %q", file.Urn, f.URN)
		at := map[string]int{}
		for _, fn := range f.Funcs {
			i := at[fn.Kind]
			at[fn.Kind]++
			var got, resolved []xvariant
			var rs []extensions.FunctionVariant
			switch fn.Kind {
			case "scalar":
				d := file.ScalarFunctions[i]
				c.Check(defaults.Set(&d) == nil, "defaults", "defaults")
				for _, v := range d.GetVariants(f.URN) {
					got = append(got, v)
				}
				rs = d.ResolveURN(f.URN)
			case "aggregate":
				d := file.AggregateFunctions[i]
				c.Check(defaults.Set(&d) == nil, "defaults", "defaults")
				for _, v := range d.GetVariants(f.URN) {
					got = append(got, v)
				}
				rs = d.ResolveURN(f.URN)
			default:
				d := file.WindowFunctions[i]
				c.Check(defaults.Set(&d) == nil, "defaults", "defaults")
				for _, v := range d.GetVariants(f.URN) {
					got = append(got, v)
				}
				rs = d.ResolveURN(f.URN)
			}
			for _, v := range rs {
				resolved = append(resolved, v.(xvariant))
			}
			c.Check(len(got) == len(fn.Impls) && len(resolved) == len(fn.Impls), "variants", "%s %s has %d implementations, GetVariants gives %d, ResolveURN %d", fn.Kind, fn.Name, len(fn.Impls), len(got), len(resolved))
			for k, m := range fn.Impls {
				m.checkVariant(c, f, fn, got[k], false)
				m.checkVariant(c, f, fn, resolved[k], false)
			}
		}
	})

	// variants made without a file
	p.sub("made", 1500, func(c *C) {
		var names, want []string
		for i := rapid.IntRange(0, 4).Draw(c.T, "nargs"); i > 0; i-- {
			k := rapid.SampledFrom([][2]string{{"i8", "i8"}, {"i64", "i64"}, {"str", "string"}, {"bool", "boolean"}, {"fp32", "fp32"}, {"vbin", "binary"}, {"date", "date"}, {"iyear", "interval_year"}, {"ts", "timestamp"}, {"tstz", "timestamp_tz"}, {"uuid", "uuid"}}).Draw(c.T, "arg")
			names, want = append(names, k[0]), append(want, k[1])
		}
		simple := rapid.SampledFrom([]string{"f", "my_func", "a.b", "Sum"}).Draw(c.T, "fname")
		id := extensions.FunctionID{URN: rapid.SampledFrom([]string{"extension:a:b", "extension:x.y:z"}).Draw(c.T, "urn"), Name: simple}
		if len(names) > 0 || rapid.Bool().Draw(c.T, "colon") {
			id.Name += ":" + strings.Join(names, "_")
		}
		var vb *extensions.VariadicBehavior
		if rapid.Bool().Draw(c.T, "variadic") {
			vb = &extensions.VariadicBehavior{Min: rapid.IntRange(0, 3).Draw(c.T, "min"), Max: rapid.IntRange(0, 5).Draw(c.T, "max"), ParameterConsistency: extensions.ConsistentParams}
		}
		sess, det, ord := rapid.Bool().Draw(c.T, "sess"), rapid.Bool().Draw(c.T, "det"), rapid.Bool().Draw(c.T, "ord")
		max := uint(rapid.IntRange(0, 7).Draw(c.T, "maxset"))
		dec := rapid.SampledFrom([]extensions.DecomposeType{"", extensions.DecomposeNone, extensions.DecomposeOne, extensions.DecomposeMany}).Draw(c.T, "dec")
		inter := rapid.SampledFrom([]string{"", "i64", "struct<i64, fp64?>", "list<string>", "not a type", "decimal<38,2"}).Draw(c.T, "inter")
		win := rapid.SampledFrom([]extensions.WindowType{"", extensions.PartitionWindow, extensions.StreamingWindow}).Draw(c.T, "win")
		kind := rapid.SampledFrom([]string{"scalar", "aggregate", "window"}).Draw(c.T, "kind")
		plain := rapid.IntRange(0, 3).Draw(c.T, "plain") == 0
		c.Case(!plain, "%s %v %+v %v %v %v %d %q %q %q", kind, id, vb, sess, det, ord, max, dec, inter, win)
		wantPanic := !plain && kind != "scalar" && dec != "" && dec != extensions.DecomposeNone && (inter == "" || inter == "not a type" || inter == "decimal<38,2")
		var v xvariant
		panicked := func() (p bool) {
			defer func() { p = recover() != nil }()
			switch kind {
			case "scalar":
				if plain {
					v = extensions.NewScalarFuncVariant(id)
				} else {
					v = extensions.NewScalarFuncVariantWithProps(id, vb, sess, det)
				}
			case "aggregate":
				if plain {
					v = extensions.NewAggFuncVariant(id)
				} else {
					v = extensions.NewAggFuncVariantOpts(id, extensions.AggVariantOptions{Variadic: vb, SessionDependant: sess, Deterministic: det, Ordered: ord, MaxSet: max, Decomposable: dec, IntermediateOutputType: inter})
				}
			default:
				if plain {
					v = extensions.NewWindowFuncVariant(id)
				} else {
					v = extensions.NewWindowFuncVariantOpts(id, extensions.WindowVariantOpts{Variadic: vb, SessionDependant: sess, Deterministic: det, Ordered: ord, MaxSet: max, Decomposable: dec, IntermediateOutputType: inter, WindowType: win})
				}
			}
			return false
		}()
		c.Check(panicked == wantPanic, "made_refused", "making %s %v with decomposable %q and intermediate %q panics: %v, want %v", kind, id, dec, inter, panicked, wantPanic)
		if panicked {
			return
		}
		if plain {
			vb, sess, det, ord, max, dec, inter, win = nil, false, false, false, 0, "", "", ""
		}
		c.Check(v.ID() == id && v.CompoundName() == id.Name && v.URN() == id.URN && v.Name() == simple, "made_id", "made with %v: %v %q %q %q", id, v.ID(), v.CompoundName(), v.URN(), v.Name())
		c.Check(v.Variadic() == vb, "made_variadic", "variadic %v, want %v", v.Variadic(), vb)
		c.Check(v.SessionDependent() == sess && v.Deterministic() == det, "made_flags", "session %v deterministic %v, want %v %v", v.SessionDependent(), v.Deterministic(), sess, det)
		c.Check(len(v.Args()) == len(want), "made_args", "%v has arguments %v, want %v", id, v.Args(), want)
		for i, a := range v.Args() {
			va, ok := a.(extensions.ValueArg)
			c.Check(ok && va.Value.ValueType.String() == want[i], "made_arg", "argument %d of %v is %v", i, id, a)
		}
		if ag, ok := v.(xaggvariant); ok {
			wantDec := dec
			if dec == "" {
				wantDec = extensions.DecomposeNone
			}
			c.Check(ag.Decomposability() == wantDec && ag.Ordered() == ord && ag.MaxSet() == int(max), "made_agg", "decomposable %v ordered %v max set %d, want %v %v %d", ag.Decomposability(), ag.Ordered(), ag.MaxSet(), wantDec, ord, max)
			it, err := ag.Intermediate()
			if wantDec == extensions.DecomposeNone {
				c.Check(err != nil || it.String() == inter, "made_intermediate", "intermediate %v", it)
			} else {
				c.Check(err == nil && it.String() == inter, "made_intermediate", "intermediate %v (%v), want %q", it, err, inter)
			}
		} else {
			c.Check(kind == "scalar", "made_kind", "%T", v)
		}
		if w, ok := v.(*extensions.WindowFunctionVariant); ok {
			if win == "" {
				win = extensions.PartitionWindow
			}
			c.Check(w.WindowType() == win, "made_window", "window type %v, want %v", w.WindowType(), win)
		}
	})

	p.sub("return", 2500, func(c *C) {
		f := genXFile(c.T, "extension:verif:lib", nil, 2)
		text := yText(f.doc(c.T), yStyle(c.T))
		col := &extensions.Collection{}
		err := col.Load(strings.NewReader(text))
		c.Case(f.nImpls() > 0, "%s", text)
		c.Check(err == nil, "load_error", "does not load: %v", err)
		for _, fn := range f.Funcs {
			for _, m := range fn.Impls {
				isType := false
				for _, a := range m.Args {
					isType = isType || a.IsType
				}
				if isType {
					continue
				}
				id := extensions.FunctionID{URN: f.URN, Name: m.compound(fn.Name)}
				var vs []extensions.FunctionVariant
				switch fn.Kind {
				case "scalar":
					v, _ := col.GetScalarFunc(id)
					vs = append(vs, v)
				case "aggregate":
					v, _ := col.GetAggregateFunc(id)
					w, _ := col.GetWindowFunc(id)
					vs = append(vs, v)
					explicit := false
					for _, g := range f.Funcs {
						for _, x := range g.Impls {
							explicit = explicit || g.Kind == "window" && g.Name == fn.Name && x.compound(g.Name) == id.Name
						}
					}
					if !explicit {
						vs = append(vs, w)
					}
				case "window":
					v, _ := col.GetWindowFunc(id)
					vs = append(vs, v)
				}
				s := m.sig(fn.Kind)
				args := s.genCall(c.T)
				ok, _ := s.fits(args)
				if !ok {
					continue
				}
				reg := extensions.NewSet()
				for _, v := range vs {
					rt, err := v.ResolveType(buildActs(args), reg)
					want, why := s.result(args, func(n string) uint32 { return reg.GetTypeAnchor(extensions.TypeID{URN: f.URN, Name: n}) })
					switch why {
					case "overflow", "bad precision":
					case "":
						c.Check(err == nil && protoEq(types.TypeToProto(rt), want.proto()), "return", "%v of %s returns %v (%v), want %s", id, actsText(args), rt, err, want)
						c.Label("resolved")
					default:
						c.Check(err != nil, "return_undefined", "%v of %s returns %v although its return type has no value (%s)", id, actsText(args), rt, why)
					}
				}
			}
		}
	})

	p.sub("shipped", 1, func(c *C) { shippedFiles(c) })
}

// shippedFiles compares the default collection with a generic decoding of the files shipped with the specification.
func shippedFiles(c *C) {
	fsys := substrait.GetSubstraitExtensionsFS()
	ents, err := fsys.ReadDir("extensions")
	c.Check(err == nil && len(ents) > 10, "no_files", "the specification's extension files: %v", err)
	var names []string
	for _, e := range ents {
		names = append(names, "extensions/"+e.Name())
	}
	col, err := extensions.GetDefaultCollection()
	c.Check(err == nil, "default", "default collection: %v", err)
	str := func(v any) string {
		if v == nil {
			return ""
		}
		return fmt.Sprint(v)
	}
	list := func(v any) []any { l, _ := v.([]any); return l }
	total := map[string]int{}
	for _, n := range names {
		if strings.HasSuffix(n, "/unknown.yaml") {
			continue
		}
		b, err := fsys.ReadFile(n)
		c.Check(err == nil, "read", "%v", err)
		var doc map[string]any
		c.Check(yaml.Unmarshal(b, &doc) == nil, "decode", "%s does not decode", n)
		urn := str(doc["urn"])
		c.Check(col.URNLoaded(urn), "shipped_urn", "%s is not loaded", urn)
		for _, ty := range list(doc["types"]) {
			tm := ty.(map[string]any)
			g, ok := col.GetType(extensions.TypeID{URN: urn, Name: str(tm["name"])})
			c.Check(ok && str(g.Structure) == str(tm["structure"]), "shipped_type", "type %v: %v", tm, g)
			total["type"]++
		}
		for _, tv := range list(doc["type_variations"]) {
			tm := tv.(map[string]any)
			g, ok := col.GetTypeVariation(extensions.TypeVariationID{URN: urn, Name: str(tm["name"])})
			c.Check(ok && g.Parent == str(tm["parent"]) && string(g.Functions) == str(tm["functions"]), "shipped_variation", "variation %v: %v", tm, g)
			total["variation"]++
		}
		byName := map[string]int{}
		for _, kind := range []string{"scalar", "aggregate", "window"} {
			for _, fn := range list(doc[kind+"_functions"]) {
				fm := fn.(map[string]any)
				byName[str(fm["name"])] += len(list(fm["impls"]))
			}
		}
		for _, kind := range []string{"scalar", "aggregate", "window"} {
			for _, fn := range list(doc[kind+"_functions"]) {
				fm := fn.(map[string]any)
				name := str(fm["name"])
				for _, im := range list(fm["impls"]) {
					m := im.(map[string]any)
					var ps []string
					for _, a := range list(m["args"]) {
						am := a.(map[string]any)
						switch {
						case am["options"] != nil:
							ps = append(ps, "req")
						case am["value"] != nil:
							d, ok := refParsePD(str(am["value"]))
							c.Check(ok, "shipped_arg_text", "%s: argument type %v", name, am["value"])
							ps = append(ps, d.short())
						default:
							ps = append(ps, "type")
						}
					}
					id := extensions.FunctionID{URN: urn, Name: name + ":" + strings.Join(ps, "_")}
					check := func(v xvariant, ok bool, window string) {
						c.Check(ok, "shipped_found", "%s function %v is not found", kind, id)
						total[kind]++
						c.Check(v.ID() == id && v.Name() == name && v.Description() == str(fm["description"]), "shipped_name", "%v: %v %q %q", id, v.ID(), v.Name(), v.Description())
						// two declarations may have the same compound name; the last one holds
						c.Check(len(v.Args()) == len(ps), "shipped_args", "%v has %d arguments", id, len(v.Args()))
						if byName[name] == 1 {
							c.Check(string(v.Nullability()) == orElse(str(m["nullability"]), "MIRROR"), "shipped_nullability", "%v: %v", id, v.Nullability())
							c.Check(v.Deterministic() == (str(m["deterministic"]) != "false") && v.SessionDependent() == (str(m["sessionDependent"]) == "true"), "shipped_flags", "%v: deterministic %v session dependent %v", id, v.Deterministic(), v.SessionDependent())
							c.Check((v.Variadic() != nil) == (m["variadic"] != nil), "shipped_variadic", "%v: variadic %v", id, v.Variadic())
							if vm, ok := m["variadic"].(map[string]any); ok {
								c.Check(fmt.Sprint(v.Variadic().Min) == orElse(str(vm["min"]), "0") && fmt.Sprint(v.Variadic().Max) == orElse(str(vm["max"]), "0") &&
									string(v.Variadic().ParameterConsistency) == orElse(str(vm["parameterConsistency"]), "CONSISTENT"), "shipped_variadic", "%v: variadic %v, want %v", id, v.Variadic(), vm)
							}
							om, _ := m["options"].(map[string]any)
							c.Check(len(om) == len(v.Options()), "shipped_options", "%v: options %v", id, v.Options())
							for k, o := range om {
								var vals []string
								for _, x := range list(o.(map[string]any)["values"]) {
									vals = append(vals, str(x))
								}
								c.Check(strings.Join(v.Options()[k].Values, "|") == strings.Join(vals, "|"), "shipped_options", "%v: option %s is %v, want %v", id, k, v.Options()[k], vals)
							}
							if a, ok := v.(xaggvariant); ok {
								c.Check(string(a.Decomposability()) == orElse(str(m["decomposable"]), "NONE"), "shipped_decomposable", "%v: %v", id, a.Decomposability())
								c.Check(a.Ordered() == (str(m["ordered"]) == "true"), "shipped_ordered", "%v: %v", id, a.Ordered())
								it, err := a.Intermediate()
								if m["intermediate"] == nil {
									c.Check(err != nil, "shipped_intermediate", "%v: %v", id, it)
								} else if d, ok := refParsePD(str(m["intermediate"])); ok {
									c.Check(err == nil && xSameType(it, d), "shipped_intermediate", "%v: %v %v, want %v", id, it, err, d)
								}
							}
							if w, ok := v.(*extensions.WindowFunctionVariant); ok {
								c.Check(string(w.WindowType()) == window, "shipped_window", "%v: %v", id, w.WindowType())
							}
						}
						for i, a := range list(m["args"]) {
							am := a.(map[string]any)
							if d, ok := refParsePD(str(am["value"])); ok && am["options"] == nil && byName[name] == 1 {
								c.Check(xSameType(v.Args()[i].GetTypeExpression(), d), "shipped_arg", "%v: argument %d is %v, want %v", id, i, v.Args()[i].GetTypeExpression(), d)
							}
						}
					}
					switch kind {
					case "scalar":
						v, ok := col.GetScalarFunc(id)
						check(v, ok, "")
						_, ok = col.GetScalarFunc(extensions.FunctionID{URN: urn, Name: name})
						c.Check(ok == (byName[name] == 1), "shipped_simple", "%s found by simple name: %v, %d variants", name, ok, byName[name])
					case "aggregate":
						v, ok := col.GetAggregateFunc(id)
						check(v, ok, "")
						w, ok := col.GetWindowFunc(id)
						check(w, ok, "STREAMING")
					case "window":
						w, ok := col.GetWindowFunc(id)
						check(w, ok, orElse(str(m["window_type"]), "PARTITION"))
					}
				}
			}
		}
	}
	c.Case(true, "shipped files: %v", total)
}

// snap is everything a collection says, as text.
func snap(col *extensions.Collection, files []*XFile, extra ...string) string {
	var out []string
	add := func(f string, a ...any) { out = append(out, fmt.Sprintf(f, a...)) }
	one := func(kind string, v xvariant) {
		var b strings.Builder
		fmt.Fprintf(&b, "%s %v %q %q %v %v %v %v %v %v", kind, v.ID(), v.Name(), v.Description(), v.Nullability(), v.Deterministic(), v.SessionDependent(), v.Metadata(), v.Options(), v.Variadic())
		for _, a := range v.Args() {
			fmt.Fprintf(&b, " %+v %v", a, a.GetTypeExpression())
		}
		if a, ok := v.(xaggvariant); ok {
			it, err := a.Intermediate()
			fmt.Fprintf(&b, " %v %v %v %v %v", a.Decomposability(), a.Ordered(), a.MaxSet(), it, err)
		}
		if w, ok := v.(*extensions.WindowFunctionVariant); ok {
			fmt.Fprintf(&b, " %v", w.WindowType())
		}
		out = append(out, b.String())
	}
	for _, v := range col.GetAllScalarFunctions() {
		one("scalar", v)
	}
	for _, v := range col.GetAllAggregateFunctions() {
		one("aggregate", v)
	}
	for _, v := range col.GetAllWindowFunctions() {
		one("window", v)
	}
	urns := append([]string{"", "extension:verif:lib", "extension:verif0:lib", "extension:verif1:lib", "extension:verif9:lib"}, extra...)
	for _, u := range urns {
		add("urn %s %v %v", u, col.URNLoaded(u), col.GetFileMetadata(u))
		for _, f := range files {
			for _, ty := range f.Types {
				g, ok := col.GetType(extensions.TypeID{URN: u, Name: ty.Name})
				add("type %s %s %+v %v", u, ty.Name, g, ok)
			}
			for _, tv := range f.Vars {
				g, ok := col.GetTypeVariation(extensions.TypeVariationID{URN: u, Name: tv.Name})
				add("variation %s %s %+v %v", u, tv.Name, g, ok)
			}
			for _, fn := range f.Funcs {
				id := extensions.FunctionID{URN: u, Name: fn.Name}
				if v, ok := col.GetScalarFunc(id); ok {
					add("simple scalar %v %v", id, v.ID())
				}
				if v, ok := col.GetAggregateFunc(id); ok {
					add("simple aggregate %v %v", id, v.ID())
				}
				if v, ok := col.GetWindowFunc(id); ok {
					add("simple window %v %v", id, v.ID())
				}
			}
		}
	}
	sort.Strings(out)
	return strings.Join(out, "\n")
}

// ynode is a place in a document.
type ynode struct {
	path string
	get  func() any
	set  func(any)
	del  func()
}

func yWalk(v any, path string, f func(n ynode)) {
	switch x := v.(type) {
	case *ymap:
		for i := range x.kv {
			i := i
			p := path + "/" + x.kv[i].K
			f(ynode{p, func() any { return x.kv[i].V }, func(v any) { x.kv[i].V = v }, func() { x.kv = append(x.kv[:i:i], x.kv[i+1:]...) }})
			yWalk(x.kv[i].V, p, f)
		}
	case []any:
		for i := range x {
			i := i
			p := fmt.Sprintf("%s/%d", path, i)
			f(ynode{p, func() any { return x[i] }, func(v any) { x[i] = v }, nil})
			yWalk(x[i], p, f)
		}
	}
}

// last is the final element of a path.
func (n ynode) last() string { return n.path[strings.LastIndex(n.path, "/")+1:] }

func (n ynode) inFuncs() bool {
	return strings.Contains(n.path, "_functions/") && strings.Contains(n.path, "/impls/")
}

var badTypeTexts = []string{"i33", "decimal<", "list<>", "struct<i32", "", "i32 i32", "map<i32>", "u!", "i32<3>", "decimal<1,2,3>", "foo", "list<i32>>", "<i32>", "i32;", "@"}
var badURNs = []any{"", "verif:lib", "extension:a", "extension:a:b:c", "extension::b", "extension:a:", ":a:b", "urn:a:b", "https://x/y.yaml", "xextension:a:b", ym("a", "b"), []any{"x"}, nil}

// breakDoc makes a change to the document after which it must not load; what is empty when it found no place for the change.
func breakDoc(t *rapid.T, doc *ymap, loaded []string) (what string) {
	pick := func(ok func(n ynode) bool) *ynode {
		var l []ynode
		yWalk(doc, "", func(n ynode) {
			if ok(n) {
				l = append(l, n)
			}
		})
		if len(l) == 0 {
			return nil
		}
		n := l[rapid.IntRange(0, len(l)-1).Draw(t, "place")]
		return &n
	}
	isType := func(n ynode) bool {
		if !n.inFuncs() || strings.Contains(n.path, "/options/") {
			return false
		}
		_, isS := n.get().(string)
		switch n.last() {
		case "value", "type", "return", "intermediate":
			return isS
		}
		return false
	}
	isArg := func(n ynode) bool {
		i := strings.LastIndex(n.path, "/")
		return n.inFuncs() && strings.HasSuffix(n.path[:i], "/args")
	}
	top := func(k string) *ynode { return pick(func(n ynode) bool { return n.path == "/"+k }) }
	switch cls := rapid.SampledFrom([]string{"urn", "no urn", "duplicate", "type", "type", "type", "udt", "udt", "arg", "arg", "arg kind", "alias", "dependency", "list", "impl"}).Draw(t, "break"); cls {
	case "urn":
		v := rapid.SampledFrom(badURNs).Draw(t, "urn")
		top("urn").set(v)
		return "bad URN " + yAny(v)
	case "no urn":
		top("urn").del()
		return "no URN"
	case "duplicate":
		if len(loaded) > 0 {
			u := rapid.SampledFrom(loaded).Draw(t, "dup")
			top("urn").set(u)
			return "duplicate URN " + u
		}
	case "type":
		if n := pick(isType); n != nil {
			s := rapid.SampledFrom(badTypeTexts).Draw(t, "bad")
			n.set(s)
			return "bad type text " + s + " at " + n.path
		}
	case "udt":
		if n := pick(isType); n != nil {
			s := rapid.SampledFrom([]string{"u!nothere", "list<u!nothere?>", "u!point<u!nothere>", "map<i32, struct<u!nothere>>", "func<i32 -> u!nothere>", "map<u!nothere, i32>", "func<u!nothere -> i32>"}).Draw(t, "udt")
			// after some types which are declared
			for _, kv := range doc.kv {
				if ts, ok := kv.V.([]any); ok && kv.K == "types" && rapid.Bool().Draw(t, "declared") {
					for _, ty := range ts {
						for _, e := range ty.(*ymap).kv {
							if e.K == "name" {
								s = "struct<" + strings.Repeat(fmt.Sprintf("u!%v, ", e.V), rapid.IntRange(1, 4).Draw(t, "ndecl")) + s + ">"
							}
						}
					}
				}
			}
			n.set(s)
			return "undeclared type " + s + " at " + n.path
		}
	case "arg":
		if n := pick(isArg); n != nil {
			if m, ok := n.get().(*ymap); ok {
				var kv []ykv
				for _, e := range m.kv {
					if e.K != "value" && e.K != "type" && e.K != "options" {
						kv = append(kv, e)
					}
				}
				n.set(&ymap{append(kv, ykv{"note", "x"})})
				return "argument without type at " + n.path
			}
		}
	case "arg kind":
		if n := pick(isArg); n != nil {
			if m, ok := n.get().(*ymap); ok && len(m.kv) > 0 {
				i := rapid.IntRange(0, len(m.kv)-1).Draw(t, "field")
				bad := map[string][]any{"name": {[]any{"x"}, ym("a", 1)}, "description": {[]any{"x"}, ym("a", 1)}, "options": {"x", 5, ym("a", 1), []any{[]any{}}}, "value": {5, true, []any{"i32"}}, "type": {5, []any{"i32"}}, "constant": {"maybe", []any{}}}[m.kv[i].K]
				if len(bad) > 0 {
					v := rapid.SampledFrom(bad).Draw(t, "v")
					what := fmt.Sprintf("%s is %v at %s", m.kv[i].K, yAny(v), n.path)
					m.kv[i].V = v
					return what
				}
			}
		}
	case "alias", "dependency":
		alias, urn := "ext", "extension:verif9:none"
		if cls == "dependency" && rapid.IntRange(0, 3).Draw(t, "self") == 0 {
			// a file isn't loaded yet when its dependencies are looked up
			if own, ok := top("urn").get().(string); ok && !slices.Contains(loaded, own) {
				urn = own
			}
		}
		if cls == "alias" {
			if len(loaded) == 0 {
				return ""
			}
			alias, urn = rapid.SampledFrom([]string{"", "1ext", "a-b", "a b", "a.b", "é"}).Draw(t, "alias"), loaded[0]
		}
		d := top("dependencies")
		if d == nil {
			doc.add("dependencies", ym(alias, urn))
		} else {
			m := d.get().(*ymap)
			for i := range m.kv {
				if m.kv[i].K == alias {
					m.kv[i].V = urn
					return "dependency " + alias + ": " + urn
				}
			}
			m.add(alias, urn)
		}
		return "dependency " + alias + ": " + urn
	case "list":
		if n := pick(func(n ynode) bool {
			_, ok := n.get().([]any)
			switch n.last() {
			case "args", "impls", "types", "type_variations", "scalar_functions", "aggregate_functions", "window_functions", "parameters", "values":
				return ok && !strings.Contains(n.path, "/metadata")
			}
			return false
		}); n != nil {
			v := rapid.SampledFrom([]any{"x", 7, ym("a", 1)}).Draw(t, "notlist")
			n.set(v)
			return n.path + " is " + yAny(v)
		}
	case "impl":
		if n := pick(func(n ynode) bool {
			i := strings.LastIndex(n.path, "/")
			return n.last() == "variadic" && strings.Contains(n.path, "/impls/") || i > 0 && strings.HasSuffix(n.path[:i], "/impls")
		}); n != nil {
			v := rapid.SampledFrom([]any{"x", 7, []any{"i32"}}).Draw(t, "notmap")
			n.set(v)
			return n.path + " is " + yAny(v)
		}
	}
	return ""
}

// disturb changes the document or its text anywhere, with no claim on the outcome.
func disturb(t *rapid.T, doc *ymap) {
	n := rapid.IntRange(1, 3).Draw(t, "ndist")
	for i := 0; i < n; i++ {
		var l []ynode
		yWalk(doc, "", func(n ynode) { l = append(l, n) })
		if len(l) == 0 {
			return
		}
		nd := l[rapid.IntRange(0, len(l)-1).Draw(t, "place")]
		switch rapid.IntRange(0, 3).Draw(t, "how") {
		case 0:
			if nd.del != nil {
				nd.del()
				continue
			}
			nd.set(nil)
		case 1:
			src := l[rapid.IntRange(0, len(l)-1).Draw(t, "src")]
			nd.set(ycopy(src.get()))
		default:
			nd.set(rapid.SampledFrom([]any{nil, "", "x", "i32", "any1", "u!point", 0, -1, 99999999999, true, []any{}, []any{nil}, []any{[]any{"x"}}, &ymap{}, ym("value", "i32"), ym("", nil), []any{ym("value", "any1?")}, "list<any>", "P1 = P + 1\ndecimal<P1, 2>"}).Draw(t, "v"))
		}
	}
}

func disturbText(t *rapid.T, s string) string {
	n := rapid.IntRange(1, 3).Draw(t, "ntext")
	for i := 0; i < n && s != ""; i++ {
		p := rapid.IntRange(0, len(s)-1).Draw(t, "pos")
		switch rapid.IntRange(0, 3).Draw(t, "how") {
		case 0:
			s = s[:p]
		case 1:
			q := min(len(s), p+rapid.IntRange(1, 30).Draw(t, "len"))
			s = s[:p] + s[q:]
		case 2:
			s = s[:p] + rapid.SampledFrom([]string{"\n", " ", ":", "-", "{", "}", "[", "]", "\"", "#", "&a ", "*a", "? ", "|", ">", "!", "\t", "\x00", "\xff", "<<: ", "---\n", "%"}).Draw(t, "ins") + s[p:]
		case 3:
			q := min(len(s), p+rapid.IntRange(1, 60).Draw(t, "len"))
			s = s[:q] + s[p:]
		}
	}
	return s
}

type failingReader struct {
	s string
	n int
}

func (r *failingReader) Read(b []byte) (int, error) {
	if r.n == 0 {
		return 0, fmt.Errorf("read fault")
	}
	k := min(len(b), r.n, 7)
	copy(b, r.s[:k])
	r.s, r.n = r.s[k:], r.n-k
	return k, nil
}

// useAll calls what a user may call on loaded functions; a panic is a violation.
func useAll(c *C, col *extensions.Collection) {
	var vs []xvariant
	for _, v := range col.GetAllScalarFunctions() {
		vs = append(vs, v)
	}
	for _, v := range col.GetAllAggregateFunctions() {
		vs = append(vs, v)
	}
	for _, v := range col.GetAllWindowFunctions() {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool {
		return fmt.Sprintf("%T%v", vs[i], vs[i].ID()) < fmt.Sprintf("%T%v", vs[j], vs[j].ID())
	})
	i32 := &types.Int32Type{Nullability: types.NullabilityRequired}
	dec := &types.DecimalType{Precision: 5, Scale: 2, Nullability: types.NullabilityNullable}
	argLists := [][]types.Type{{}, {i32}, {i32, i32}, {dec, dec, dec}, {types.CommonEnumType, i32}}
	for i, v := range vs {
		if i > 8 {
			break
		}
		c.NoPanic(fmt.Sprintf("using %v", v.ID()), func() {
			for _, a := range argLists {
				_, _ = v.Match(a)
				_, _ = v.ResolveType(a, extensions.NewSet())
				for k := range a {
					_, _ = v.MatchAt(a[k], k)
				}
			}
			_, _ = v.MinArgumentCount(), v.MaxArgumentCount()
		})
	}
}

func TestX03(t *testing.T) {
	p := start(t, "X03", "well-formed extension files broken at a random place in a way that must be refused (URN, dependency, type text, undeclared type, argument, structure, read fault), or disturbed anywhere in tree or text with no claim on "+
		"the outcome, loaded into collections that already hold files; a refusal must leave everything the collection says unchanged and the corrected file must then load completely; non-trivial = the load was refused")
	defer p.finish()

	base := func(c *C) (col *extensions.Collection, files []*XFile, urns []string) {
		col = &extensions.Collection{}
		n := rapid.SampledFrom([]int{0, 1, 1, 2}).Draw(c.T, "nbase")
		for i := 0; i < n; i++ {
			f := genXFile(c.T, fmt.Sprintf("extension:verif%d:lib", i), urns, 2)
			c.Check(col.Load(strings.NewReader(yText(f.doc(c.T), yStyle(c.T)))) == nil, "base_load", "a well-formed file is refused")
			files = append(files, f)
			urns = append(urns, f.URN)
		}
		return
	}
	corrected := func(c *C, col *extensions.Collection, files []*XFile, f *XFile, text string) {
		err := col.Load(strings.NewReader(text))
		c.Check(err == nil, "corrected_load", "the corrected file does not load: %v\n%s", err, text)
		files = append(files, f)
		checkLoaded(c, col, files)
		before := snap(col, files)
		err = col.Load(strings.NewReader(text))
		c.Check(err != nil, "loads_twice", "the file loads twice")
		c.Check(snap(col, files) == before, "twice_changed", "loading the file again changes the collection")
	}

	p.sub("broken", 2500, func(c *C) {
		col, files, urns := base(c)
		f := genXFile(c.T, "extension:verif9:lib", urns, 3)
		doc := f.doc(c.T)
		good := yText(doc, yStyle(c.T))
		all := append(append([]*XFile{}, files...), f)
		before := snap(col, all)
		n := rapid.IntRange(1, 3).Draw(c.T, "nfail")
		for i := 0; i < n; i++ {
			bad := ycopy(doc).(*ymap)
			what := breakDoc(c.T, bad, urns)
			if what == "" {
				continue
			}
			text := yText(bad, yStyle(c.T))
			c.Case(true, "%s (%d files loaded)\n%s", what, len(files), text)
			c.Label("broken:" + strings.Fields(what)[0])
			var err error
			c.NoPanic("Load", func() { err = col.Load(strings.NewReader(text)) })
			c.Check(err != nil, "accepts_broken", "loads although: %s", what)
			after := snap(col, all)
			c.Check(after == before, "changed", "refused, but the collection changed:\n%s", diffLines(before, after))
		}
		corrected(c, col, files, f, good)
	})

	p.sub("disturbed", 2500, func(c *C) {
		col, files, urns := base(c)
		f := genXFile(c.T, "extension:verif9:lib", urns, 3)
		doc := f.doc(c.T)
		good := yText(doc, yStyle(c.T))
		bad := ycopy(doc).(*ymap)
		how := rapid.IntRange(0, 3).Draw(c.T, "where")
		if how != 1 {
			disturb(c.T, bad)
		}
		text := yText(bad, yStyle(c.T))
		if how == 1 || how == 2 {
			text = disturbText(c.T, text)
		}
		all := append(append([]*XFile{}, files...), f)
		before := snap(col, all)
		var r io.Reader = strings.NewReader(text)
		fault := how == 3 && rapid.Bool().Draw(c.T, "fault")
		if fault {
			r = &failingReader{text, rapid.IntRange(0, len(text)-1).Draw(c.T, "at")}
		}
		c.Case(false, "%s", text)
		var err error
		c.NoPanic("Load", func() { err = col.Load(r) })
		c.Check(!fault || err != nil, "read_fault", "loads although reading the file failed")
		if err == nil {
			c.Label("loads")
			useAll(c, col)
			return
		}
		c.Label("refused")
		c.Case(true, "%s", text)
		after := snap(col, all)
		c.Check(after == before, "changed", "refused, but the collection changed:\n%s", diffLines(before, after))
		corrected(c, col, files, f, good)
	})
}

func diffLines(a, b string) string {
	in := map[string]bool{}
	for _, l := range strings.Split(a, "\n") {
		in[l] = true
	}
	var out []string
	for _, l := range strings.Split(b, "\n") {
		if !in[l] {
			out = append(out, "+ "+l)
		}
		delete(in, l)
	}
	for l := range in {
		out = append(out, "- "+l)
	}
	sort.Strings(out)
	if len(out) > 10 {
		out = out[:10]
	}
	return strings.Join(out, "\n")
}
