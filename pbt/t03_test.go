package pbt

import (
	"strings"
	"testing"

	"github.com/goccy/go-yaml"
	"github.com/substrait-io/substrait-go/v8/types"
	"github.com/substrait-io/substrait-go/v8/types/parser"
	"pgregory.net/rapid"
)

func TestT03(t *testing.T) {
	p := start(t, "T03", "type expressions generated from the grammar (kinds, nullability, integer and any variables, nesting, user-defined and function types) in random "+
		"case/white space/comments, derivation programs, and mutated texts judged by an independent recursive-descent parser; "+
		"non-trivial = nested, parameterised, nullable or mutated")
	defer p.finish()

	opts := func(t *rapid.T) pdOpts {
		o := pdOpts{depth: 3, nullProb: 4, udtArgs: true}
		if rapid.Bool().Draw(t, "vars") {
			o.vars = []string{"P", "S", "L1", "len_2"}
			o.anys = []string{"any", "any1", "any2", "any9"}
		}
		return o
	}
	parse := func(c *C, s string) types.FuncDefArgType {
		ft, err := parser.ParseType(s)
		c.Check(err == nil && ft != nil, "rejects_valid", "ParseType(%q) fails: %v", s, err)
		return ft
	}
	read := func(c *C, ft types.FuncDefArgType) *PD {
		d, err := pdOf(ft)
		c.Check(err == nil, "parsed_shape", "parsed type %v: %v", ft, err)
		return d
	}

	p.sub("parse_spelled", 5000, func(c *C) {
		d := genPD(c.T, opts(c.T))
		txt := spell(c.T, d.String())
		c.Case(len(d.Kids) > 0 || d.P != "" || d.Null || len(d.UArgs) > 0, "%q", txt)
		c.Label(d.Kind)
		ft := parse(c, txt)
		got := read(c, ft)
		c.Check(got.String() == d.String(), "parse:"+d.Kind, "%q parses to %s", txt, got)
		printed := ft.String()
		again := read(c, parse(c, printed))
		c.Check(again.String() == d.String(), "print:"+d.Kind, "%q prints as %q which parses to %s", txt, printed, again)
		inFile(c, ft, printed)
		direct := d.def()
		c.Check(direct.String() == printed, "print_direct:"+d.Kind, "built type prints %q, parsed one %q", direct.String(), printed)
		c.Check(ft.HasParameterizedParam() == d.hasIntVars(), "has_param:"+d.Kind, "HasParameterizedParam of %s is %v", d, ft.HasParameterizedParam())
		c.Check((len(ft.GetParameterizedParams()) > 0) == d.hasIntVars(), "params:"+d.Kind, "parameters of %s are %v", d, ft.GetParameterizedParams())
		flip, n := d.clone(), types.NullabilityRequired
		if flip.Null = !d.Null; flip.Null {
			n = types.NullabilityNullable
		}
		set := parse(c, txt).SetNullability(n)
		c.Check(set.GetNullability() == n && read(c, set).String() == flip.String(), "set_nullability:"+d.Kind, "%s with nullability %v is %s", d, n, set)
		c.Check(read(c, ft).String() == d.String(), "set_nullability_other:"+d.Kind, "%s became %s", d, ft)
		if d.concrete() {
			want := d.td(nil, nil)
			ct, err := ft.ReturnType(nil, nil)
			c.Check(err == nil, "concrete_error:"+d.Kind, "%s has no concrete type: %v", d, err)
			c.Check(ct.Equals(want.build()) && protoEq(types.TypeToProto(ct), want.proto()), "concrete:"+d.Kind, "%s denotes %s, want %s", d, ct, want)
		}
	})

	p.sub("concrete_text", 2500, func(c *C) {
		d := genTD(c.T, typeGenOpts{depth: 3, noFunc: true, noUDT: true, noVar: true, noICmp: true, noUnspec: true, noEmpty: true, decimalOK: true})
		g := d.build()
		txt := g.String()
		c.Case(d.isNested() || d.P != 0, "%s as %q", d, txt)
		ft := parse(c, txt)
		ct, err := ft.ReturnType(nil, nil)
		c.Check(err == nil, "concrete_text_error", "%q: %v", txt, err)
		c.Check(ct.Equals(g), "concrete_text:"+d.Kind, "%s prints as %q which parses to %s", d, txt, ct)
		if d.Kind != "struct" {
			c.Check(strings.HasPrefix(txt, d.Kind), "spelling", "%s prints as %q", d, txt)
		}
	})

	p.sub("mutated", 10000, func(c *C) {
		d := genPD(c.T, opts(c.T))
		s := []rune(d.String())
		n := rapid.IntRange(1, 2).Draw(c.T, "nmut")
		for i := 0; i < n && len(s) > 0; i++ {
			k := rapid.IntRange(0, len(s)-1).Draw(c.T, "at")
			switch rapid.IntRange(0, 5).Draw(c.T, "mut") {
			case 0:
				s = append(s[:k:k], s[k+1:]...)
			case 1:
				ch := rapid.SampledFrom([]rune("@~;\"'`&^|{}\\<>,()?!: #.i32%αé\x00u!1")).Draw(c.T, "ch")
				s = append(s[:k:k], append([]rune{ch}, s[k:]...)...)
			case 2:
				s = s[:k]
			case 3:
				s = append(s[:k:k], append([]rune(rapid.SampledFrom([]string{"4294967297", "2147483648", "99999999999999999999", "any1", "i32", "L1", "<", "interval_compound<3>", "nstruct<a i32>", "bool", " "}).Draw(c.T, "tok")), s[k:]...)...)
			case 4:
				ch := rapid.SampledFrom([]rune("@<>,()?0a \t$")).Draw(c.T, "ch")
				s[k] = ch
			case 5:
				s = append(s, []rune(rapid.SampledFrom([]string{"@", ">", "?", " i32", "~", "\x7f", "<5>", ")", ";"}).Draw(c.T, "tail"))...)
			}
		}
		txt := string(s)
		if strings.ContainsAny(txt, "=\n\r") {
			c.Case(false, "%q", txt)
			return
		}
		want, ok := refParsePD(txt)
		c.Case(true, "%q (valid %v)", txt, ok)
		if ok {
			c.Label("valid")
		} else {
			c.Label("invalid")
		}
		var ft types.FuncDefArgType
		var err error
		c.NoPanic("ParseType", func() { ft, err = parser.ParseType(txt) })
		if !ok {
			c.Check(err != nil, "accepts_invalid", "ParseType(%q) is accepted as %v", txt, ft)
			return
		}
		c.Check(err == nil, "rejects_valid", "ParseType(%q) fails: %v", txt, err)
		got := read(c, ft)
		c.Check(got.String() == want.String(), "parse_mutated", "%q parses to %s, want %s", txt, got, want)
	})

	p.sub("integer_range", 800, func(c *C) {
		k := rapid.SampledFrom([]string{"varchar<%>", "fixedchar<%>", "fixedbinary?<%>", "decimal<%,0>", "decimal<38,%>", "precision_timestamp<%>", "list<varchar<%>>", "u!t<%>", "map<i32,u!t<list<i8>,%>>"}).Draw(c.T, "tmpl")
		v := rapid.OneOf(rapid.Int64Range(1<<31, 1<<33), rapid.Int64Range(1<<31, 1<<62), rapid.SampledFrom([]int64{1<<31 - 1, 1 << 31, 1 << 32, 1<<32 + 1, 1<<63 - 1})).Draw(c.T, "v")
		txt := strings.ReplaceAll(k, "%", itoa(v))
		c.Case(true, "%q", txt)
		ft, err := parser.ParseType(txt)
		if v > 1<<31-1 {
			c.Check(err != nil, "int_truncated", "ParseType(%q) is accepted as %v", txt, ft)
		} else {
			c.Check(err == nil, "int_max", "ParseType(%q) fails: %v", txt, err)
			c.Check(strings.Contains(ft.String(), itoa(v)), "int_max_print", "%q prints %s", txt, ft)
		}
	})

	p.sub("derivation_text", 2500, func(c *C) {
		prog := genProgram(c.T, []string{"P1", "S1"}, true)
		txt := prog.text(func(s string) string { return s })
		c.Case(true, "%q", txt)
		ft := parse(c, txt)
		od, ok := ft.(*types.OutputDerivation)
		c.Check(ok, "derivation_kind", "%q parses to %T", txt, ft)
		c.Check(len(od.Assignments) == len(prog.assigns), "derivation_len", "%q parses to %d assignments", txt, len(od.Assignments))
		printed := ft.String()
		again := parse(c, printed)
		inFile(c, ft, printed)
		od2, ok := again.(*types.OutputDerivation)
		c.Check(ok, "derivation_kind2", "%q parses to %T", printed, again)
		for i, a := range prog.assigns {
			c.Check(exprText(od.Assignments[i].Value) == a.e.tree(), "derivation_tree", "%q: %s parses to %s, want %s", txt, a.name, exprText(od.Assignments[i].Value), a.e.tree())
			c.Check(od.Assignments[i].Name == a.name && od2.Assignments[i].Name == a.name, "derivation_name", "assignment name %q", od.Assignments[i].Name)
			c.Check(exprText(od2.Assignments[i].Value) == a.e.tree(), "derivation_print", "%q prints %q where %s is %s, want %s", txt, printed, a.name, exprText(od2.Assignments[i].Value), a.e.tree())
		}
		c.Check(od.FinalType.String() == od2.FinalType.String(), "derivation_final", "%s vs %s", od.FinalType, od2.FinalType)
		for _, n := range []types.Nullability{types.NullabilityNullable, types.NullabilityRequired} {
			set := again.SetNullability(n)
			c.Check(set.GetNullability() == n && od2.FinalType.GetNullability() == n, "derivation_nullability", "%q with nullability %v is %q", printed, n, set)
		}
	})
}

// inFile writes a type expression to a YAML file and reads it back.
func inFile(c *C, ft types.FuncDefArgType, printed string) {
	type file struct {
		Return *parser.TypeExpression
		Other  string
	}
	b, err := yaml.Marshal(&file{&parser.TypeExpression{ValueType: ft}, "x"})
	c.Check(err == nil, "yaml_write", "%q is not written: %v", printed, err)
	var f file
	err = yaml.Unmarshal(b, &f)
	c.Check(err == nil && f.Return != nil && f.Return.ValueType != nil, "yaml_read", "%q is written as %q and not read: %v", printed, b, err)
	c.Check(f.Return.ValueType.String() == printed && f.Other == "x", "yaml", "%q is written as %q and read as %q", printed, b, f.Return.ValueType)
}
