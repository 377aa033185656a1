package pbt

// FSig is an independent model of a function declaration; FArg/FAct of parameters and arguments.
// The reference matcher and the reference type resolution are here too.

import (
	"fmt"
	"math/big"
	"strconv"
	"strings"

	"github.com/substrait-io/substrait-go/v8/extensions"
	"github.com/substrait-io/substrait-go/v8/types"
	"pgregory.net/rapid"
)

const fURN = "extension:verif:funcs"

type FParam struct {
	Enum []string // enumeration argument when not nil
	T    *PD
	Typ  string // a type argument when not empty
}

type FSig struct {
	Kind     string // scalar aggregate window
	Params   []FParam
	Variadic bool
	Min, Max int
	Cons     string // "" CONSISTENT INCONSISTENT
	Null     string // "" MIRROR DECLARED_OUTPUT DISCRETE
	Ret      *PD
	Prog     *prog
}

type FAct struct {
	Enum bool
	T    *TD
}

func (a FAct) String() string {
	if a.Enum {
		return "enum"
	}
	return a.T.String()
}

func (s *FSig) retText() string {
	if s.Prog != nil {
		return s.Prog.text(func(x string) string { return x })
	}
	if s.Ret == nil {
		return ""
	}
	return s.Ret.String()
}

func (s *FSig) final() *PD {
	if s.Prog != nil {
		return s.Prog.final
	}
	return s.Ret
}

func (s *FSig) String() string {
	var ps []string
	for _, p := range s.Params {
		if p.T == nil {
			ps = append(ps, "enum")
		} else {
			ps = append(ps, p.T.String())
		}
	}
	v := ""
	if s.Variadic {
		v = fmt.Sprintf(" variadic{%d,%d,%s}", s.Min, s.Max, s.Cons)
	}
	return fmt.Sprintf("%s(%s)%s %s -> %q", s.Kind, strings.Join(ps, "; "), v, s.Null, s.retText())
}

var udtNames = []string{"point", "Point", "my_type", "T2", "$x"}

// yaml writes an extension file declaring the function.
func (s *FSig) yaml() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%%YAML 1.2\n---\nurn: %s\ntypes:\n", fURN)
	for _, n := range udtNames {
		fmt.Fprintf(&b, "  - name: %q\n", n)
	}
	fmt.Fprintf(&b, "%s_functions:\n  - name: \"f\"\n    impls:\n      - args:", s.Kind)
	if len(s.Params) == 0 {
		b.WriteString(" []")
	}
	b.WriteString("\n")
	for i, p := range s.Params {
		fmt.Fprintf(&b, "          - name: \"a%d\"\n", i)
		if p.Typ != "" {
			fmt.Fprintf(&b, "            type: %q\n", p.Typ)
		} else if p.T == nil {
			b.WriteString("            options: [")
			for j, o := range p.Enum {
				if j > 0 {
					b.WriteString(", ")
				}
				fmt.Fprintf(&b, "%q", o)
			}
			b.WriteString("]\n")
		} else {
			fmt.Fprintf(&b, "            value: %q\n", p.T.String())
		}
	}
	if s.Variadic {
		b.WriteString("        variadic:\n")
		fmt.Fprintf(&b, "          min: %d\n", s.Min)
		if s.Max > 0 {
			fmt.Fprintf(&b, "          max: %d\n", s.Max)
		}
		if s.Cons != "" {
			fmt.Fprintf(&b, "          parameterConsistency: %s\n", s.Cons)
		}
	}
	if s.Null != "" {
		fmt.Fprintf(&b, "        nullability: %s\n", s.Null)
	}
	if s.Kind == "window" {
		b.WriteString("        window_type: PARTITION\n")
	}
	fmt.Fprintf(&b, "        return: %q\n", s.retText())
	return b.String()
}

type sigOpts struct {
	anys      []string
	vars      []string
	maxParams int
	noEnum    bool
	repeat    bool // make type variables likely and repeated
	noUDT     bool
	depth     int
}

func genSig(t *rapid.T, o sigOpts) *FSig {
	s := &FSig{
		Kind: rapid.SampledFrom([]string{"scalar", "aggregate", "window"}).Draw(t, "fkind"),
		Null: rapid.SampledFrom([]string{"", "MIRROR", "MIRROR", "DECLARED_OUTPUT", "DISCRETE"}).Draw(t, "nullmode"),
	}
	po := pdOpts{depth: o.depth, vars: o.vars, anys: o.anys, noUDT: o.noUDT, udtArgs: true, nullProb: 3}
	n := rapid.IntRange(0, o.maxParams).Draw(t, "nparams")
	if o.repeat && n < 2 {
		n = 2
	}
	for i := 0; i < n; i++ {
		if !o.noEnum && rapid.IntRange(0, 9).Draw(t, "isenum") == 9 {
			s.Params = append(s.Params, FParam{Enum: []string{"A", "B"}})
			continue
		}
		s.Params = append(s.Params, FParam{T: genPD(t, po)})
	}
	if n > 0 && rapid.IntRange(0, 2).Draw(t, "variadic") > 0 {
		s.Variadic = true
		s.Min = rapid.IntRange(0, 2).Draw(t, "min")
		if rapid.Bool().Draw(t, "bounded") {
			s.Max = max(1, s.Min) + max(0, rapid.IntRange(-1, 2).Draw(t, "max"))
		}
		s.Cons = rapid.SampledFrom([]string{"", "CONSISTENT", "INCONSISTENT"}).Draw(t, "cons")
		if last := s.Params[n-1]; s.Cons == "INCONSISTENT" && last.T != nil {
			// which of the differing arguments an integer variable of the last parameter is bound to is not defined
			s.Params[n-1].T = last.T.noIntVars()
		}
	}
	return s
}

// noIntVars is the type with integer variables replaced by numbers.
func (d *PD) noIntVars() *PD {
	o := d.clone()
	o.each(func(n *PD) {
		if isVar(n.P) {
			n.P = "5"
		}
		if isVar(n.S) {
			n.S = "3"
		}
	})
	return o
}

func (s *FSig) intVars() []string {
	var out []string
	for _, p := range s.Params {
		if p.T == nil {
			continue
		}
		p.T.each(func(n *PD) {
			for _, v := range []string{n.P, n.S} {
				if isVar(v) && !contains(out, v) {
					out = append(out, v)
				}
			}
		})
	}
	return out
}

func (s *FSig) anyVars() []string {
	var out []string
	nplain := 0
	for _, p := range s.Params {
		if p.T == nil {
			continue
		}
		p.T.each(func(n *PD) {
			if n.Kind == "any" {
				if n.Name == "any" {
					nplain++
					return
				}
				if !contains(out, n.Name) {
					out = append(out, n.Name)
				}
			}
		})
	}
	if nplain == 1 {
		out = append(out, "any")
	}
	return out
}

// genRet gives the signature a return type over the variables its parameters bind (and rarely one they do not).
func (s *FSig) genRet(t *rapid.T, allowProg bool) {
	ints, anys := s.intVars(), s.anyVars()
	if rapid.IntRange(0, 19).Draw(t, "unbound") == 19 {
		ints = append(ints, "Q9")
		anys = append(anys, "any9")
	}
	if allowProg && rapid.IntRange(0, 4).Draw(t, "prog") == 4 {
		s.Prog = genProgram(t, ints, false)
		return
	}
	s.Ret = genPD(t, pdOpts{depth: 2, vars: ints, anys: anys, udtArgs: true, nullProb: 3})
}

func (s *FSig) minArgs() int { return len(s.Params) - 1 + s.Min }

func (s *FSig) countOK(n int) bool {
	if !s.Variadic {
		return n == len(s.Params)
	}
	v := n - (len(s.Params) - 1)
	return v >= 0 && v >= s.Min && (s.Max == 0 || v <= s.Max)
}

func (s *FSig) paramAt(i int) *FParam {
	if i < len(s.Params) {
		if s.Variadic && i == len(s.Params)-1 && s.Max > 0 && s.Max < 1 {
			return nil
		}
		return &s.Params[i]
	}
	if !s.Variadic || len(s.Params) == 0 {
		return nil
	}
	if v := i - (len(s.Params) - 1); s.Max != 0 && v >= s.Max {
		return nil
	}
	return &s.Params[len(s.Params)-1]
}

func (s *FSig) discrete() bool { return s.Null == "DISCRETE" }

// matchT says whether the type has the declared kind and parameters (variables fit anything).
func matchT(p *PD, a *TD, withNull bool) bool {
	if withNull && p.Null != (a.Null == 1) {
		return false
	}
	if p.Kind == "any" {
		return true
	}
	if p.Kind != a.Kind {
		return false
	}
	num := func(s string, v int32) bool { return s == "" || isVar(s) || s == strconv.Itoa(int(v)) }
	if !num(p.P, a.P) || !num(p.S, a.S) || len(p.Kids) != len(a.Kids) {
		return false
	}
	for i := range p.Kids {
		if !matchT(p.Kids[i], a.Kids[i], withNull) {
			return false
		}
	}
	if p.Kind == "udt" {
		if len(p.UArgs) != len(a.Params) {
			return false
		}
		for i, u := range p.UArgs {
			q := a.Params[i]
			if u.Kind != q.Kind {
				return false
			}
			switch u.Kind {
			case "type":
				if !matchT(u.T, q.T, withNull) {
					return false
				}
			case "int":
				if int64(u.I) != q.I {
					return false
				}
			case "string":
				if u.Str != q.Str {
					return false
				}
			}
		}
	}
	return true
}

// walk presents each declared node with the type it stands for.
func walkBind(p *PD, a *TD, f func(*PD, *TD)) {
	f(p, a)
	if p.Kind == "any" {
		return
	}
	for i := range p.Kids {
		walkBind(p.Kids[i], a.Kids[i], f)
	}
	for i, u := range p.UArgs {
		if u.Kind == "type" {
			walkBind(u.T, a.Params[i].T, f)
		}
	}
}

// fits is the reference matcher.
func (s *FSig) fits(args []FAct) (ok bool, why string) {
	if !s.countOK(len(args)) {
		return false, "count"
	}
	for i, a := range args {
		if !s.fitsAt(i, a) {
			return false, fmt.Sprintf("arg %d", i)
		}
	}
	if s.Variadic && s.Cons != "INCONSISTENT" {
		vs := args[len(s.Params)-1:]
		for i := 1; i < len(vs); i++ {
			if vs[i].Enum != vs[0].Enum || !vs[i].Enum && !vs[i].T.withNull(2).equal(vs[0].T.withNull(2)) {
				return false, "inconsistent variadic"
			}
		}
	}
	ints := map[string]int32{}
	anys := map[string]*TD{}
	ok = true
	for i, a := range args {
		p := s.paramAt(i)
		if p.T == nil {
			continue
		}
		walkBind(p.T, a.T, func(n *PD, x *TD) {
			bind := func(v string, val int32) {
				if !isVar(v) {
					return
				}
				if old, has := ints[v]; has && old != val {
					ok, why = false, "integer variable "+v
				}
				ints[v] = val
			}
			bind(n.P, x.P)
			bind(n.S, x.S)
			if n.Kind == "any" && n.Name != "any" {
				if old, has := anys[n.Name]; has && !old.withNull(2).equal(x.withNull(2)) {
					ok, why = false, "type variable "+n.Name
				}
				anys[n.Name] = x
			}
		})
	}
	return ok, why
}

func (s *FSig) fitsAt(i int, a FAct) bool {
	p := s.paramAt(i)
	if p == nil {
		return false
	}
	if p.T == nil || a.Enum {
		return p.T == nil && a.Enum
	}
	return matchT(p.T, a.T, s.discrete())
}

// bindings are the values of the variables after the first parameters (those the return type may use).
func (s *FSig) bindings(args []FAct) (ints map[string]int32, anys map[string]*TD) {
	ints, anys = map[string]int32{}, map[string]*TD{}
	for i, p := range s.Params {
		if i >= len(args) || p.T == nil {
			continue
		}
		walkBind(p.T, args[i].T, func(n *PD, x *TD) {
			if isVar(n.P) {
				ints[n.P] = x.P
			}
			if isVar(n.S) {
				ints[n.S] = x.S
			}
			if n.Kind == "any" {
				if _, has := anys[n.Name]; !has {
					anys[n.Name] = x
				}
			}
		})
	}
	return ints, anys
}

// result is the reference type resolution of a fitting call; why is non-empty when the return type
// has no value ("overflow": arithmetic outside 64 bits, not judged).
func (s *FSig) result(args []FAct, anchor func(name string) uint32) (out *TD, why string) {
	ints, anys := s.bindings(args)
	vals := map[string]int32{}
	final := s.final()
	for k, v := range ints {
		vals[k] = v
	}
	if s.Prog != nil {
		big0 := map[string]*big.Int{}
		for k, v := range ints {
			big0[k] = big.NewInt(int64(v))
		}
		res, why := s.Prog.run(big0)
		if why != "" {
			return nil, why
		}
		vals = map[string]int32{}
		for _, v := range []string{final.P, final.S} {
			if isVar(v) {
				x, ok := res[v]
				if !ok {
					return nil, "undefined"
				}
				if !fitsInt32(x) {
					return nil, "parameter out of range"
				}
			}
		}
		for k, v := range res {
			if fitsInt32(v) {
				vals[k] = int32(v.Int64())
			}
		}
	}
	final.each(func(n *PD) {
		for _, v := range []string{n.P, n.S} {
			if _, ok := vals[v]; isVar(v) && !ok {
				why = "undefined"
			}
		}
		if n.Kind == "any" && anys[n.Name] == nil {
			why = "undefined"
		}
		if isPrecKind(n.Kind) && isVar(n.P) && (vals[n.P] < 0 || vals[n.P] > 9) && why == "" {
			why = "bad precision"
		}
	})
	if why != "" {
		return nil, why
	}
	out = final.tdAnchored(vals, anys, anchor)
	if s.Null == "" || s.Null == "MIRROR" {
		out = out.clone()
		out.Null = 2
		for _, a := range args {
			if !a.Enum && a.T.Null == 1 {
				out.Null = 1
			}
		}
	}
	return out, ""
}

// tdAnchored is td with the references of spelled user-defined types set.
func (d *PD) tdAnchored(ints map[string]int32, anys map[string]*TD, anchor func(string) uint32) *TD {
	if d.Kind == "any" {
		b := anys[d.Name].clone()
		if d.Null {
			b.Null = 1
		}
		return b
	}
	flat := *d
	flat.Kids, flat.UArgs = nil, nil
	out := flat.td(ints, anys)
	if d.Kind == "udt" {
		out.Ref = anchor(d.Name)
	}
	for _, k := range d.Kids {
		out.Kids = append(out.Kids, k.tdAnchored(ints, anys, anchor))
	}
	for _, a := range d.UArgs {
		switch a.Kind {
		case "type":
			out.Params = append(out.Params, TPD{Kind: "type", T: a.T.tdAnchored(ints, anys, anchor)})
		case "int":
			out.Params = append(out.Params, TPD{Kind: "int", I: int64(a.I)})
		default:
			out.Params = append(out.Params, TPD{Kind: "string", Str: a.Str})
		}
	}
	return out
}

var actOpts = typeGenOpts{depth: 1, noVar: true, noUnspec: true}

// instantiate makes a type that fits the declared one.
func (d *PD) instantiate(t *rapid.T, ints map[string]int32, anys map[string]*TD, nullFree bool) *TD {
	num := func(s string, prec bool) int32 {
		if s == "" {
			return 0
		}
		if isVar(s) {
			if v, ok := ints[s]; ok {
				if !prec || v <= 9 {
					return v
				}
			}
			v := rapid.Int32Range(0, 9).Draw(t, "bind")
			ints[s] = v
			return v
		}
		n, _ := strconv.Atoi(s)
		return int32(n)
	}
	null := 2
	if d.Null {
		null = 1
	}
	if nullFree {
		null = 1 + rapid.IntRange(0, 1).Draw(t, "actnull")
	}
	if d.Kind == "any" {
		b := anys[d.Name]
		if b == nil {
			b = genTD(t, actOpts)
			if d.Name != "any" {
				anys[d.Name] = b
			}
		}
		b = b.clone()
		b.Null = null
		return b
	}
	out := &TD{Kind: d.Kind, Null: null, P: num(d.P, isPrecKind(d.Kind)), S: num(d.S, false)}
	if d.Kind == "udt" {
		out.Ref = rapid.Uint32Range(0, 6).Draw(t, "ref")
	}
	for _, k := range d.Kids {
		out.Kids = append(out.Kids, k.instantiate(t, ints, anys, nullFree))
	}
	for _, a := range d.UArgs {
		switch a.Kind {
		case "type":
			out.Params = append(out.Params, TPD{Kind: "type", T: a.T.instantiate(t, ints, anys, nullFree)})
		case "int":
			out.Params = append(out.Params, TPD{Kind: "int", I: int64(a.I)})
		default:
			out.Params = append(out.Params, TPD{Kind: "string", Str: a.Str})
		}
	}
	return out
}

// genCall makes an argument list that fits, or nearly.
func (s *FSig) genCall(t *rapid.T) []FAct {
	n := len(s.Params)
	if s.Variadic {
		n = len(s.Params) - 1 + s.Min + rapid.IntRange(0, 3).Draw(t, "extra")
	}
	switch rapid.IntRange(0, 9).Draw(t, "arity") {
	case 0:
		n++
	case 1:
		n--
	case 2:
		n = rapid.IntRange(0, 7).Draw(t, "n")
	}
	nullFree := !s.discrete() || rapid.IntRange(0, 9).Draw(t, "nf") == 0
	ints, anys := map[string]int32{}, map[string]*TD{}
	var out []FAct
	for i := 0; i < n; i++ {
		var p *FParam
		if i < len(s.Params) {
			p = &s.Params[i]
		} else if len(s.Params) > 0 {
			p = &s.Params[len(s.Params)-1]
		}
		switch {
		case p == nil:
			out = append(out, FAct{T: genTD(t, actOpts)})
		case p.T == nil:
			out = append(out, FAct{Enum: true})
		default:
			if i >= len(s.Params) && s.Variadic && s.Cons != "INCONSISTENT" && !out[len(out)-1].Enum && rapid.IntRange(0, 7).Draw(t, "same") > 0 {
				prev := out[len(out)-1].T.clone()
				if nullFree {
					prev.Null = 1 + rapid.IntRange(0, 1).Draw(t, "vnull")
				}
				out = append(out, FAct{T: prev})
				continue
			}
			out = append(out, FAct{T: p.T.instantiate(t, ints, anys, nullFree)})
		}
	}
	if len(out) > 0 && rapid.IntRange(0, 9).Draw(t, "mutate") < 4 {
		i := rapid.IntRange(0, len(out)-1).Draw(t, "mi")
		switch {
		case out[i].Enum || rapid.IntRange(0, 12).Draw(t, "toenum") == 0:
			if out[i].Enum {
				out[i] = FAct{T: genTD(t, actOpts)}
			} else if pr := s.paramAt(i); pr != nil && pr.T != nil && pr.T.Kind == "any" {
				// whether an enumeration argument is of "any" type is not defined
			} else {
				out[i] = FAct{Enum: true}
			}
		case rapid.IntRange(0, 5).Draw(t, "whole") == 0:
			out[i] = FAct{T: genTD(t, actOpts)}
		default:
			m, what := mutateTD(t, out[i].T)
			ok := true
			m.each(func(n *TD) { ok = ok && n.Null != 0 && n.Var == 0 })
			if ok && what != "" {
				out[i] = FAct{T: m}
			}
		}
	}
	return out
}

func (d *TD) each(f func(*TD)) {
	f(d)
	for _, k := range d.Kids {
		k.each(f)
	}
	for _, p := range d.Params {
		if p.T != nil {
			p.T.each(f)
		}
	}
}

func (d *TD) hasKind(k string) bool {
	r := false
	d.each(func(n *TD) { r = r || n.Kind == k })
	return r
}

func buildActs(args []FAct) []types.Type {
	var out []types.Type
	for _, a := range args {
		if a.Enum {
			out = append(out, types.CommonEnumType)
		} else {
			out = append(out, a.T.build())
		}
	}
	return out
}

func actsText(args []FAct) string {
	var out []string
	for _, a := range args {
		out = append(out, a.String())
	}
	return "(" + strings.Join(out, "; ") + ")"
}

// load puts the declaration into a fresh collection and returns its variant (for an aggregate, one
// of its two lives: as aggregate or as window function).
func (s *FSig) load(c *C) (extensions.FunctionVariant, *extensions.Collection) {
	col := &extensions.Collection{}
	y := s.yaml()
	if err := col.Load(strings.NewReader(y)); err != nil {
		c.Fail("load", "extension file is refused: %v\n%s", err, y)
	}
	var v extensions.FunctionVariant
	n := 0
	switch s.Kind {
	case "scalar":
		for _, f := range col.GetAllScalarFunctions() {
			v = f
			n++
		}
	case "aggregate":
		if rapid.Bool().Draw(c.T, "aswindow") {
			for _, f := range col.GetAllWindowFunctions() {
				v = f
				n++
			}
			break
		}
		for _, f := range col.GetAllAggregateFunctions() {
			v = f
			n++
		}
	case "window":
		for _, f := range col.GetAllWindowFunctions() {
			v = f
			n++
		}
	}
	c.Check(n == 1, "load_count", "%d functions loaded from\n%s", n, y)
	return v, col
}

func declText(v extensions.FunctionVariant) string {
	var b strings.Builder
	for _, a := range v.Args() {
		fmt.Fprintf(&b, "%v;", a.GetTypeExpression())
	}
	fmt.Fprintf(&b, "%+v", v.Variadic())
	return b.String()
}
