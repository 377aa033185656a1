package pbt

import (
	"fmt"
	"slices"
	"strings"
	"testing"

	"github.com/substrait-io/substrait-go/v8/extensions"
	"github.com/substrait-io/substrait-go/v8/types"
	"github.com/substrait-io/substrait-go/v8/types/parser"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"
)

var allAnys = []string{"any", "any1", "any2", "any9"}
var allVars = []string{"P", "S", "L1"}

func matchOf(c *C, v extensions.FunctionVariant, args []types.Type) bool {
	var ok bool
	var err error
	c.NoPanic("Match", func() { ok, err = v.Match(args) })
	return ok && err == nil
}

func TestF01(t *testing.T) {
	p := start(t, "F01", "function declarations (0-4 parameters of any declarable type incl. enums, integer and type variables; every nullability mode; variadic limits and consistency) loaded "+
		"from generated extension files, against argument lists that fit or differ in count, kind, parameter, nesting or nullability, judged by a reference matcher; "+
		"non-trivial = at least one argument and one parameter")
	defer p.finish()

	p.sub("match", 4000, func(c *C) {
		s := genSig(c.T, sigOpts{anys: allAnys, vars: allVars, maxParams: 4, depth: 2})
		s.genRet(c.T, false)
		v, _ := s.load(c)
		decl := declText(v)
		for k := 0; k < 4; k++ {
			args := s.genCall(c.T)
			acts := buildActs(args)
			c.Case(len(args) > 0 && len(s.Params) > 0, "%s called with %s", s, actsText(args))
			want, why := s.fits(args)
			got := matchOf(c, v, acts)
			if want {
				c.Label("fits")
				c.Check(got, "rejects", "the call fits but is not matched")
			} else {
				c.Label("no:" + why)
				c.Check(!got, "accepts", "the call does not fit (%s) but is matched", why)
			}
			for i := -1; i < len(args)+1; i++ {
				var a FAct
				if len(args) > 0 {
					a = args[max(0, min(i, len(args)-1))]
				} else {
					a = FAct{T: &TD{Kind: "i32", Null: 2}}
				}
				ty := buildActs([]FAct{a})[0]
				var ok bool
				var err error
				c.NoPanic("MatchAt", func() { ok, err = v.MatchAt(ty, i) })
				if i < 0 {
					c.Check(!ok && err != nil, "match_at_negative", "MatchAt(%s, %d) gives %v, %v", ty, i, ok, err)
					continue
				}
				if pr := s.paramAt(i); a.Enum && pr != nil && pr.T != nil && pr.T.Kind == "any" {
					continue
				}
				c.Check((ok && err == nil) == s.fitsAt(i, a), "match_at", "MatchAt(%s, %d) gives %v, %v", a, i, ok, err)
			}
			// resolution accepts the same calls
			reg := extensions.NewSet()
			var rt types.Type
			var err error
			c.NoPanic("ResolveType", func() { rt, err = v.ResolveType(acts, reg) })
			if !want {
				c.Check(err != nil, "resolves_unmatched", "resolves to %v although the call does not fit (%s)", rt, why)
			} else if _, why := s.result(args, func(string) uint32 { return 0 }); why == "" {
				c.Check(err == nil, "resolve_rejects", "the call fits but does not resolve: %v", err)
			}
		}
		c.Check(declText(v) == decl, "declaration_changed", "declaration %s became %s", decl, declText(v))
	})

	p.sub("type_arguments", 600, func(c *C) {
		// arguments of a call have types; none of them is a type, so a declaration that wants one matches nothing
		s := genSig(c.T, sigOpts{anys: allAnys, vars: allVars, maxParams: 4, depth: 1})
		s.genRet(c.T, false)
		at := rapid.IntRange(0, len(s.Params)).Draw(c.T, "position")
		if s.Variadic && at == len(s.Params) && at > 0 {
			at--
		}
		rest := *s
		rest.Params = slices.Clone(s.Params)
		s.Params = slices.Insert(s.Params, at, FParam{Typ: rapid.SampledFrom([]string{"i32", "any1", "string", "decimal<P,S>"}).Draw(c.T, "type")})
		v, _ := s.load(c)
		args := rest.genCall(c.T)

		c.Case(len(args) > 0, "%s called with %s", s.yaml(), actsText(args))
		for _, a := range [][]FAct{args, slices.Insert(slices.Clone(args), min(at, len(args)), FAct{T: genTD(c.T, actOpts)})} {
			if len(a) == 0 {
				continue
			}
			acts := buildActs(a)
			var ok bool
			var rt types.Type
			var err error
			c.NoPanic("Match", func() { ok, err = v.Match(acts) })
			c.Check(!ok, "type_argument_matched", "(%s) matches", actsText(a))
			for i, ty := range acts {
				c.NoPanic("MatchAt", func() { ok, err = v.MatchAt(ty, i) })
				c.Check(!ok, "type_argument_matched_at", "MatchAt(%s, %d) is true", ty, i)
			}
			c.NoPanic("ResolveType", func() { rt, err = v.ResolveType(acts, extensions.NewSet()) })
			c.Check(err != nil, "type_argument_resolved", "(%s) resolves to %v", actsText(a), rt)
		}
	})

	p.sub("counts", 1500, func(c *C) {
		s := genSig(c.T, sigOpts{maxParams: 4, depth: 1})
		s.genRet(c.T, false)
		v, _ := s.load(c)
		c.Case(s.Variadic, "%s", s)
		lo, hi := len(s.Params), len(s.Params)
		if s.Variadic {
			lo, hi = len(s.Params)-1+s.Min, len(s.Params)-1+s.Max
		}
		if got := v.MinArgumentCount(); got != lo {
			if s.Variadic && got == len(s.Params)+s.Min {
				c.Soft("min_count_counts_variadic_parameter", "MinArgumentCount is %d, the shortest accepted list has %d", got, lo)
			} else {
				c.Fail("min_count", "MinArgumentCount is %d, want %d", got, lo)
			}
		}
		if got := v.MaxArgumentCount(); got != hi {
			if s.Variadic && got == len(s.Params)+s.Max {
				c.Soft("max_count_counts_variadic_parameter", "MaxArgumentCount is %d, the longest accepted list has %d", got, hi)
			} else {
				c.Fail("max_count", "MaxArgumentCount is %d, want %d", got, hi)
			}
		}
	})

	p.sub("variadic_counts", 1200, func(c *C) {
		// the bounds themselves, and type evaluation on lists that differ in length only
		s := genSig(c.T, sigOpts{maxParams: 3, depth: 0, noEnum: true})
		s.Ret = &PD{Kind: "i32"}
		if s.Cons == "INCONSISTENT" {
			s.Cons = ""
		}
		v, _ := s.load(c)
		c.Case(s.Variadic, "%s", s)
		if s.Variadic {
			vb := v.Variadic()
			c.Check(vb != nil, "no_variadic", "%s has no variadic behavior", s)
			for k := 0; k <= s.Min+s.Max+3; k++ {
				want := k >= s.Min && (s.Max == 0 || k <= s.Max)
				c.Check(vb.IsValidArgumentCount(k) == want, "valid_count", "%d variadic arguments for %d..%d", k, s.Min, s.Max)
				wantAt := s.Max == 0 || k < s.Max
				c.Check(vb.IsValidArgumentPosition(k) == wantAt, "valid_position", "variadic position %d for %d..%d", k, s.Min, s.Max)
			}
			c.Check(!vb.IsValidArgumentPosition(-1) && !vb.IsValidArgumentCount(-1), "valid_negative", "negative counts are valid")
		} else {
			c.Check(v.Variadic() == nil, "variadic", "%s is variadic", s)
		}
		args := make([]types.Type, 0, 9)
		for n := 0; n <= len(s.Params)+s.Min+s.Max+2; n++ {
			if n > 0 && len(s.Params) == 0 {
				break
			}
			if n > 0 {
				a := s.Params[min(n, len(s.Params))-1].T.td(nil, nil)
				args = append(args, a.build())
			}
			_, err := extensions.EvaluateTypeExpression("extension:verif:funcs", extensions.NullabilityHandling(s.Null), mustParseRet(c), v.Args(), v.Variadic(), args, extensions.NewSet())
			c.Check((err == nil) == s.countOK(n), "evaluate_count", "%d arguments for %s: %v", n, s, err)
		}
	})

	p.sub("simple_types", 3000, func(c *C) {
		// one concrete parameter against one type: kinds, parameters and nested parts are told apart
		d := genPD(c.T, pdOpts{depth: 2, nullProb: 4, udtArgs: true})
		s := &FSig{Kind: "scalar", Params: []FParam{{T: d}}, Ret: &PD{Kind: "i32"}, Null: rapid.SampledFrom([]string{"MIRROR", "DISCRETE", "DECLARED_OUTPUT"}).Draw(c.T, "mode")}
		v, _ := s.load(c)
		a := d.instantiate(c.T, map[string]int32{}, map[string]*TD{}, rapid.Bool().Draw(c.T, "nf"))
		if rapid.IntRange(0, 2).Draw(c.T, "m") > 0 {
			m, _ := mutateTD(c.T, a)
			ok := true
			m.each(func(n *TD) { ok = ok && n.Null != 0 && n.Var == 0 })
			if ok {
				a = m
			}
		}
		c.Case(true, "%s for parameter %s (%s)", a, d, s.Null)
		want := matchT(d, a, s.discrete())
		c.Check(matchOf(c, v, []types.Type{a.build()}) == want, "match_one:"+d.Kind, "match is %v, want %v", !want, want)
	})
}

func TestF02(t *testing.T) {
	p := start(t, "F02", "function declarations with return types over the bound integer and type variables (concrete, nested, user-defined, derivation programs), called with sequences of fitting and "+
		"non-fitting argument lists, judged by a reference resolution; non-trivial = a fitting call with at least one argument")
	defer p.finish()

	p.sub("resolve", 4000, func(c *C) {
		s := genSig(c.T, sigOpts{anys: allAnys, vars: allVars, maxParams: 3, depth: 2})
		s.genRet(c.T, true)
		v, _ := s.load(c)
		decl := declText(v)
		reg := extensions.NewSet()
		if rapid.Bool().Draw(c.T, "preset") {
			reg.GetTypeAnchor(extensions.TypeID{URN: fURN, Name: rapid.SampledFrom(udtNames).Draw(c.T, "pre")})
		}
		anchor := func(n string) uint32 { return reg.GetTypeAnchor(extensions.TypeID{URN: fURN, Name: n}) }
		type done struct {
			args []FAct
			got  types.Type
			want *TD
			err  bool
		}
		var hist []done
		check := func(args []FAct, rt types.Type, err error) *TD {
			ok, why := s.fits(args)
			if !ok {
				c.Check(err != nil, "resolves_unmatched", "resolves to %v although the call does not fit (%s)", rt, why)
				return nil
			}
			// spelled user-defined types must have been registered by the resolution itself
			want, why := s.result(args, anchor)
			switch why {
			case "":
			case "overflow", "bad precision":
				return nil
			default:
				c.Check(err != nil, "resolves_undefined", "resolves to %v although the return type has no value (%s)", rt, why)
				return nil
			}
			c.Check(err == nil && rt != nil, "resolve_error", "does not resolve (%v), want %s", err, want)
			c.Check(protoEq(types.TypeToProto(rt), want.proto()), "result", "resolves to %s, want %s", tdOf(rt), want)
			return want
		}
		n := rapid.IntRange(1, 5).Draw(c.T, "ncalls")
		for k := 0; k < n; k++ {
			args := s.genCall(c.T)
			acts := buildActs(args)
			ok, _ := s.fits(args)
			c.Case(ok && len(args) > 0, "%s called with %s (call %d)", s, actsText(args), k)
			var before []proto.Message
			for i, a := range args {
				if !a.Enum {
					before = append(before, types.TypeToProto(acts[i]))
				} else {
					before = append(before, nil)
				}
			}
			var rt types.Type
			var err error
			c.NoPanic("ResolveType", func() { rt, err = v.ResolveType(acts, reg) })
			w := check(args, rt, err)
			if w != nil {
				c.Label("resolved:" + s.Null)
			}
			for i := range before {
				if before[i] != nil {
					c.Check(protoEq(types.TypeToProto(acts[i]), before[i]), "argument_changed", "argument %d became %s", i, acts[i])
				}
			}
			hist = append(hist, done{args, rt, w, err != nil})
		}
		for _, h := range hist {
			if h.want != nil {
				c.Check(protoEq(types.TypeToProto(h.got), h.want.proto()), "earlier_result_changed", "the result of %s became %s", actsText(h.args), h.got)
			}
			rt, err := v.ResolveType(buildActs(h.args), reg)
			c.Check((err != nil) == h.err, "history", "resolving %s again gives %v, %v", actsText(h.args), rt, err)
			check(h.args, rt, err)
		}
		c.Check(declText(v) == decl, "declaration_changed", "declaration %s became %s", decl, declText(v))
	})

	p.sub("mirror", 3000, func(c *C) {
		// nullability of the result by mode, with the nullability of each argument drawn freely
		s := &FSig{Kind: rapid.SampledFrom([]string{"scalar", "aggregate", "window"}).Draw(c.T, "kind"), Null: rapid.SampledFrom([]string{"", "MIRROR", "DECLARED_OUTPUT", "DISCRETE"}).Draw(c.T, "mode")}
		n := rapid.IntRange(1, 4).Draw(c.T, "n")
		for i := 0; i < n; i++ {
			s.Params = append(s.Params, FParam{T: genPD(c.T, pdOpts{depth: 1, vars: allVars, nullProb: 3})})
		}
		if rapid.Bool().Draw(c.T, "variadic") {
			s.Variadic, s.Min = true, rapid.IntRange(0, 2).Draw(c.T, "min")
			s.Cons = rapid.SampledFrom([]string{"", "INCONSISTENT"}).Draw(c.T, "cons")
			if s.Cons != "" {
				s.Params[n-1].T = s.Params[n-1].T.noIntVars()
			}
		}
		s.Ret = genPD(c.T, pdOpts{depth: 1, nullProb: 5})
		v, _ := s.load(c)
		reg := extensions.NewSet()
		args := s.genCall(c.T)
		ok, _ := s.fits(args)
		c.Case(ok, "%s called with %s", s, actsText(args))
		if !ok {
			return
		}
		rt, err := v.ResolveType(buildActs(args), reg)
		c.Check(err == nil, "resolve_error", "does not resolve: %v", err)
		want, _ := s.result(args, func(n string) uint32 { return reg.GetTypeAnchor(extensions.TypeID{URN: fURN, Name: n}) })
		c.Check(int(rt.GetNullability()) == want.Null, "nullability:"+s.Null, "nullability of %s is %v, want %v", rt, rt.GetNullability(), types.Nullability(want.Null))
		c.Check(protoEq(types.TypeToProto(rt), want.proto()), "result", "resolves to %s, want %s", tdOf(rt), want)
	})
}

func TestF03(t *testing.T) {
	p := start(t, "F03", "signatures whose parameters (2-4, nested, variadic) repeat numbered and unnumbered type variables and integer variables, and argument lists that bind them consistently or differ at "+
		"one place at any depth; non-trivial = some variable is used at least twice")
	defer p.finish()

	p.sub("agree", 5000, func(c *C) {
		o := sigOpts{maxParams: 4, depth: 2, noEnum: true, repeat: true, noUDT: rapid.Bool().Draw(c.T, "noudt")}
		switch rapid.IntRange(0, 2).Draw(c.T, "which") {
		case 0:
			o.anys = []string{"any1", "any1", "any2"}
		case 1:
			o.vars = []string{"P", "S"}
		case 2:
			o.anys, o.vars = []string{"any1", rapid.SampledFrom([]string{"any2", "any3", "any4", "any5", "any6", "any7", "any8", "any9"}).Draw(c.T, "anyn"), "any"}, []string{"P", "L1"}
		}
		s := genSig(c.T, o)
		if rapid.IntRange(0, 2).Draw(c.T, "shape") == 0 {
			// the same variable at two chosen places
			use := &PD{Kind: "any", Name: rapid.SampledFrom([]string{"any1", "any1", "any2", "any5", "any9"}).Draw(c.T, "usename")}
			if len(o.vars) > 0 {
				use = &PD{Kind: rapid.SampledFrom([]string{"varchar", "fixedchar", "fixedbinary"}).Draw(c.T, "vk"), P: "L1"}
			}
			for i := range s.Params {
				s.Params[i].T = wrapPD(c.T, use.clone(), rapid.IntRange(0, 2).Draw(c.T, "wrap"))
			}
			if s.Variadic && s.Cons == "INCONSISTENT" {
				s.Params[len(s.Params)-1].T = s.Params[len(s.Params)-1].T.noIntVars()
			}
		}
		s.genRet(c.T, false)
		v, _ := s.load(c)
		for k := 0; k < 4; k++ {
			args := s.genCall(c.T)
			uses := map[string]int{}
			for i, pr := range s.Params {
				_ = i
				pr.T.each(func(n *PD) {
					for _, x := range []string{n.P, n.S, n.Name} {
						if x != "any" && (isVar(x)) {
							uses[x]++
						}
					}
				})
			}
			rep := s.Variadic
			for _, n := range uses {
				rep = rep || n > 1
			}
			c.Case(rep, "%s called with %s", s, actsText(args))
			want, why := s.fits(args)
			got := matchOf(c, v, buildActs(args))
			if want {
				c.Label("consistent")
				c.Check(got, "rejects_consistent", "the arguments agree but are not matched")
			} else {
				c.Label("no:" + why)
				c.Check(!got, "accepts_inconsistent", "matched although %s", why)
			}
			reg := extensions.NewSet()
			var rt types.Type
			var err error
			c.NoPanic("ResolveType", func() { rt, err = v.ResolveType(buildActs(args), reg) })
			if !want {
				c.Check(err != nil, "resolves_inconsistent", "resolves to %v although %s", rt, why)
				continue
			}
			w, why := s.result(args, func(n string) uint32 { return reg.GetTypeAnchor(extensions.TypeID{URN: fURN, Name: n}) })
			if why == "bad precision" {
				continue
			}
			if why != "" {
				c.Check(err != nil, "resolves_unbound", "resolves to %v although a variable of the return type is not bound", rt)
				continue
			}
			c.Check(err == nil, "resolve_error", "does not resolve: %v", err)
			c.Check(protoEq(types.TypeToProto(rt), w.proto()), "bound_value", "resolves to %s, want %s", tdOf(rt), w)
		}
	})

	p.sub("direct", 2500, func(c *C) {
		// the exported consistency check on its own, over expanded variadic lists
		s := genSig(c.T, sigOpts{maxParams: 3, depth: 2, noEnum: true, repeat: true, anys: []string{"any1", "any1", "any2", "any"}})
		args := s.genCall(c.T)
		if len(args) < len(s.Params) {
			return
		}
		if !s.Variadic && len(args) != len(s.Params) {
			return
		}
		for i, a := range args {
			if a.Enum || !matchT(s.Params[min(i, len(s.Params)-1)].T, a.T, false) {
				return
			}
		}
		if len(args) > 0 && pct(c.T, 30) {
			// a type variation makes it a different type
			i := rapid.IntRange(0, len(args)-1).Draw(c.T, "vary")
			m := args[i].T.clone()
			var nodes []*TD
			m.each(func(n *TD) {
				if n.Kind != "func" { // which has no variations
					nodes = append(nodes, n)
				}
			})
			if len(nodes) > 0 {
				nodes[rapid.IntRange(0, len(nodes)-1).Draw(c.T, "vnode")].Var = rapid.SampledFrom([]uint32{1, 7}).Draw(c.T, "variation")
			}
			args[i].T = m
		}
		anys := map[string]*TD{}
		want := true
		for i, a := range args {
			walkBind(s.Params[min(i, len(s.Params)-1)].T, a.T, func(n *PD, x *TD) {
				if n.Kind == "any" && n.Name != "any" {
					if old, has := anys[n.Name]; has && !old.withNull(2).equal(x.withNull(2)) {
						want = false
					}
					anys[n.Name] = x
				}
			})
		}
		c.Case(len(anys) > 0, "%s called with %s", s, actsText(args))
		var ps []types.FuncDefArgType
		for _, pr := range s.Params {
			ps = append(ps, pr.T.def())
		}
		var vb *extensions.VariadicBehavior
		if s.Variadic {
			vb = &extensions.VariadicBehavior{Min: s.Min, Max: s.Max}
		}
		err := extensions.ValidateConstrainedAnyTypeConsistency(ps, buildActs(args), vb)
		c.Check((err == nil) == want, "consistency", "consistency check gives %v, agreement is %v", err, want)
	})

	p.sub("sync_params", 2000, func(c *C) {
		n := rapid.IntRange(1, 4).Draw(c.T, "n")
		var ds []*PD
		var ps []types.FuncDefArgType
		for i := 0; i < n; i++ {
			d := genPD(c.T, pdOpts{depth: 2, vars: []string{"P", "S", "L1", "L2", "K"}, nullProb: 2})
			d = d.onlyVars()
			ds = append(ds, d)
			ps = append(ps, d.def())
		}
		seen := map[string]bool{}
		want := false
		for _, d := range ds {
			mine := map[string]bool{}
			d.each(func(x *PD) {
				for _, v := range []string{x.P, x.S} {
					if isVar(v) {
						mine[v] = true
					}
				}
			})
			for v := range mine {
				want = want || seen[v]
				seen[v] = true
			}
		}
		c.Case(want, "%v", ds)
		got := false
		c.NoPanic("HasSyncParams", func() { got = extensions.HasSyncParams(ps) })
		c.Check(got == want, "has_sync_params", "HasSyncParams is %v", got)
	})
}

// onlyVars drops concrete integer parameters (their bare numbers are not variables).
func (d *PD) onlyVars() *PD {
	o := d.clone()
	o.each(func(n *PD) {
		if isVar(n.P) != isVar(n.S) && n.Kind == "decimal" {
			n.P, n.S = "P", "S"
		}
	})
	return o
}

func wrapPD(t *rapid.T, d *PD, depth int) *PD {
	for ; depth > 0; depth-- {
		switch rapid.SampledFrom([]string{"list", "mapk", "mapv", "struct", "func", "funcret", "udt"}).Draw(t, "wk") {
		case "list":
			d = &PD{Kind: "list", Kids: []*PD{d}}
		case "mapk":
			d = &PD{Kind: "map", Kids: []*PD{d, {Kind: "i32"}}}
		case "mapv":
			d = &PD{Kind: "map", Kids: []*PD{{Kind: "string"}, d}}
		case "struct":
			d = &PD{Kind: "struct", Kids: []*PD{{Kind: "i8"}, d}}
		case "func":
			d = &PD{Kind: "func", Kids: []*PD{d, {Kind: "boolean"}}}
		case "funcret":
			d = &PD{Kind: "func", Kids: []*PD{{Kind: "i64"}, d}}
		case "udt":
			d = &PD{Kind: "udt", Name: "point", UArgs: []PDArg{{Kind: "type", T: d}}}
		}
	}
	return d
}

func TestF04(t *testing.T) {
	p := start(t, "F04", "derivation programs (1-5 assignments over + - * / comparisons and or not if ?: min max abs, reassignment, numbers up to 2^40) over bound argument parameters, final types with the "+
		"computed parameters, judged by a big-integer interpreter; non-trivial = the program evaluates without a 64-bit overflow")
	defer p.finish()

	run := func(c *C, s *FSig, v extensions.FunctionVariant, args []FAct) {
		reg := extensions.NewSet()
		var rt types.Type
		var err error
		want, why := s.result(args, func(n string) uint32 { return reg.GetTypeAnchor(extensions.TypeID{URN: fURN, Name: n}) })
		c.Case(why != "overflow", "%s called with %s gives %v %s", s, actsText(args), want, why)
		c.NoPanic("ResolveType", func() { rt, err = v.ResolveType(buildActs(args), reg) })
		c.Label(fmt.Sprintf("outcome:%s", why))
		switch why {
		case "":
			c.Check(err == nil, "error", "does not resolve: %v, want %s", err, want)
			c.Check(protoEq(types.TypeToProto(rt), want.proto()), "value", "resolves to %s, want %s", tdOf(rt), want)
		case "overflow", "bad precision":
		default:
			c.Check(err != nil, "accepts:"+why, "resolves to %v although: %s", rt, why)
		}
	}

	p.sub("programs", 4000, func(c *C) {
		s := &FSig{Kind: "scalar", Null: rapid.SampledFrom([]string{"MIRROR", "DECLARED_OUTPUT"}).Draw(c.T, "mode")}
		shapes := []*PD{
			{Kind: "decimal", P: "P1", S: "S1"}, {Kind: "decimal", P: "P2", S: "S2"}, {Kind: "varchar", P: "L1"}, {Kind: "fixedchar", P: "L2"},
			{Kind: "fixedbinary", P: "n"}, {Kind: "precision_timestamp", P: "T1"}, {Kind: "list", Kids: []*PD{{Kind: "decimal", P: "P3", S: "S3"}}},
			{Kind: "struct", Kids: []*PD{{Kind: "i32"}, {Kind: "varchar", P: "L3"}}}, {Kind: "interval_day", P: "D"},
		}
		n := rapid.IntRange(1, 3).Draw(c.T, "n")
		for _, i := range rapid.SliceOfNDistinct(rapid.IntRange(0, len(shapes)-1), n, n, rapid.ID[int]).Draw(c.T, "shapes") {
			s.Params = append(s.Params, FParam{T: shapes[i]})
		}
		s.Prog = genProgram(c.T, s.intVars(), false)
		if rapid.IntRange(0, 14).Draw(c.T, "undef") == 0 {
			s.Prog.assigns = append(s.Prog.assigns, passign{"w", &PE{op: "+", kids: []*PE{{op: "var", name: "nowhere"}, {op: "num", n: 1}}}})
		}
		v, _ := s.load(c)
		for k := 0; k < 3; k++ {
			ints := map[string]int32{}
			for _, x := range s.intVars() {
				if x == "T1" || x == "D" {
					continue
				}
				ints[x] = rapid.OneOf(rapid.Int32Range(0, 38), rapid.Int32Range(0, 2147483647)).Draw(c.T, "val")
			}
			var args []FAct
			for _, pr := range s.Params {
				args = append(args, FAct{T: pr.T.instantiate(c.T, ints, nil, true)})
			}
			run(c, s, v, args)
		}
	})

	p.sub("nested_final", 3000, func(c *C) {
		// the computed parameters appear anywhere inside the final type
		s := &FSig{Kind: rapid.SampledFrom([]string{"scalar", "aggregate", "window"}).Draw(c.T, "kind"), Null: rapid.SampledFrom([]string{"", "MIRROR", "DECLARED_OUTPUT"}).Draw(c.T, "mode"),
			Params: []FParam{{T: &PD{Kind: "decimal", P: "P", S: "S"}}, {T: &PD{Kind: "list", Kids: []*PD{{Kind: "varchar", P: "L"}}}}}}
		var anys []string
		if rapid.Bool().Draw(c.T, "any") {
			s.Params = append(s.Params, FParam{T: &PD{Kind: "any", Name: "any1"}})
			anys = []string{"any1"}
		}
		s.Prog = genProgram(c.T, []string{"P", "S", "L"}, false)
		names := []string{"P", "S", "L"}
		for _, a := range s.Prog.assigns {
			if !strings.Contains(a.name, "b") && !contains(names, a.name) { // boolean variables have a b
				names = append(names, a.name)
			}
		}
		if rapid.IntRange(0, 9).Draw(c.T, "undef") == 9 {
			names = append(names, "nowhere")
		}
		for i := 0; i < 6; i++ {
			s.Prog.final = genPD(c.T, pdOpts{depth: 3, vars: names, anys: anys, nullProb: 3, udtArgs: true})
			if len(s.Prog.final.Kids)+len(s.Prog.final.UArgs) > 0 {
				break
			}
		}
		v, _ := s.load(c)
		for k := 0; k < 3; k++ {
			ints := map[string]int32{}
			for _, x := range s.intVars() {
				ints[x] = rapid.OneOf(rapid.Int32Range(0, 9), rapid.Int32Range(0, 38), rapid.Int32Range(0, 2147483647)).Draw(c.T, "val")
			}
			bound := map[string]*TD{}
			var args []FAct
			for _, pr := range s.Params {
				args = append(args, FAct{T: pr.T.instantiate(c.T, ints, bound, true)})
			}
			run(c, s, v, args)
		}
	})

	p.sub("operators", 3000, func(c *C) {
		// one formula over two lengths, result shown in a length
		ints := []string{"a", "b"}
		var e *PE
		if rapid.Bool().Draw(c.T, "bool") {
			e = &PE{op: rapid.SampledFrom([]string{"if", "tern"}).Draw(c.T, "op"), kids: []*PE{genBoolExpr(c.T, 2, ints, nil), {op: "num", n: 1}, {op: "num", n: 2}}}
		} else {
			e = genIntExpr(c.T, 2, ints, nil)
		}
		if pct(c.T, 15) {
			// somewhere in it a boolean instead of an integer, or the other way round
			x := e
			for len(x.kids) > 0 {
				i := pick(c.T, len(x.kids))
				if len(x.kids[i].kids) == 0 || pct(c.T, 40) {
					if _, isNum := map[string]bool{"num": true, "var": true, "+": true, "-": true, "*": true, "/": true, "min": true, "max": true, "abs": true}[x.kids[i].op]; isNum {
						x.kids[i] = genBoolExpr(c.T, 0, ints, nil)
					} else {
						x.kids[i] = genIntExpr(c.T, 0, ints, nil)
					}
					break
				}
				x = x.kids[i]
			}
			c.Label("ill-typed")
		}
		s := &FSig{Kind: "scalar", Params: []FParam{{T: &PD{Kind: "varchar", P: "a"}}, {T: &PD{Kind: "fixedchar", P: "b"}}}, Null: "MIRROR",
			Prog: &prog{assigns: []passign{{"r", e}}, final: &PD{Kind: "varchar", P: "r"}, upper: rapid.Bool().Draw(c.T, "up")}}
		v, _ := s.load(c)
		for k := 0; k < 3; k++ {
			a, b := rapid.Int32Range(0, 12).Draw(c.T, "a"), rapid.Int32Range(0, 12).Draw(c.T, "b")
			run(c, s, v, []FAct{{T: &TD{Kind: "varchar", P: a, Null: 2}}, {T: &TD{Kind: "fixedchar", P: b, Null: 2}}})
		}
	})
}

func mustParseRet(c *C) types.FuncDefArgType {
	ft, err := parser.ParseType("i32")
	c.Check(err == nil, "i32", "%v", err)
	return ft
}
