package pbt

// E06: what a function call, and an expression as a whole, reports about itself.

import (
	"strings"
	"testing"

	"github.com/substrait-io/substrait-go/v8/expr"
	ext "github.com/substrait-io/substrait-go/v8/extensions"
	"github.com/substrait-io/substrait-go/v8/plan"
	"github.com/substrait-io/substrait-go/v8/types"
	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	"pgregory.net/rapid"
)

// scalar says whether an expression has no window function and no lambda among its operands, and
// whether that question is settled for it.
func (e *EX) scalar() (yes, settled bool) {
	yes, settled = true, true
	if e.K == "window" || e.K == "lambda" {
		return false, true
	}
	if e.K == "ref" {
		return true, e.RootEx == nil
	}
	for _, k := range e.Kids {
		y, s := k.scalar()
		if !y && s {
			return false, true
		}
		yes, settled = yes && y, settled && s
	}
	return yes, settled
}

func TestE06(t *testing.T) {
	p := start(t, "E06", "calls of functions of a generated extension file whose entries vary in every attribute (determinism, session dependence, variadic behaviour, decomposability, "+
		"intermediate type, ordering, maximal set size, window type, options), by every route and read back; functions made on the fly; and expressions of every kind nested to depth 4; "+
		"non-trivial = a call was made, or the tree has at least 3 expressions")
	defer p.finish()

	p.sub("declared", 2500, func(c *C) {
		f := genXFile(c.T, "extension:verif:lib", nil, 3)
		text := yText(f.doc(c.T), yStyle(c.T))
		col := &ext.Collection{}
		err := col.Load(strings.NewReader(text))
		made := 0
		defer func() { c.Case(made > 0, "%s", text) }()
		if err != nil {
			return // X02
		}
		explicit := map[string]bool{}
		for _, fn := range f.Funcs {
			for _, m := range fn.Impls {
				explicit[fn.Kind+" "+m.compound(fn.Name)] = true
			}
		}
		for _, fn := range f.Funcs {
			for _, m := range fn.Impls {
				usable := m.compound(fn.Name) != ""
				for _, a := range m.Args {
					usable = usable && !a.IsType
				}
				if !usable {
					continue
				}
				id := ext.FunctionID{URN: f.URN, Name: m.compound(fn.Name)}
				s := m.sig(fn.Kind)
				acts := s.genCall(c.T)
				if ok, _ := s.fits(acts); !ok {
					continue
				}
				b := plan.NewBuilder(col)
				eb := b.GetExprBuilder()
				reg := eb.Reg
				want, why := s.result(acts, func(n string) uint32 { return reg.GetTypeAnchor(ext.TypeID{URN: f.URN, Name: n}) })
				if why != "" {
					continue
				}
				made++
				c.Label(fn.Kind)
				var fa []types.FuncArg
				var ba []expr.FuncArgBuilder
				for i, a := range acts {
					if a.Enum {
						v := types.Enum(rapid.SampledFrom([]string{"YEAR", "x"}).Draw(c.T, "enum"))
						fa, ba = append(fa, v), append(ba, eb.Enum(string(v)))
						continue
					}
					x := &expr.DynamicParameter{OutputType: a.T.build(), ParameterReference: uint32(i)}
					fa, ba = append(fa, x), append(ba, eb.Expression(x))
				}
				var opts []*types.FunctionOption
				for i := rapid.IntRange(0, 2).Draw(c.T, "nopts"); i > 0; i-- {
					opts = append(opts, &types.FunctionOption{Name: rapid.SampledFrom([]string{"overflow", "rounding"}).Draw(c.T, "opt"), Preference: []string{rapid.SampledFrom([]string{"SILENT", "ERROR"}).Draw(c.T, "pref"), "Z"}})
				}
				inv, ph := types.AggInvocationAll, types.AggPhaseInitialToResult
				if rapid.Bool().Draw(c.T, "distinct") {
					inv = types.AggInvocationDistinct
				}
				common := func(g eAnyFn, where string) {
					where = fn.Kind + " by " + where
					c.Check(g.Name() == fn.Name && g.CompoundName() == id.Name && g.ID() == id, "name", "%s: %q %q %v, want %v", where, g.Name(), g.CompoundName(), g.ID(), id)
					c.Check(g.Deterministic() == (m.Det != "false"), "deterministic", "%s: %v, declared %q", where, g.Deterministic(), m.Det)
					c.Check(g.SessionDependant() == m.Sess, "session_dependent", "%s: %v, declared %v", where, g.SessionDependant(), m.Sess)
					v := g.Variadic()
					c.Check((v != nil) == m.Variadic && (v == nil || v.Min == m.Min && v.Max == m.Max && string(v.ParameterConsistency) == orElse(m.Cons, "CONSISTENT")), "variadic", "%s: %+v, declared %v {%d %d %s}", where, v, m.Variadic, m.Min, m.Max, m.Cons)
					c.Check(g.NArgs() == len(fa) && len(g.GetArgTypes()) == len(fa), "nargs", "%s: %d arguments, %d types of %d", where, g.NArgs(), len(g.GetArgTypes()), len(fa))
					for i, a := range acts {
						if a.Enum {
							c.Check(g.Arg(i) == fa[i] && g.GetArgTypes()[i] == types.CommonEnumType, "arg", "%s: argument %d is %v of %v, given %v", where, i, g.Arg(i), g.GetArgTypes()[i], fa[i])
							continue
						}
						c.Check(protoEq(g.Arg(i).ToProtoFuncArg(), fa[i].ToProtoFuncArg()), "arg", "%s: argument %d is %v, given %v", where, i, g.Arg(i), fa[i])
						c.Check(tdOf(g.GetArgTypes()[i]).equal(a.T), "arg_type", "%s: argument %d has type %v, given %s", where, i, g.GetArgTypes()[i], a.T)
					}
					c.Check(len(g.GetOptions()) == len(opts), "options", "%s: %v, given %v", where, g.GetOptions(), opts)
					for i, o := range opts {
						c.Check(protoEq(g.GetOptions()[i], o), "options", "%s: %v, given %v", where, g.GetOptions(), opts)
					}
					if o, ok := g.(interface{ GetOption(string) []string }); ok {
						for _, n := range []string{"overflow", "rounding", "no such option"} {
							var w []string
							for i := len(opts) - 1; i >= 0; i-- {
								if opts[i].Name == n {
									w = opts[i].Preference
								}
							}
							c.Check(sameStrings(o.GetOption(n), w), "option", "%s: option %s is %v, given %v", where, n, o.GetOption(n), opts)
						}
					}
				}
				agg := func(g eAggFn, where string, win bool) {
					where = fn.Kind + " by " + where
					c.Check(g.Phase() == ph && g.Invocation() == inv, "phase", "%s: %v %v, given %v %v", where, g.Phase(), g.Invocation(), ph, inv)
					c.Check(g.Ordered() == m.Ordered, "ordered", "%s: %v, declared %v", where, g.Ordered(), m.Ordered)
					c.Check(g.MaxSet() == m.MaxSet, "max_set", "%s: %d, declared %d", where, g.MaxSet(), m.MaxSet)
					c.Check(string(g.Decomposable()) == orElse(m.Decomp, "NONE"), "decomposable", "%s: %v, declared %q", where, g.Decomposable(), m.Decomp)
					it, err := g.IntermediateType()
					if m.Inter == nil {
						c.Check(err != nil, "intermediate", "%s: intermediate %v, none declared", where, it)
					} else {
						c.Check(err == nil && xSameType(it, m.Inter), "intermediate", "%s: intermediate %v (%v), declared %v", where, it, err, m.Inter)
					}
					if w, ok := g.(*expr.WindowFunction); ok && win {
						k := orElse(m.Window, "PARTITION")
						if fn.Kind == "aggregate" {
							k = "STREAMING"
						}
						c.Check(string(w.WindowType()) == k, "window_type", "%s: %v, declared %v", where, w.WindowType(), k)
					}
				}
				result := func(x interface{ GetType() types.Type }, where string) {
					c.Check(tdOf(x.GetType()).equal(want), "type", "%s by %s of %s: type %v, want %s", fn.Kind, where, actsText(acts), x.GetType(), want)
				}
				// the registry a reader of the written message has
				reader := func() expr.ExtensionRegistry {
					urns, decls := b.GetExprBuilder().Reg.ExtensionsToProto()
					set, err := ext.GetExtensionSet(wire(&pb.Plan{ExtensionUrns: urns, Extensions: decls}), col)
					c.Check(err == nil, "extensions", "%v", err)
					return expr.NewExtensionRegistry(set, col)
				}
				switch fn.Kind {
				case "scalar":
					x1, e1 := expr.NewScalarFunc(reg, id, opts, fa...)
					c.Check(e1 == nil, "made", "%v%s: %v", id, actsText(acts), e1)
					x2, e2 := eb.ScalarFunc(id, opts...).Args(ba...).BuildExpr()
					c.Check(e2 == nil, "made", "%v%s: %v", id, actsText(acts), e2)
					x3, e3 := expr.ExprFromProto(wire(x1.ToProto()), nil, reader())
					c.Check(e3 == nil, "read", "%v%s: %v", id, actsText(acts), e3)
					for i, x := range []expr.Expression{x1, x2, x3} {
						w := []string{"constructor", "builder", "reading"}[i]
						g, ok := x.(*expr.ScalarFunction)
						c.Check(ok, "kind", "by %s: %T", w, x)
						common(g, w)
						result(g, w)
						c.Check(g.IsScalar(), "scalar", "%s by %s says it is not scalar", g, w)
					}
				case "aggregate", "window":
					if fn.Kind == "aggregate" {
						x1, e1 := expr.NewAggregateFunc(reg, id, opts, inv, ph, nil, fa...)
						c.Check(e1 == nil, "made", "%v%s: %v", id, actsText(acts), e1)
						x2, e2 := eb.AggFunc(id, opts...).Args(ba...).Phase(ph).Invocation(inv).Build()
						c.Check(e2 == nil, "made", "%v%s: %v", id, actsText(acts), e2)
						x3, e3 := expr.NewAggregateFunctionFromProto(wire(x1.ToProto()), nil, reader())
						c.Check(e3 == nil, "read", "%v%s: %v", id, actsText(acts), e3)
						for i, x := range []*expr.AggregateFunction{x1, x2, x3, x1.Clone()} {
							w := []string{"constructor", "builder", "reading", "cloning"}[i]
							common(x, w)
							agg(x, w, false)
							result(x, w)
						}
						if explicit["window "+id.Name] {
							continue
						}
					}
					x1, e1 := expr.NewWindowFunc(reg, id, opts, inv, ph, fa...)
					c.Check(e1 == nil, "made", "window %v%s: %v", id, actsText(acts), e1)
					x2, e2 := eb.WindowFunc(id, opts...).Args(ba...).Phase(ph).Invocation(inv).BuildExpr()
					c.Check(e2 == nil, "made", "window %v%s: %v", id, actsText(acts), e2)
					x3, e3 := expr.ExprFromProto(wire(x1.ToProto()), nil, reader())
					c.Check(e3 == nil, "read", "window %v%s: %v", id, actsText(acts), e3)
					for i, x := range []expr.Expression{x1, x2, x3} {
						w := "window " + []string{"constructor", "builder", "reading"}[i]
						g, ok := x.(*expr.WindowFunction)
						c.Check(ok, "kind", "by %s: %T", w, x)
						common(g, w)
						agg(g, w, true)
						result(g, w)
						c.Check(!g.IsScalar(), "scalar", "%s by %s says it is scalar", g, w)
					}
				}
			}
		}
	})

	p.sub("scalar", 4000, func(c *C) {
		w := genWorld(c.T)
		msg := rapid.Bool().Draw(c.T, "msg")
		x := ECtx{cols: &ECols{}, msg: msg}
		e := genEX(c.T, x, genWantTD(c.T), rapid.IntRange(1, 4).Draw(c.T, "depth"))
		c.Case(e.size() >= 3, "%s over %v", e, x.cols.T)
		e.label(c)
		reg := w.reg(c)
		var got expr.Expression
		var err error
		if msg {
			got, err = expr.ExprFromProto(wire(e.proto(w)), x.cols.record(), reg)
		} else {
			got, err = newEB(c, w, reg, x.cols, rapid.Bool().Draw(c.T, "fluent")).build(e)
		}
		if err != nil {
			return // E01
		}
		if y, ok := e.scalar(); ok {
			c.Check(got.IsScalar() == y, "scalar:"+e.K, "%s says scalar %v", got, got.IsScalar())
			if !y {
				c.Label("not scalar: " + e.K)
			}
		}
	})
}
