package pbt

import (
	"fmt"
	"strings"
	"testing"

	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/types"
	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"
)

// kidNodes are the expressions reached through operands only.
func (e *EX) kidNodes() []*EX {
	out := []*EX{e}
	for _, k := range e.Kids {
		out = append(out, k.kidNodes()...)
	}
	return out
}

func flip(n int) int { return 3 - n }

// dropKids removes n operands at i.
func (e *EX) dropKids(i, n int) { e.Kids = append(e.Kids[:i:i], e.Kids[i+n:]...) }

func (e *EX) insKid(i int, k *EX) {
	e.Kids = append(e.Kids[:i:i], append([]*EX{k}, e.Kids[i:]...)...)
}

// mutateEX changes one thing of one expression in the tree. It need not stay well typed, only readable.
func mutateEX(t *rapid.T, root *EX, x ECtx) (out *EX, what string) {
	out = root.clone()
	nodes := out.kidNodes()
	e := nodes[rapid.IntRange(0, len(nodes)-1).Draw(t, "node")]
	if len(e.Kids) > 0 && pct(t, 15) {
		i := rapid.IntRange(0, len(e.Kids)-1).Draw(t, "kid")
		lit := e.K == "switch" && i%2 == 1 && !(e.HasElse && i == len(e.Kids)-1)
		if !lit {
			y := x
			y.lams = nil // what a lambda's body is replaced with has no parameters
			e.Kids[i] = genEX(t, y, e.Kids[i].T, 1)
			return out, e.K + "/operand"
		}
	}
	if len(e.Kids) > 1 && e.K != "switch" && pct(t, 10) {
		i := rapid.IntRange(0, len(e.Kids)-2).Draw(t, "swap")
		e.Kids[i], e.Kids[i+1] = e.Kids[i+1], e.Kids[i]
		return out, e.K + "/order"
	}
	pick := func(n int) int { return rapid.IntRange(0, n-1).Draw(t, "mut") }
	switch e.K {
	case "lit":
		lv, w := mutateLV(t, e.LV, true)
		e.LV, e.T = lv, lv.T
		return out, "lit/" + w
	case "param":
		if pick(2) == 0 {
			e.Op ^= 1
			return out, "param/reference"
		}
		e.T, what = mutateTD(t, e.T)
		return out, "param/type " + what
	case "ref":
		i := pick(len(e.Path))
		s := &e.Path[i]
		switch {
		case s.K == "elem":
			s.I++
			return out, "ref/offset"
		case s.K == "key":
			s.Key, what = mutateLV(t, s.Key, true)
			return out, "ref/key " + what
		case e.Root == "root":
			x.cols.T = append(x.cols.T, e.T.clone())
			e.Path = []ESeg{{K: "field", I: int32(len(x.cols.T) - 1)}}
			return out, "ref/path"
		default:
			s.I++
			return out, "ref/field"
		}
	case "cast":
		if pick(2) == 0 {
			e.FailB = (e.FailB + 1 + int32(pick(2))) % 3
			return out, "cast/failure behaviour"
		}
		e.T, what = mutateTD(t, e.T)
		return out, "cast/type " + what
	case "scalar", "window":
		for try := 0; try < 20; try++ {
			switch pick(14) {
			case 8:
				if len(e.Opts) > 0 && len(e.Opts[0].Pref) > 1 && e.Opts[0].Pref[0] != e.Opts[0].Pref[1] {
					e.Opts[0].Pref = append([]string{}, e.Opts[0].Pref...)
					e.Opts[0].Pref[0], e.Opts[0].Pref[1] = e.Opts[0].Pref[1], e.Opts[0].Pref[0]
					return out, e.K + "/preferences swapped"
				}
			case 9:
				if len(e.Opts) > 1 {
					e.Opts = append([]EOpt{e.Opts[1], e.Opts[0]}, e.Opts[2:]...)
					return out, e.K + "/options swapped"
				}
			case 10:
				if eFns[e.Fn].Custom {
					for i := range e.Args {
						if s := strings.ToLower(e.Args[i].Enum); e.Args[i].What == "e" && s != e.Args[i].Enum {
							e.Args[i].Enum = s
							return out, e.K + "/enum case"
						}
					}
				}
			case 0:
				e.Opts = append(e.Opts, EOpt{Name: "new", Pref: []string{"Z"}})
				return out, e.K + "/option added"
			case 1:
				if len(e.Opts) > 0 {
					e.Opts = e.Opts[1:]
					return out, e.K + "/option dropped"
				}
			case 2:
				if len(e.Opts) > 0 {
					e.Opts[0].Pref = append(append([]string{}, e.Opts[0].Pref...), "W")
					return out, e.K + "/preference added"
				}
			case 3:
				if eFns[e.Fn].Custom {
					if e.T, what = mutateTD(t, e.T); e.T.Null != 0 {
						return out, e.K + "/type " + what
					}
					e.T.Null = 2
				}
			case 4:
				if e.K == "scalar" && eFns[e.Fn].Custom {
					e.Fn = map[string]string{"c_f": "c_g", "c_g": "c_add", "c_add": "c_f"}[e.Fn]
					return out, "scalar/function"
				}
			case 5:
				if eFns[e.Fn].Custom {
					for i := range e.Args {
						if e.Args[i].What == "e" {
							e.Args[i].Enum += "x"
							return out, e.K + "/enum"
						}
					}
				}
			case 6:
				if eFns[e.Fn].Custom {
					e.Args = append(e.Args, EArg{What: "e", Enum: "added"})
					return out, e.K + "/argument added"
				}
			case 7:
				if n := len(e.Args); eFns[e.Fn].Custom && n > 0 {
					if a := e.Args[n-1]; a.What == "v" {
						for j := range e.Args {
							if e.Args[j].Kid > a.Kid {
								e.Args[j].Kid--
							}
						}
						e.dropKids(a.Kid, 1)
					}
					e.Args = e.Args[:n-1]
					return out, e.K + "/argument dropped"
				}
			}
			if e.K != "window" {
				continue
			}
			n := e.nArgs()
			switch pick(9) {
			case 0:
				if eFns[e.Fn].Many {
					e.Phase = (e.Phase + 1) % 5
					return out, "window/phase"
				}
			case 1:
				e.Invoc = (e.Invoc + 1) % 3
				return out, "window/invocation"
			case 2:
				b := (e.BoundsTyp + 1) % 2
				if b != e.BoundsTyp {
					e.BoundsTyp = b
					return out, "window/bounds type"
				}
			case 3, 4:
				p, name := &e.Lower, "lower"
				if pick(2) == 0 {
					p, name = &e.Upper, "upper"
				}
				if pick(4) == 0 {
					if p.K != "" {
						*p = EBound{}
						return out, "window/" + name + " bound dropped"
					}
				} else if (p.K == "prec" || p.K == "foll") && pick(3) != 0 {
					p.N ^= 1
					return out, "window/" + name + " bound offset"
				} else {
					old := *p
					if *p = genBound(t); old != *p {
						return out, "window/" + name + " bound"
					}
				}
			case 5:
				if e.NParts > 0 {
					e.NParts--
					e.dropKids(n, 1)
					return out, "window/partition dropped"
				}
			case 6:
				e.NParts++
				e.insKid(n, genEX(t, x, genETD(t), 0))
				return out, "window/partition added"
			case 7:
				if len(e.SortDirs) > 0 && e.BoundsTyp != 2 {
					e.SortDirs = e.SortDirs[1:]
					e.dropKids(n+e.NParts, 1)
					return out, "window/sort dropped"
				}
			case 8:
				if len(e.SortDirs) > 0 {
					i := pick(len(e.SortDirs))
					old := e.SortDirs[i]
					for e.SortDirs[i] == old {
						e.SortDirs[i] = rapid.SampledFrom([]int32{1, 2, 3, 4, 5, 0, -1, -2, -3}).Draw(t, "dir")
					}
					return out, "window/sort kind"
				}
			}
		}
		e.Opts = append(e.Opts, EOpt{Name: "new", Pref: []string{"Z"}})
		return out, e.K + "/option added"
	case "if":
		if len(e.Kids) > 3 && pick(2) == 0 {
			e.dropKids(2*pick(len(e.Kids)/2), 2)
			return out, "if/clause dropped"
		}
		i := 2 * pick(len(e.Kids)/2)
		e.insKid(i, e.Kids[i+1].clone())
		e.insKid(i, e.Kids[i+1].clone())
		return out, "if/clause added"
	case "switch":
		switch {
		case e.HasElse && pick(3) == 0:
			e.HasElse = false
			e.Kids = e.Kids[:len(e.Kids)-1]
			return out, "switch/default dropped"
		case len(e.Kids) > 4 && pick(2) == 0:
			e.dropKids(1, 2)
			return out, "switch/case dropped"
		case pick(2) == 0:
			e.Kids[1].LV, what = mutateLV(t, e.Kids[1].LV, true)
			return out, "switch/case value " + what
		default:
			e.insKid(1, e.Kids[2].clone())
			e.insKid(1, e.Kids[2].clone())
			return out, "switch/case added"
		}
	case "or":
		if len(e.Kids) > 2 && pick(2) == 0 {
			e.dropKids(1+pick(len(e.Kids)-1), 1)
			return out, "or/option dropped"
		}
		e.insKid(1+pick(len(e.Kids)-1), e.Kids[1].clone())
		return out, "or/option added"
	case "mor":
		rows := len(e.Kids)/e.NVal - 1
		switch {
		case rows > 1 && pick(2) == 0:
			e.dropKids(e.NVal*(1+pick(rows)), e.NVal)
			return out, "mor/row dropped"
		case e.NVal > 1 && len(e.Kids)%(e.NVal-1) == 0 && pick(3) == 0:
			// the same operands in rows of another shape
			e.NVal--
			return out, "mor/shape"
		default:
			for _, k := range e.Kids[e.NVal : 2*e.NVal] {
				e.Kids = append(e.Kids, k.clone())
			}
			return out, "mor/row added"
		}
	case "list", "map", "struct":
		switch step := map[string]int{"list": 1, "map": 2, "struct": 1}[e.K]; pick(4) {
		case 0:
			e.T.Null = flip(e.T.Null)
			return out, e.K + "/nullability"
		case 1:
			e.T.Var++
			return out, e.K + "/variation"
		case 2:
			if len(e.Kids) > step {
				e.dropKids(step*pick(len(e.Kids)/step), step)
				return out, e.K + "/value dropped"
			}
			fallthrough
		default:
			n := len(e.Kids)
			for _, k := range e.Kids[n-step : n] {
				e.Kids = append(e.Kids, k.clone())
			}
			return out, e.K + "/value added"
		}
	case "lambda":
		if pick(5) == 0 {
			e.Params.Var++
			return out, "lambda/parameters' variation"
		}
		if len(e.Params.T) == 0 || pick(2) == 0 {
			e.Params.T = append(e.Params.T[:len(e.Params.T):len(e.Params.T)], genETD(t))
			return out, "lambda/parameter added"
		}
		i := pick(len(e.Params.T))
		ps := append([]*TD(nil), e.Params.T...)
		ps[i], what = mutateTD(t, ps[i])
		e.Params.T = ps
		return out, "lambda/parameter " + what
	}
	return out, "none"
}

// genFreeRef draws a reference that stands for itself, without an operand.
func genFreeRef(t *rapid.T, cols *ECols) *EX {
	e := &EX{K: "ref", Root: "root", T: boolTD(2)}
	if pct(t, 20) {
		e.Mask = genMask(t, cols.td(), false)
		e.Mask.Maintain = rapid.Bool().Draw(t, "maintain")
		return e
	}
	e.Path = genPath(t, cols.td(), false)
	e.Root = rapid.SampledFrom([]string{"root", "root", "outer", "lambda"}).Draw(t, "rootkind")
	if e.Root != "root" {
		e.Steps = uint32(rapid.IntRange(1, 2).Draw(t, "steps"))
	}
	return e
}

func TestE02(t *testing.T) {
	p := start(t, "E02", "expressions without subqueries, each made three ways (read from a message, built by constructors, built fluently), and a mutant differing in one thing anywhere in the "+
		"tree (operand, count, order, function, option, enumeration, bound, sort, phase, invocation, path, value, type, nullability, variation); equality is reflexive, symmetric and transitive over "+
		"the copies and false with the mutant; random pairs compare like their messages; non-trivial = the mutant can be read and differs")
	defer p.finish()

	p.sub("mutants", 8000, func(c *C) {
		w := genWorld(c.T)
		x := ECtx{cols: &ECols{}, noSub: true}
		e := genEX(c.T, x, genWantTD(c.T), rapid.IntRange(0, 3).Draw(c.T, "depth"))
		nodes := e.size()
		m, what := mutateEX(c.T, e, x)
		schema := x.cols.record()
		reg := w.reg(c)
		differs := m.key(w) != e.key(w)
		b, err := expr.ExprFromProto(wire(m.proto(w)), schema, reg)
		c.Case(err == nil && differs, "%s over %v; mutant (%s): %s", e, x.cols.T, what, m)
		a1, err1 := expr.ExprFromProto(wire(e.proto(w)), schema, reg)
		c.Check(err1 == nil, "refused", "%v", err1)
		a2, err2 := newEB(c, w, reg, x.cols, false).build(e)
		c.Check(err2 == nil, "build", "%v", err2)
		a3, err3 := newEB(c, w, reg, x.cols, true).build(e)
		c.Check(err3 == nil, "build_fluent", "%v", err3)
		as := []expr.Expression{a1, a2, a3}
		for i, l := range as {
			for j, r := range as {
				c.Check(l.Equals(r), "copies:"+e.K, "copies %d and %d are not equal: %s and %s", i, j, l, r)
			}
			c.Check(!l.Equals(nil), "nil:"+e.K, "equal to nil")
		}
		if err != nil {
			c.Label("mutant refused: " + what)
			return
		}
		c.Label(what)
		if nodes > 1 {
			c.Label("deep")
		}
		for i, l := range as {
			c.Check(l.Equals(b) == !differs, "mutant:"+what, "copy %d: Equals = %v (%s):\n%s\n%s", i, l.Equals(b), what, l, b)
			c.Check(b.Equals(l) == !differs, "mutant_sym:"+what, "copy %d swapped: Equals = %v (%s):\n%s\n%s", i, b.Equals(l), what, l, b)
		}
		c.Check(b.Equals(b), "reflexive", "%s is not equal to itself", b)
	})

	p.sub("pairs", 4000, func(c *C) {
		// small unrelated expressions of any kind, often alike
		w := genWorld(c.T)
		x := ECtx{cols: &ECols{}, noSub: true}
		d := genWantTD(c.T)
		n := rapid.IntRange(2, 4).Draw(c.T, "n")
		var es []*EX
		for i := 0; i < n; i++ {
			if pct(c.T, 30) {
				d = genWantTD(c.T)
			}
			es = append(es, genEX(c.T, x, d, rapid.IntRange(0, 1).Draw(c.T, "depth")))
		}
		schema, reg := x.cols.record(), w.reg(c)
		var as []expr.Expression
		desc := ""
		for i, e := range es {
			desc += e.String() + "; "
			var a expr.Expression
			var err error
			if i%2 == 0 {
				a, err = expr.ExprFromProto(wire(e.proto(w)), schema, reg)
			} else {
				a, err = newEB(c, w, reg, x.cols, i%4 == 1).build(e)
			}
			c.Check(err == nil, "make", "%v", err)
			as = append(as, a)
		}
		c.Case(true, "%s over %v", desc, x.cols.T)
		for i := range as {
			for j := range as {
				same := es[i].key(w) == es[j].key(w)
				c.Check(as[i].Equals(as[j]) == same, "pair:"+es[i].K+"/"+es[j].K, "Equals = %v, messages equal %v: %s and %s", !same, same, as[i], as[j])
				if i != j && same {
					c.Label("equal pair")
				}
			}
		}
	})

	p.sub("arguments", 1500, func(c *C) {
		// function arguments of every kind, against one that differs or not
		w := genWorld(c.T)
		reg := w.reg(c)
		cols := &ECols{}
		type arg struct {
			kind, key string
			a         types.FuncArg
		}
		draw := func(l string) arg {
			switch pick(c.T, 4) {
			case 0:
				e := rapid.SampledFrom([]string{"", "A", "B", "i32"}).Draw(c.T, l)
				return arg{"enum", e, types.Enum(e)}
			case 1:
				d := genTD(c.T, typeGenOpts{depth: 1})
				return arg{"type", d.String(), d.build()}
			default:
				e := genEX(c.T, ECtx{cols: cols, noSub: true}, rapid.SampledFrom([]*TD{boolTD(1), boolTD(2), {Kind: "i32", Null: 2}}).Draw(c.T, l), rapid.IntRange(0, 2).Draw(c.T, "d"))
				x, err := newEB(c, w, reg, cols, false).build(e)
				c.Check(err == nil, "build", "%v", err)
				return arg{"value", e.key(w), x}
			}
		}
		a, b := draw("a"), draw("b")
		if pct(c.T, 25) {
			b = a
		}
		want := a.kind == b.kind && a.key == b.key
		c.Case(want || a.kind != b.kind, "%v and %v", a.a, b.a)
		c.Label(fmt.Sprint(a.kind, b.kind, want))
		c.Check(expr.FuncArgsEqual(a.a, b.a) == want && expr.FuncArgsEqual(b.a, a.a) == want, "args_equal", "%v and %v equal is not %v", a.a, b.a, want)
	})

	p.sub("references", 3000, func(c *C) {
		// references read without a schema, and the paths themselves
		cols := genCols(c.T, 1, 4)
		base := genFreeRef(c.T, cols)
		es := []*EX{base, base.clone()}
		for len(es) < 5 {
			e := es[rapid.IntRange(0, len(es)-1).Draw(c.T, "of")].clone()
			switch pick(c.T, 8) {
			case 0: // a step more
				if e.Mask == nil {
					e.Path = append(e.Path, ESeg{K: rapid.SampledFrom([]string{"field", "elem"}).Draw(c.T, "more"), I: int32(pick(c.T, 2))})
				}
			case 1: // a step less
				if len(e.Path) > 1 {
					i := pick(c.T, len(e.Path))
					e.Path = append(e.Path[:i:i], e.Path[i+1:]...)
				}
			case 2, 3:
				if len(e.Path) > 0 {
					e.Path = append([]ESeg(nil), e.Path...)
					s := &e.Path[pick(c.T, len(e.Path))]
					if s.K == "key" {
						s.Key, _ = mutateLV(c.T, s.Key, true)
					} else {
						s.I ^= 1 << pick(c.T, 31)
					}
				}
			case 4:
				e.Root = rapid.SampledFrom([]string{"root", "outer", "lambda"}).Draw(c.T, "root")
			case 5:
				e.Steps ^= 1 << pick(c.T, 32)
			case 6:
				if e.Mask != nil {
					e.Mask = genMask(c.T, cols.td(), false)
				}
			case 7:
				e = genFreeRef(c.T, cols)
			}
			if e.Root == "outer" && e.Steps == 0 {
				e.Steps = 1
			}
			es = append(es, e)
		}
		var rs []*expr.FieldReference
		var keys []string
		desc := ""
		for i, e := range es {
			m := e.refProto(nil)
			desc += e.String() + "; "
			r := &expr.FieldReference{Reference: nil, Root: expr.RootReference}
			if i%2 == 0 && e.Root == "root" || e.Mask != nil {
				var err error
				r, err = expr.FieldReferenceFromProto(wire(m), nil, expr.NewEmptyExtensionRegistry(eCol()))
				if err != nil && e.Root != "root" {
					return
				}
				c.Check(err == nil, "refused", "%v", err)
			} else {
				r.Reference = segRef(e.Path)
				switch e.Root {
				case "outer":
					r.Root = expr.OuterReference(e.Steps)
				case "lambda":
					r.Root = expr.LambdaParameterReference{StepsOut: e.Steps}
				}
			}
			c.Check(protoEq(r.ToProtoFieldRef(), m), "message", "%s writes %v, want %v", e, r.ToProtoFieldRef(), m)
			rs = append(rs, r)
			b, err := proto.MarshalOptions{Deterministic: true}.Marshal(m)
			c.Check(err == nil, "marshal", "%v", err)
			keys = append(keys, string(b))
		}
		c.Case(true, "%s", desc)
		for i, l := range rs {
			for j, r := range rs {
				same := keys[i] == keys[j]
				if i != j && same {
					c.Label("same")
				}
				c.Check(l.Equals(r) == same, "reference", "Equals = %v of %s and %s", !same, es[i], es[j])
				a, ok1 := l.Reference.(expr.ReferenceSegment)
				b, ok2 := r.Reference.(expr.ReferenceSegment)
				if ok1 && ok2 {
					same := protoEq(a.ToProto(), b.ToProto())
					c.Check(a.Equals(b) == same, "segment", "Equals = %v of %v and %v", !same, a, b)
				}
			}
		}
	})

	p.sub("subqueries", 1000, func(c *C) {
		// with subqueries: the same relation makes equal ones, anything else compares without a panic and symmetrically
		w := genWorld(c.T)
		x := ECtx{cols: &ECols{}}
		e := genEX(c.T, x, boolTD(2), 2)
		f := e
		what := ""
		if pct(c.T, 60) {
			f, what = mutateEX(c.T, e, x)
		}
		c.Case(e.hasSub(), "%s; %s %s", e, what, f)
		reg, schema := w.reg(c), x.cols.record()
		a, err := expr.ExprFromProto(wire(e.proto(w)), schema, reg)
		c.Check(err == nil, "refused", "%v", err)
		b, err := expr.ExprFromProto(wire(f.proto(w)), schema, reg)
		if err != nil {
			return
		}
		c.Check(a.Equals(a), "reflexive:"+e.K, "%s is not equal to itself", a)
		c.Check(a.Equals(b) == b.Equals(a), "symmetric:"+e.K, "%s and %s", a, b)
		if e.key(w) != f.key(w) {
			c.Check(!a.Equals(b), "differs:"+what, "equal: %s and %s", a, b)
		}
	})
}

// withKids gives the model with operands replaced.
func (e *EX) withKids(ks map[int]*EX) *EX {
	o := e.clone()
	for i, k := range ks {
		o.Kids[i] = k
	}
	return o
}

func TestE03(t *testing.T) {
	p := start(t, "E03", "expressions of every kind, built or read; the operands presented to a visitor against the model's operands in order; rewriting a random subset of the operands, or "+
		"every dynamic parameter in the tree, against the model with the same replacements; the original against its message before; non-trivial = has operands")
	defer p.finish()

	make := func(c *C, depth int) (*EWorld, ECtx, *EX, expr.Expression, expr.ExtensionRegistry) {
		w := genWorld(c.T)
		x := ECtx{cols: &ECols{}}
		e := genEX(c.T, x, genWantTD(c.T), depth)
		how := rapid.IntRange(0, 2).Draw(c.T, "how")
		c.Case(len(e.Kids) > 0, "%s over %v how %d", e, x.cols.T, how)
		c.Label(e.K)
		reg := w.reg(c)
		var a expr.Expression
		var err error
		if how == 0 {
			a, err = expr.ExprFromProto(wire(e.proto(w)), x.cols.record(), reg)
		} else {
			a, err = newEB(c, w, reg, x.cols, how == 1).build(e)
		}
		c.Check(err == nil, "make", "%v", err)
		return w, x, e, a, reg
	}

	p.sub("operands", 6000, func(c *C) {
		w, _, e, a, _ := make(c, rapid.IntRange(0, 3).Draw(c.T, "depth"))
		var seen []expr.Expression
		out := a.Visit(func(k expr.Expression) expr.Expression { seen = append(seen, k); return k })
		c.Check(out == a, "identity:"+e.K, "a visit that changes nothing gives another expression: %s", out)
		c.Check(len(seen) == len(e.Kids), "count:"+e.K, "%d operands visited, want %d", len(seen), len(e.Kids))
		for i, k := range seen {
			c.Check(protoEq(k.ToProto(), e.Kids[i].proto(w)), "operand:"+e.K, "operand %d is %s, want %s", i, k, e.Kids[i])
		}
		c.Check(protoEq(a.ToProto(), e.proto(w)), "changed:"+e.K, "visiting changed the expression: %s", a)
	})

	p.sub("rewrite", 6000, func(c *C) {
		w, x, e, a, reg := make(c, rapid.IntRange(1, 3).Draw(c.T, "depth"))
		repl := map[int]*EX{}
		for i := range e.Kids {
			if rapid.Bool().Draw(c.T, "replace") {
				if e.K == "switch" && i%2 == 1 && !(e.HasElse && i == len(e.Kids)-1) {
					repl[i] = &EX{K: "lit", T: e.Kids[i].T, LV: genLV(c.T, e.Kids[i].T.clone())}
				} else {
					repl[i] = genEX(c.T, ECtx{cols: x.cols, noSub: true}, e.Kids[i].T, 1)
				}
			}
		}
		want := e.withKids(repl)
		c.Case(len(repl) > 0, "%s; replaced %d: %s", e, len(repl), want)
		b := newEB(c, w, reg, x.cols, false)
		news := map[int]expr.Expression{}
		for i, k := range repl {
			n, err := b.build(k)
			c.Check(err == nil, "make_operand", "%v", err)
			news[i] = n
		}
		i := -1
		var out expr.Expression
		c.NoPanic("Visit", func() {
			out = a.Visit(func(k expr.Expression) expr.Expression {
				i++
				if n, ok := news[i]; ok {
					return n
				}
				return k
			})
		})
		c.Check(i == len(e.Kids)-1, "count:"+e.K, "%d operands visited, want %d", i+1, len(e.Kids))
		c.Check(protoEq(out.ToProto(), want.proto(w)), "rewrite:"+e.K, "gives\n%v\nwant\n%v", out.ToProto(), want.proto(w))
		c.Check(protoEq(a.ToProto(), e.proto(w)), "changed:"+e.K, "rewriting changed the original: %s", a)
		if !e.hasSub() {
			wantX, err := expr.ExprFromProto(wire(want.proto(w)), x.cols.record(), reg)
			c.Check(err == nil, "make_want", "%v", err)
			eqBoth(c, out, wantX, "rewrite:"+e.K)
		}
		if len(repl) > 0 && e.K != "lambda" {
			want.checkType(c, out, "rewrite:"+e.K)
		}
		if len(repl) == 0 {
			c.Check(out == a, "identity:"+e.K, "another expression without replacements")
		}
		// a second rewrite of the result goes by the same rules, and the first result stays
		before := out.ToProto()
		_ = out.Visit(func(k expr.Expression) expr.Expression {
			if _, ok := k.(expr.Literal); ok {
				return k
			}
			return &expr.DynamicParameter{OutputType: k.GetType(), ParameterReference: 99}
		})
		c.Check(protoEq(out.ToProto(), before), "changed_again:"+e.K, "rewriting changed the rewritten: %s", out)
	})

	p.sub("deep", 3000, func(c *C) {
		w, _, e, a, _ := make(c, 4)
		want := e.clone()
		n := 0
		for _, k := range want.kidNodes() {
			if k.K == "param" {
				k.Op ^= 1
				n++
			}
		}
		c.Case(n > 1 && e.K != "param", "%s: %d parameters", e, n)
		got := 0
		var v expr.VisitFunc
		v = func(k expr.Expression) expr.Expression {
			if dp, ok := k.(*expr.DynamicParameter); ok {
				got++
				return &expr.DynamicParameter{OutputType: dp.OutputType, ParameterReference: dp.ParameterReference ^ 1}
			}
			return k.Visit(v)
		}
		out := v(a)
		c.Check(got == n, "count", "%d parameters visited, want %d", got, n)
		c.Check(protoEq(out.ToProto(), want.proto(w)), "rewrite:"+e.K, "gives\n%v\nwant\n%v", out.ToProto(), want.proto(w))
		c.Check(protoEq(a.ToProto(), e.proto(w)), "changed:"+e.K, "rewriting changed the original: %s", a)
	})
}

var _ = pb.File_substrait_plan_proto
