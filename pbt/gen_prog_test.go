package pbt

import (
	"fmt"
	"math"
	"math/big"
	"strings"

	"github.com/substrait-io/substrait-go/v8/types"
	"pgregory.net/rapid"
)

// PE is an expression of a derivation program.
type PE struct {
	op   string // num var + - * / < <= > >= = != and or if tern not abs min max
	n    int64
	name string
	kids []*PE
	flat bool // the left operand's parentheses may be left out
}

type passign struct {
	name string
	e    *PE
}

type prog struct {
	assigns []passign
	final   *PD
	trail   bool
	blank   bool
	upper   bool
}

func genIntExpr(t *rapid.T, depth int, ints, bools []string) *PE {
	cls := []string{"num", "var", "var"}
	if depth > 0 {
		cls = append(cls, "bin", "bin", "bin", "call", "call", "if", "tern")
	}
	switch rapid.SampledFrom(cls).Draw(t, "ecls") {
	case "var":
		if len(ints) > 0 {
			return &PE{op: "var", name: rapid.SampledFrom(ints).Draw(t, "v")}
		}
	case "bin":
		op := rapid.SampledFrom([]string{"+", "-", "*", "/", "+", "-"}).Draw(t, "op")
		return &PE{op: op, kids: []*PE{genIntExpr(t, depth-1, ints, bools), genIntExpr(t, depth-1, ints, bools)}, flat: rapid.Bool().Draw(t, "flat")}
	case "call":
		f := rapid.SampledFrom([]string{"min", "max", "abs"}).Draw(t, "f")
		e := &PE{op: f, kids: []*PE{genIntExpr(t, depth-1, ints, bools)}}
		if f != "abs" {
			e.kids = append(e.kids, genIntExpr(t, depth-1, ints, bools))
		}
		return e
	case "if", "tern":
		op := rapid.SampledFrom([]string{"if", "tern"}).Draw(t, "cond")
		return &PE{op: op, kids: []*PE{genBoolExpr(t, depth-1, ints, bools), genIntExpr(t, depth-1, ints, bools), genIntExpr(t, depth-1, ints, bools)}}
	}
	return &PE{op: "num", n: rapid.OneOf(rapid.Int64Range(0, 40), rapid.Int64Range(-20, 0), rapid.SampledFrom([]int64{1 << 31, 1 << 40})).Draw(t, "n")}
}

func genBoolExpr(t *rapid.T, depth int, ints, bools []string) *PE {
	cls := []string{"cmp", "cmp"}
	if len(bools) > 0 {
		cls = append(cls, "var")
	}
	if depth > 0 {
		cls = append(cls, "bin", "not", "if")
	}
	if depth < 0 {
		depth = 0
	}
	switch rapid.SampledFrom(cls).Draw(t, "bcls") {
	case "var":
		return &PE{op: "var", name: rapid.SampledFrom(bools).Draw(t, "bv")}
	case "bin":
		op := rapid.SampledFrom([]string{"and", "or"}).Draw(t, "bop")
		return &PE{op: op, kids: []*PE{genBoolExpr(t, depth-1, ints, bools), genBoolExpr(t, depth-1, ints, bools)}, flat: rapid.Bool().Draw(t, "flat")}
	case "not":
		return &PE{op: "not", kids: []*PE{genBoolExpr(t, depth-1, ints, bools)}}
	case "if":
		op := rapid.SampledFrom([]string{"if", "tern"}).Draw(t, "cond")
		return &PE{op: op, kids: []*PE{genBoolExpr(t, depth-1, ints, bools), genBoolExpr(t, depth-1, ints, bools), genBoolExpr(t, depth-1, ints, bools)}}
	}
	op := rapid.SampledFrom([]string{"<", "<=", ">", ">=", "=", "!="}).Draw(t, "cop")
	return &PE{op: op, kids: []*PE{genIntExpr(t, depth-1, ints, bools), genIntExpr(t, depth-1, ints, bools)}, flat: rapid.Bool().Draw(t, "flat")}
}

// genProgram makes a derivation program over the given integer variables. With anyFinal the final
// type is an arbitrary type expression, otherwise one whose parameters are the program's variables.
func genProgram(t *rapid.T, ints []string, anyFinal bool) *prog {
	p := &prog{trail: rapid.Bool().Draw(t, "trail"), blank: rapid.IntRange(0, 3).Draw(t, "blank") == 0, upper: rapid.IntRange(0, 3).Draw(t, "upper") == 0}
	ints = append([]string{}, ints...)
	var bools []string
	n := rapid.IntRange(1, 5).Draw(t, "nassign")
	for i := 0; i < n; i++ {
		if rapid.IntRange(0, 4).Draw(t, "isbool") == 4 {
			name := fmt.Sprintf("%sb%d", rapid.SampledFrom([]string{"", "", "_", "__", "$"}).Draw(t, "lead"), i)
			p.assigns = append(p.assigns, passign{name, genBoolExpr(t, 2, ints, bools)})
			bools = append(bools, name)
			continue
		}
		name := fmt.Sprintf("%sx_%d", rapid.SampledFrom([]string{"", "", "_", "__", "$"}).Draw(t, "lead"), i)
		if len(ints) > 0 && rapid.IntRange(0, 4).Draw(t, "re") == 4 {
			name = rapid.SampledFrom(ints).Draw(t, "rename") // assign again
		}
		p.assigns = append(p.assigns, passign{name, genIntExpr(t, 3, ints, bools)})
		if !contains(ints, name) {
			ints = append(ints, name)
		}
	}
	if len(ints) == 0 {
		p.assigns = append(p.assigns, passign{"z", &PE{op: "num", n: 7}})
		ints = append(ints, "z")
	}
	if anyFinal {
		p.final = genPD(t, pdOpts{depth: 2, vars: ints, anys: []string{"any", "any1"}, nullProb: 3, udtArgs: true})
	} else {
		p.final = genPD(t, pdOpts{depth: 0, vars: ints, nullProb: 3, noUDT: true})
	}
	return p
}

func contains(s []string, x string) bool {
	for _, e := range s {
		if e == x {
			return true
		}
	}
	return false
}

func opPrec(op string) int {
	switch op {
	case "*", "/":
		return 5
	case "+", "-":
		return 4
	case "<", "<=", ">", ">=", "=", "!=":
		return 3
	case "and":
		return 2
	case "or":
		return 1
	}
	return 0
}

func (e *PE) text(upper bool) string {
	kw := func(s string) string {
		if upper {
			return strings.ToUpper(s)
		}
		return s
	}
	atom := func(k *PE) string {
		s := k.text(upper)
		if opPrec(k.op) > 0 || k.op == "if" || k.op == "tern" || k.op == "not" {
			return "(" + s + ")"
		}
		return s
	}
	cond := func(k *PE) string {
		if k.op == "if" || k.op == "tern" {
			return "(" + k.text(upper) + ")"
		}
		return k.text(upper)
	}
	switch e.op {
	case "num":
		return fmt.Sprint(e.n)
	case "var":
		return e.name
	case "not":
		return "!" + atom(e.kids[0])
	case "if":
		return kw("if ") + cond(e.kids[0]) + kw(" then ") + cond(e.kids[1]) + kw(" else ") + cond(e.kids[2])
	case "tern":
		c := e.kids[0]
		ct := cond(c)
		if c.op == "not" {
			ct = atom(c)
		}
		el := cond(e.kids[2])
		return ct + " ? " + cond(e.kids[1]) + " : " + el
	case "min", "max", "abs":
		var as []string
		for _, k := range e.kids {
			as = append(as, k.text(upper))
		}
		return kw(e.op) + "(" + strings.Join(as, ", ") + ")"
	}
	l := atom(e.kids[0])
	if e.flat && opPrec(e.kids[0].op) >= opPrec(e.op) {
		l = e.kids[0].text(upper)
		if c := e.kids[0].kids[1]; c.op == "not" || c.op == "if" || c.op == "tern" {
			l = atom(e.kids[0])
		}
	}
	op := e.op
	if op == "and" || op == "or" {
		op = kw(op)
	}
	s := l + " " + op + " " + atom(e.kids[1])
	if op == "=" {
		// "name = ..." would start another assignment
		return "(" + s + ")"
	}
	return s
}

// tree is the canonical fully grouped form.
func (e *PE) tree() string {
	switch e.op {
	case "num":
		return fmt.Sprint(e.n)
	case "var":
		return e.name
	}
	op := e.op
	if op == "tern" {
		op = "if"
	}
	var as []string
	for _, k := range e.kids {
		as = append(as, k.tree())
	}
	return op + "(" + strings.Join(as, ",") + ")"
}

func exprText(e types.Expr) string {
	switch v := e.(type) {
	case *types.LiteralNumber:
		return fmt.Sprint(v.Value)
	case types.StringParameter:
		return string(v)
	case *types.BinaryExpr:
		return v.Op.String() + "(" + exprText(v.Left) + "," + exprText(v.Right) + ")"
	case *types.IfExpr:
		return "if(" + exprText(v.Condition) + "," + exprText(v.Then) + "," + exprText(v.Else) + ")"
	case *types.NotExpr:
		return "not(" + exprText(v.Expr) + ")"
	case *types.FunctionCallExpr:
		var as []string
		for _, a := range v.Args {
			as = append(as, exprText(a))
		}
		return v.Name + "(" + strings.Join(as, ",") + ")"
	}
	return fmt.Sprintf("?%T", e)
}

func (p *prog) text(f func(string) string) string {
	var b strings.Builder
	for _, a := range p.assigns {
		b.WriteString(f(a.name + " = " + a.e.text(p.upper)))
		b.WriteString("\n")
		if p.blank {
			b.WriteString("\n")
		}
	}
	b.WriteString(p.final.String())
	if p.trail {
		b.WriteString("\n")
	}
	return b.String()
}

type evalErr struct{ why string }

// eval computes the program's variables with big integers; it panics with evalErr on division by
// zero or when a value leaves int64.
func (e *PE) eval(ints map[string]*big.Int, bools map[string]bool) (iv *big.Int, bv bool) {
	chk := func(x *big.Int) *big.Int {
		if !x.IsInt64() {
			panic(evalErr{"overflow"})
		}
		return x
	}
	switch e.op {
	case "num":
		return big.NewInt(e.n), false
	case "var":
		if b, ok := bools[e.name]; ok {
			return nil, b
		}
		v, ok := ints[e.name]
		if !ok {
			panic(evalErr{"undefined"})
		}
		return v, false
	case "not":
		return nil, !boolOf(e.kids[0].eval(ints, bools))
	case "if", "tern":
		if boolOf(e.kids[0].eval(ints, bools)) {
			return e.kids[1].eval(ints, bools)
		}
		return e.kids[2].eval(ints, bools)
	}
	if e.op == "and" || e.op == "or" {
		l, r := boolOf(e.kids[0].eval(ints, bools)), boolOf(e.kids[1].eval(ints, bools))
		return nil, e.op == "and" && l && r || e.op == "or" && (l || r)
	}
	l := intOf(e.kids[0].eval(ints, bools))
	if e.op == "abs" {
		return chk(new(big.Int).Abs(l)), false
	}
	r := intOf(e.kids[1].eval(ints, bools))
	switch e.op {
	case "+":
		return chk(new(big.Int).Add(l, r)), false
	case "-":
		return chk(new(big.Int).Sub(l, r)), false
	case "*":
		return chk(new(big.Int).Mul(l, r)), false
	case "/":
		if r.Sign() == 0 {
			panic(evalErr{"division by zero"})
		}
		return chk(new(big.Int).Quo(l, r)), false
	case "min":
		if l.Cmp(r) <= 0 {
			return l, false
		}
		return r, false
	case "max":
		if l.Cmp(r) >= 0 {
			return l, false
		}
		return r, false
	case "<":
		return nil, l.Cmp(r) < 0
	case "<=":
		return nil, l.Cmp(r) <= 0
	case ">":
		return nil, l.Cmp(r) > 0
	case ">=":
		return nil, l.Cmp(r) >= 0
	case "=":
		return nil, l.Cmp(r) == 0
	case "!=":
		return nil, l.Cmp(r) != 0
	}
	panic("op " + e.op)
}

// what an operator needs of its operands
func boolOf(i *big.Int, b bool) bool {
	if i != nil {
		panic(evalErr{"an integer where a boolean is needed"})
	}
	return b
}

func intOf(i *big.Int, _ bool) *big.Int {
	if i == nil {
		panic(evalErr{"a boolean where an integer is needed"})
	}
	return i
}

// run evaluates the program; why is non-empty when it has no value.
func (p *prog) run(ints map[string]*big.Int) (out map[string]*big.Int, why string) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(evalErr); ok {
				why = e.why
				return
			}
			panic(r)
		}
	}()
	out = map[string]*big.Int{}
	for k, v := range ints {
		out[k] = v
	}
	bools := map[string]bool{}
	for _, a := range p.assigns {
		i, b := a.e.eval(out, bools)
		if i != nil {
			out[a.name] = i
		} else {
			bools[a.name] = b
		}
	}
	return out, ""
}

func fitsInt32(v *big.Int) bool {
	return v.IsInt64() && v.Int64() >= math.MinInt32 && v.Int64() <= math.MaxInt32
}
