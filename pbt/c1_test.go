package pbt

import (
	"encoding/hex"
	"fmt"
	"os"
	"os/exec"
	"reflect"
	"slices"
	"sort"
	"strings"
	"sync"
	"testing"

	"github.com/substrait-io/substrait-go/v8/expr"
	ext "github.com/substrait-io/substrait-go/v8/extensions"
	"github.com/substrait-io/substrait-go/v8/functions"
	"github.com/substrait-io/substrait-go/v8/literal"
	"github.com/substrait-io/substrait-go/v8/plan"
	tcparser "github.com/substrait-io/substrait-go/v8/testcases/parser"
	"github.com/substrait-io/substrait-go/v8/types"
	typeparser "github.com/substrait-io/substrait-go/v8/types/parser"
	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"
)

// cOp is a question put to an object of the world W; the answer is a text.
type cOp[W any] struct {
	name string
	f    func(w W) string
}

func (o cOp[W]) ask(w W) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = fmt.Sprintf("panic: %v", r)
		}
	}()
	return o.f(w)
}

func cProto(m proto.Message) string {
	if isNil(m) {
		return "<nil message>"
	}
	b, err := proto.MarshalOptions{Deterministic: true}.Marshal(m)
	if err != nil {
		return "unmarshalable"
	}
	return hex.EncodeToString(b)
}

// cSay writes an answer down.
func cSay(v any, depth int) string {
	if isNil(v) {
		return "nil"
	}
	switch x := v.(type) {
	case error:
		return "an error"
	case proto.Message:
		return cProto(x)
	case expr.ExtensionRegistry, ext.Set, functions.Dialect, functions.FunctionRegistry, functions.LocalTypeRegistry, *ext.Collection, *plan.AggregateRelBuilder:
		return fmt.Sprintf("%T", v)
	case ext.FunctionVariant:
		s := fmt.Sprintf("%T %s %s", v, x.URN(), x.CompoundName())
		if l, ok := v.(dLocal); ok {
			s += fmt.Sprintf(" %s %v", l.LocalName(), l.Notation())
		}
		return s
	case plan.Rel:
		return cProto(x.ToProto())
	case expr.Expression:
		return x.String() + " " + cProto(x.ToProto())
	case types.Type:
		return x.String() + fmt.Sprint(x.GetNullability())
	case types.RecordType:
		return x.String()
	case types.FuncDefArgType:
		return x.String() + x.ShortString()
	case *expr.AggregateFunction:
		return cProto(x.ToProto())
	}
	r := reflect.ValueOf(v)
	switch r.Kind() {
	case reflect.Func, reflect.Chan:
		return r.Kind().String()
	case reflect.Slice, reflect.Array:
		if r.Type().Elem().Kind() == reflect.Uint8 {
			return fmt.Sprintf("%x", v)
		}
		var out []string
		for i := 0; i < r.Len(); i++ {
			out = append(out, cSay(r.Index(i).Interface(), depth-1))
		}
		if r.Type().Elem().Implements(reflect.TypeFor[ext.FunctionVariant]()) { // functions have no order
			sort.Strings(out)
		}
		return fmt.Sprintf("%q", out)
	case reflect.Map:
		var out []string
		for _, k := range r.MapKeys() {
			out = append(out, cSay(k.Interface(), depth-1)+":"+cSay(r.MapIndex(k).Interface(), depth-1))
		}
		sort.Strings(out)
		return fmt.Sprint(out)
	case reflect.Pointer:
		if depth > 0 && r.Elem().Kind() == reflect.Struct {
			if _, ok := r.Type().Elem().FieldByName("sizeCache"); ok { // a message by another name
				if m := r.MethodByName("ToProto"); m.IsValid() {
					return cSay(m.Call(nil)[0].Interface(), 1)
				}
				return fmt.Sprintf("%T", v)
			}
			return "&" + cSay(r.Elem().Interface(), depth-1)
		}
		return fmt.Sprintf("%T", v)
	case reflect.Struct:
		s := r.Type().Name() + "{"
		for i := 0; i < r.NumField() && depth > 0; i++ {
			if r.Type().Field(i).IsExported() {
				s += cSay(r.Field(i).Interface(), depth-1) + ","
			}
		}
		return s + "}"
	}
	return fmt.Sprintf("%v", v)
}

// cPools has the values that arguments of a type are picked from.
type cPools[W any] map[reflect.Type][]func(w W) any

func cPut[T, W any](p cPools[W], vs ...T) {
	t := reflect.TypeOf((*T)(nil)).Elem()
	for _, v := range vs {
		p[t] = append(p[t], func(W) any { return v })
	}
}

func cPutF[T, W any](p cPools[W], f func(w W) T) {
	t := reflect.TypeOf((*T)(nil)).Elem()
	p[t] = append(p[t], func(w W) any { return f(w) })
}

var cWrites = []string{"Set", "Add", "Clear", "Replace", "Unmarshal", "Load", "Reset", "Descriptor", "ProtoReflect", "EncodeURN"}

// cMethods makes questions of the methods of an object of the world; of those with arguments a few.
func cMethods[W any](t *rapid.T, w W, what string, get func(w W) any, pools cPools[W], calls int) (ops []cOp[W]) {
	v := get(w)
	if isNil(v) {
		return nil
	}
	ty := reflect.TypeOf(v)
	for i := 0; i < ty.NumMethod(); i++ {
		name := ty.Method(i).Name
		mt := reflect.ValueOf(v).Method(i).Type()
		if slices.ContainsFunc(cWrites, func(p string) bool { return strings.HasPrefix(name, p) }) || mt.IsVariadic() || mt.NumOut() == 0 {
			continue
		}
		n := 1
		if mt.NumIn() > 0 {
			n = calls
		}
		known := true
		for a := 0; a < mt.NumIn(); a++ {
			known = known && len(pools[mt.In(a)]) > 0
		}
		if !known {
			continue
		}
		for ; n > 0; n-- {
			var as []func(w W) any
			id := ""
			for a := 0; a < mt.NumIn(); a++ {
				p := pools[mt.In(a)]
				k := pick(t, len(p))
				as = append(as, p[k])
				id += fmt.Sprint(k, " ")
			}
			ops = append(ops, cOp[W]{what + "." + name + "(" + id + ")", func(w W) string {
				o := get(w)
				if isNil(o) {
					return "gone"
				}
				m := reflect.ValueOf(o).MethodByName(name)
				if !m.IsValid() {
					return "other object"
				}
				var in []reflect.Value
				for a, f := range as {
					x := reflect.ValueOf(f(w))
					if !x.IsValid() {
						x = reflect.Zero(m.Type().In(a))
					}
					in = append(in, x)
				}
				s := ""
				for _, r := range m.Call(in) {
					s += cSay(r.Interface(), 4) + ";"
				}
				return s
			}})
		}
	}
	return
}

// cRun asks a world made anew in some order, and another one from several goroutines.
func cRun[W any](c *C, fresh func() W, ops []cOp[W], par bool) {
	t := c.T
	want := make([]string, len(ops))
	w := fresh()
	for i, o := range ops {
		want[i] = o.ask(w)
	}
	differ := func(o cOp[W], got, want, how string) {
		c.Check(got == want, "answer:"+strings.SplitN(o.name, "(", 2)[0], "%s: %q %s, but %q", o.name, got, how, want)
	}
	if !par {
		for round, w := range []W{fresh(), fresh()} {
			seq := rapid.Permutation(cIndex(len(ops))).Draw(t, "order")
			for k := len(ops) / 2; k > 0; k-- {
				seq = append(seq, pick(t, len(ops)))
			}
			if round == 0 {
				slices.Reverse(seq)
			}
			asked := map[int]bool{}
			for _, i := range seq {
				how := "in another order"
				if asked[i] {
					how = "when asked again"
				}
				asked[i] = true
				differ(ops[i], ops[i].ask(w), want[i], how)
			}
		}
		return
	}
	const workers = 6
	plans := make([][]int, workers)
	n := min(len(ops), 40)
	shared := rapid.Permutation(cIndex(len(ops))).Draw(t, "order")
	for g := range plans {
		if g < 2 { // at least two at the same time ask the same
			plans[g] = shared[:n]
			continue
		}
		for k := 0; k < n; k++ {
			plans[g] = append(plans[g], pick(t, len(ops)))
		}
	}
	got := make([][]string, workers)
	w = fresh()
	races := raceErrors()
	var ready, done sync.WaitGroup
	gate := make(chan struct{})
	for g := range plans {
		ready.Add(1)
		done.Add(1)
		go func() {
			defer done.Done()
			out := make([]string, 0, len(plans[g]))
			ready.Done()
			<-gate
			for _, i := range plans[g] {
				out = append(out, ops[i].ask(w))
			}
			got[g] = out
		}()
	}
	ready.Wait()
	close(gate)
	done.Wait()
	if n := raceErrors() - races; n > 0 {
		var names []string
		for _, i := range shared[:n] {
			names = append(names, ops[i].name)
		}
		c.Fail("race", "%d data races (see the log) among these questions and others:\n%s", n, strings.Join(names, "\n"))
	}
	for g := range plans {
		for k, i := range plans[g] {
			differ(ops[i], got[g][k], want[i], "from one of several goroutines")
		}
	}
}

func cIndex(n int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = i
	}
	return out
}

// --- extensions, functions and dialects

type cReg struct {
	col   *ext.Collection
	reg   functions.FunctionRegistry
	dia   functions.Dialect
	types []types.Type
	calls []any
	mu    sync.Mutex
	local functions.LocalFunctionRegistry
	ltr   functions.LocalTypeRegistry
}

func (w *cReg) loc() functions.LocalFunctionRegistry {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.local == nil {
		w.local, _ = w.dia.LocalizeFunctionRegistry(w.reg)
	}
	return w.local
}

func (w *cReg) ltypes() functions.LocalTypeRegistry {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.ltr == nil {
		w.ltr, _ = w.dia.GetLocalTypeRegistry()
	}
	return w.ltr
}

func cRegistries(c *C, par bool) {
	t := c.T
	var text []string
	var dialect string
	u := genUniverse(t)
	d, _ := genDDialect(t, u)
	for i := 0; d.Bad != "" && i < 8; i++ {
		d, _ = genDDialect(t, u)
	}
	text, dialect = u.Text, d.doc(t)
	var ids []ext.FunctionID
	var tids []ext.TypeID
	var vids []ext.TypeVariationID
	if pct(t, 50) {
		f := genXFile(t, "extension:verif:cx", nil, 4)
		text = append(text, yText(f.doc(t), yStyle(t)))
		for _, fn := range f.Funcs {
			ids = append(ids, ext.FunctionID{URN: f.URN, Name: fn.Name})
			for _, im := range fn.Impls[:min(1, len(fn.Impls))] {
				ids = append(ids, ext.FunctionID{URN: f.URN, Name: im.compound(fn.Name)})
			}
		}
		for _, ty := range f.Types {
			tids = append(tids, ext.TypeID{URN: f.URN, Name: ty.Name})
		}
		for _, v := range f.Vars {
			vids = append(vids, ext.TypeVariationID{URN: f.URN, Name: v.Name})
		}
	}
	var args [][]types.Type
	var tds []*TD
	for range 6 {
		tds = append(tds, genTD(t, typeGenOpts{depth: 1, noFunc: true, noUnspec: true, decimalOK: true, noEmpty: true}))
	}
	var strs []string
	for _, f := range u.Fns {
		ids = append(ids, f.id(), ext.FunctionID{URN: f.URN, Name: f.Name})
		strs = append(strs, f.Name, f.URN)
		var as []types.Type
		for _, a := range f.Args {
			as = append(as, a.Type)
		}
		args = append(args, as)
	}
	ids = append(ids, ext.FunctionID{URN: "extension:verif:da", Name: "nothing:i8"})
	strs = append(strs, "nothing", "INTEGER", "i32?", "decimal<10,2>", "VARCHAR(3)", "bool", "varchar<7>", "ts", "overflow", "ERROR", "precision_timestamp<3>", "int4", "i8<", "fp64")
	fresh := func() *cReg {
		w := &cReg{col: &ext.Collection{}}
		for _, s := range text {
			if err := w.col.Load(strings.NewReader(s)); err != nil {
				c.Fail("load", "%v\n%s", err, s)
			}
		}
		w.reg = functions.NewFunctionRegistry(w.col)
		var err error
		if w.dia, err = functions.LoadDialect("d", strings.NewReader(dialect)); err != nil {
			c.Fail("dialect", "%v\n%s", err, dialect)
		}
		for _, td := range tds {
			w.types = append(w.types, td.build())
		}
		ereg := expr.NewEmptyExtensionRegistry(w.col)
		for i, f := range u.Fns {
			var fa []types.FuncArg
			for j, ty := range args[i] {
				fa = append(fa, &expr.DynamicParameter{OutputType: ty, ParameterReference: uint32(j)})
			}
			var x any
			var err error
			switch f.Kind {
			case "scalar":
				x, err = expr.NewScalarFunc(ereg, f.id(), nil, fa...)
			case "aggregate":
				x, err = expr.NewAggregateFunc(ereg, f.id(), nil, types.AggInvocationAll, types.AggPhaseInitialToResult, nil, fa...)
			default:
				x, err = expr.NewWindowFunc(ereg, f.id(), nil, types.AggInvocationAll, types.AggPhaseInitialToResult, fa...)
			}
			if err == nil {
				w.calls = append(w.calls, x)
			}
		}
		return w
	}
	w := fresh()
	c.Case(len(u.Fns) >= 3, "%s\n%s", strings.Join(text, "\n"), dialect)
	p := cPools[*cReg]{}
	cPut(p, strs...)
	cPut(p, ids...)
	cPut(p, tids...)
	cPut(p, vids...)
	cPut(p, 0, 1, 2, 3)
	cPut(p, args...)
	for i := range tds {
		cPutF(p, func(w *cReg) types.Type { return w.types[i] })
	}
	for _, n := range strs[:min(8, len(strs))] {
		cPut[functions.FunctionName](p, functions.LocalFunctionName(n), functions.SubstraitFunctionName(n))
	}
	for _, n := range dLocals {
		cPut[functions.FunctionName](p, functions.LocalFunctionName(n))
	}
	cPutF(p, func(w *cReg) functions.FunctionRegistry { return w.reg })
	cPutF(p, func(w *cReg) functions.TypeRegistry { return functions.NewTypeRegistry() })
	cPutF(p, func(w *cReg) ext.Set { return ext.NewSet() })
	for i, x := range w.calls {
		switch x.(type) {
		case *expr.ScalarFunction:
			cPutF(p, func(w *cReg) *expr.ScalarFunction { return w.calls[i].(*expr.ScalarFunction) })
		case *expr.AggregateFunction:
			cPutF(p, func(w *cReg) *expr.AggregateFunction { return w.calls[i].(*expr.AggregateFunction) })
		case *expr.WindowFunction:
			cPutF(p, func(w *cReg) *expr.WindowFunction { return w.calls[i].(*expr.WindowFunction) })
		}
	}
	var ops []cOp[*cReg]
	add := func(what string, get func(w *cReg) any, n int) { ops = append(ops, cMethods(t, w, what, get, p, n)...) }
	add("collection", func(w *cReg) any { return w.col }, 5)
	add("functions", func(w *cReg) any { return w.reg }, 4)
	add("dialect", func(w *cReg) any { return w.dia }, 2)
	add("local", func(w *cReg) any { return w.loc() }, 5)
	add("localtypes", func(w *cReg) any { return w.ltypes() }, 6)
	add("types", func(w *cReg) any { return functions.NewTypeRegistry() }, 4)
	nth := func(vs []ext.FunctionVariant, i int) any {
		slices.SortFunc(vs, func(a, b ext.FunctionVariant) int { return strings.Compare(cSay(a, 1), cSay(b, 1)) })
		return vs[i]
	}
	all := len(w.reg.GetAllFunctions())
	for k := 0; k < 2 && all > 0; k++ {
		i := pick(t, all)
		add("variant", func(w *cReg) any { return nth(slices.Clone(w.reg.GetAllFunctions()), i) }, 3)
	}
	if l := w.loc(); l != nil && len(l.GetAllFunctions()) > 0 {
		i := pick(t, len(l.GetAllFunctions()))
		add("localvariant", func(w *cReg) any { return nth(slices.Clone(w.loc().GetAllFunctions()), i) }, 3)
	}
	// calls made over the shared collection, with registries of their own
	for k := 0; k < 3 && len(u.Fns) > 0; k++ {
		i := pick(t, len(u.Fns))
		ops = append(ops, cOp[*cReg]{fmt.Sprintf("call%d", i), func(w *cReg) string {
			ereg := expr.NewEmptyExtensionRegistry(w.col)
			var fa []types.FuncArg
			for j, ty := range args[i] {
				fa = append(fa, &expr.DynamicParameter{OutputType: ty, ParameterReference: uint32(j)})
			}
			x, err := expr.NewScalarFunc(ereg, u.Fns[i].id(), nil, fa...)
			if err != nil {
				return "error"
			}
			return cSay(x, 1)
		}})
	}
	c.Label(fmt.Sprintf("%d0 questions", len(ops)/10))
	cRun(c, fresh, ops, par)
}

// --- plans, expressions and types

var cDecoders = map[string]expr.ExtensionRelDecoder{defURL: vdec{}}

type cPlan struct {
	p     *plan.Plan
	msg   *pb.Plan
	rels  []plan.Rel
	exprs []any
}

func cPlans(c *C, par bool) {
	t := c.T
	pm := genPM(t, RCtx{msg: true, edepth: 1, write: true}, 2)
	msg := pm.proto(false)
	col := eCol()
	fresh := func() *cPlan {
		w := &cPlan{msg: wire(msg)}
		var err error
		if w.p, err = plan.FromProtoWithDecoder(wire(msg), col, cDecoders); err != nil {
			c.Fail("plan", "%v", err)
		}
		var walk func(r plan.Rel)
		walk = func(r plan.Rel) {
			w.rels = append(w.rels, r)
			w.exprs = append(w.exprs, relExprs(r)...)
			for _, in := range r.GetInputs() {
				walk(in)
			}
		}
		for _, r := range w.p.Relations() {
			if r.IsRoot() {
				walk(r.Root().Input())
			} else {
				walk(r.Rel())
			}
		}
		return w
	}
	w := fresh()
	c.Case(len(w.rels) >= 3, "%v", pm)
	p := cPools[*cPlan]{}
	cPut(p, 0, 1)
	cPut[int32](p, 0, 1, 2)
	cPut(p, types.NullabilityRequired, types.NullabilityNullable)
	for i, x := range w.exprs {
		if _, ok := x.(expr.Expression); ok {
			cPutF(p, func(w *cPlan) expr.Expression { return w.exprs[i].(expr.Expression) })
			cPutF(p, func(w *cPlan) types.Type { return w.exprs[i].(expr.Expression).GetType() })
		}
	}
	var ops []cOp[*cPlan]
	add := func(what string, get func(w *cPlan) any, n int) {
		ops = append(ops, cMethods(t, w, what, get, p, n)...)
	}
	add("plan", func(w *cPlan) any { return w.p }, 1)
	for i := range w.p.GetRoots() {
		add(fmt.Sprintf("root%d", i), func(w *cPlan) any { return w.p.GetRoots()[i] }, 1)
	}
	for k := 0; k < 4; k++ {
		i := pick(t, len(w.rels))
		get := func(w *cPlan) plan.Rel { return w.rels[i] }
		add(fmt.Sprintf("rel%d", i), func(w *cPlan) any { return get(w) }, 1)
		ops = append(ops, cOp[*cPlan]{fmt.Sprintf("rel%d.Copy", i), func(w *cPlan) string {
			r, err := get(w).Copy(get(w).GetInputs()...)
			return cSay(r, 1) + cSay(err, 1)
		}}, cOp[*cPlan]{fmt.Sprintf("rel%d.Remap", i), func(w *cPlan) string {
			r, err := get(w).Remap(0)
			return cSay(r, 1) + cSay(err, 1)
		}}, cOp[*cPlan]{fmt.Sprintf("rel%d.Rewrite", i), func(w *cPlan) string {
			n := 0
			r, err := get(w).CopyWithExpressionRewrite(func(e expr.Expression) (expr.Expression, error) { n++; return e, nil }, get(w).GetInputs()...)
			return fmt.Sprint(n) + cSay(r, 1) + cSay(err, 1)
		}}, cOp[*cPlan]{fmt.Sprintf("rel%d.schema", i), func(w *cPlan) string {
			rt := get(w).RecordType()
			s := ""
			for _, f := range rt.Types() {
				s += cProto(types.TypeToProto(f)) + f.String() + f.WithNullability(types.NullabilityNullable).String()
			}
			return s
		}})
	}
	for k := 0; k < 4 && len(w.exprs) > 0; k++ {
		i := pick(t, len(w.exprs))
		add(fmt.Sprintf("expr%d", i), func(w *cPlan) any { return w.exprs[i] }, 2)
		if _, ok := w.exprs[i].(expr.Expression); ok {
			get := func(w *cPlan) expr.Expression { return w.exprs[i].(expr.Expression) }
			add(fmt.Sprintf("type%d", i), func(w *cPlan) any { return get(w).GetType() }, 2)
			ops = append(ops, cOp[*cPlan]{fmt.Sprintf("expr%d.Visit", i), func(w *cPlan) string {
				var kids []string
				e := get(w).Visit(func(k expr.Expression) expr.Expression { kids = append(kids, cSay(k, 1)); return k })
				return fmt.Sprint(kids) + cSay(e, 1)
			}}, cOp[*cPlan]{fmt.Sprintf("expr%d.deep", i), func(w *cPlan) string {
				useExpr(get(w))
				return ""
			}})
		}
	}
	ops = append(ops, cOp[*cPlan]{"parse", func(w *cPlan) string {
		q, err := plan.FromProtoWithDecoder(w.msg, col, cDecoders)
		if err != nil {
			return "error"
		}
		m, err := q.ToProto()
		return cProto(m) + cSay(err, 1)
	}}, cOp[*cPlan]{"build", func(w *cPlan) string {
		b := plan.NewBuilder(col)
		r, err := b.Project(w.rels[0], expr.NewPrimitiveLiteral(int32(3), true))
		if err != nil {
			return "error"
		}
		q, err := b.Plan(r, append(cNames(w.rels[0]), "x"))
		if err != nil {
			return "error"
		}
		m, err := q.ToProto()
		return cProto(m) + cSay(err, 1)
	}})
	for a := uint32(0); a < 4; a++ {
		ops = append(ops, cOp[*cPlan]{fmt.Sprintf("anchor%d", a), func(w *cPlan) string {
			r := w.p.ExtensionRegistry()
			id, ok := r.DecodeFunc(a)
			ty, ok2 := r.DecodeType(a)
			return fmt.Sprint(id, ok, ty, ok2)
		}})
	}
	c.Label(fmt.Sprintf("%d0 questions", len(ops)/10))
	cRun(c, fresh, ops, par)
}

func cNames(r plan.Rel) []string {
	var out []string
	for i := range r.RecordType().Types() {
		out = append(out, fmt.Sprint("c", i))
	}
	return out
}

// --- what the packages hold themselves

var cTypeTexts = []string{"i8", "i32?", "decimal<10,2>", "decimal?<P,S>", "varchar<L1>", "list<any1>", "map<string,i64?>", "struct<i8,list<string>>", "precision_timestamp<6>",
	"any1", "func<any1 -> boolean>", "interval_day<3>", "u!point", "timestamp_tz?", "fixedbinary<16>", "precision_time<0>", "decimal<38,", "nope", "NSTRUCT<a: i8>",
	"%a = max(S1,S2)\nb = a + 1\ndecimal<b, a>"}

func cGlobals() (ops []cOp[int]) {
	add := func(name string, f func() string) { ops = append(ops, cOp[int]{name, func(int) string { return f() }}) }
	add("default collection", func() string {
		c, err := ext.GetDefaultCollection()
		s := cSay(err, 1) + cSay(c.GetAllScalarFunctions(), 2) + cSay(c.GetAllAggregateFunctions(), 2) + cSay(c.GetAllWindowFunctions(), 2)
		return fmt.Sprint(hash64(s), len(s))
	})
	add("default collection again", func() string {
		return fmt.Sprint(len(ext.GetDefaultCollectionWithNoError().GetAllScalarFunctions()))
	})
	for _, s := range cTypeTexts {
		add("parse "+s, func() string {
			ty, err := typeparser.ParseType(s)
			return cSay(ty, 3) + cSay(err, 1)
		})
		add("registry "+s, func() string {
			ty, err := functions.NewTypeRegistry().GetTypeFromTypeString(s)
			return cSay(ty, 3) + cSay(err, 1)
		})
	}
	add("type names", func() string {
		s := ""
		for n, ty := range types.GetTypeNameToTypeMap() {
			s += "" + n[:0] + fmt.Sprint(ty == nil)[:0]
		}
		m := types.GetTypeNameToTypeMap()
		var ks []string
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			s += k + "=" + m[k].String() + fmt.Sprint(m[k].GetNullability()) + types.GetShortTypeName(types.TypeName(k)) + ";"
		}
		return s
	})
	for _, n := range []types.TypeName{"i8", "string", "date", "boolean", "nope"} {
		add("simple "+string(n), func() string {
			ty, err := types.SimpleTypeNameToType(n)
			if err != nil {
				return "error"
			}
			return ty.String() + ty.WithNullability(types.NullabilityNullable).String() + fmt.Sprint(ty.GetNullability())
		})
	}
	for _, n := range []types.TypeName{"fixedchar", "varchar", "fixedbinary", "nope"} {
		add("fixed "+string(n), func() string {
			ty, err := types.FixedTypeNameToType(n)
			if err != nil {
				return "error"
			}
			return cSay(ty.WithLength(7), 2) + cSay(ty.WithLength(9).WithNullability(types.NullabilityNullable), 2)
		})
	}
	for i, s := range []string{"### SUBSTRAIT_SCALAR_TEST: v1.0\n### SUBSTRAIT_INCLUDE: '/extensions/functions_arithmetic.yaml'\n# g\nadd(120::i8, 5::i8) [overflow:ERROR, rounding:x] = 125::i8\n",
		"### SUBSTRAIT_AGGREGATE_TEST: v1.0\n### SUBSTRAIT_INCLUDE: '/extensions/functions_arithmetic.yaml'\n# g\n((20), (-3), (1)) avg(col0::fp32) = 2.0::fp64\n"} {
		add(fmt.Sprint("test file ", i), func() string {
			f, err := tcparser.ParseTestCasesFromString(s)
			if err != nil {
				return "error"
			}
			reg, fr := functions.NewExtensionAndFunctionRegistries(ext.GetDefaultCollectionWithNoError())
			x, _ := f.TestCases[0].GetScalarFunctionInvocation(&reg, fr)
			y, _ := f.TestCases[0].GetAggregateFunctionInvocation(&reg, fr)
			return f.TestCases[0].String() + cSay(x, 1) + cSay(y, 1)
		})
	}
	add("add", func() string {
		reg := expr.NewEmptyExtensionRegistry(ext.GetDefaultCollectionWithNoError())
		x, err := expr.NewScalarFunc(reg, ext.FunctionID{URN: "extension:io.substrait:functions_arithmetic", Name: "add:i32_i32"}, nil, expr.NewPrimitiveLiteral(int32(1), false), expr.NewPrimitiveLiteral(int32(2), true))
		return cSay(x, 1) + cSay(err, 1)
	})
	add("plan", func() string {
		b := plan.NewBuilderDefault()
		r := b.NamedScan([]string{"t"}, types.NamedStruct{Names: []string{"a", "b"}, Struct: types.StructType{Nullability: types.NullabilityRequired,
			Types: []types.Type{&types.Int32Type{Nullability: types.NullabilityRequired}, &types.StringType{Nullability: types.NullabilityNullable}}}})
		p, err := b.Plan(r, []string{"a", "b"})
		if err != nil {
			return "error"
		}
		m, err := p.ToProto()
		return cProto(m) + cSay(err, 1)
	})
	add("literals", func() string {
		a, err := literal.NewDecimalFromString("123.45", false)
		b, err2 := literal.NewDateFromString("2020-02-29", true)
		return cSay(a, 1) + cSay(b, 1) + cSay(err, 1) + cSay(err2, 1)
	})
	for _, k := range []string{"duckdb", "datafusion"} {
		add("dialect "+k, func() string {
			d, err := functions.LoadDialect(k, strings.NewReader("name: "+k+"\ntype: sql\ndependencies:\n  arithmetic: extension:io.substrait:functions_arithmetic\nsupported_types:\n  i32:\n    sql_type_name: INTEGER\n    supported_as_column: true\nscalar_functions:\n- name: arithmetic.add\n  local_name: +\n  infix: true\n  supported_kernels:\n  - i32_i32\n"))
			if err != nil {
				return "error"
			}
			l, err := d.LocalizeFunctionRegistry(functions.NewFunctionRegistry(ext.GetDefaultCollectionWithNoError()))
			if err != nil {
				return "error " + err.Error()
			}
			return cSay(l.GetAllFunctions(), 2)
		})
	}
	return
}

// TestC01Child is the first use in a process of what the packages hold, by several goroutines.
func TestC01Child(t *testing.T) {
	out := os.Getenv("VERIF_CHILD")
	if out == "" {
		t.Skip()
	}
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null
	}
	ops := cGlobals()
	n := 0
	fmt.Sscan(os.Getenv("VERIF_CHILD_SEED"), &n)
	got := make([]map[string]string, 8)
	var done sync.WaitGroup
	gate := make(chan struct{})
	for g := range got {
		got[g] = map[string]string{}
		done.Add(1)
		go func() {
			defer done.Done()
			<-gate
			for k := range ops {
				o := ops[(k*(2*(g/2)+1)+n)%len(ops)] // pairs of goroutines ask the same
				got[g][o.name] = o.ask(0)
			}
		}()
	}
	close(gate)
	done.Wait()
	s := ""
	for _, o := range ops {
		seen := map[string]bool{}
		for g := range got {
			if a, ok := got[g][o.name]; ok {
				seen[a] = true
			}
		}
		for a := range seen {
			s += fmt.Sprintf("%q %q\n", o.name, a)
		}
	}
	if err := os.WriteFile(out, []byte(s), 0o644); err != nil {
		t.Fatal(err)
	}
}

func cFirstUse(c *C) {
	n := pick(c.T, 1000)
	c.Case(true, "first use, rotation %d", n)
	f, err := os.CreateTemp("", "verif-child")
	if err != nil {
		c.T.Skip(err)
	}
	f.Close()
	defer os.Remove(f.Name())
	cmd := exec.Command(os.Args[0], "-test.run", "^TestC01Child$")
	cmd.Env = append(os.Environ(), "VERIF_CHILD="+f.Name(), fmt.Sprint("VERIF_CHILD_SEED=", n), "GORACE=exitcode=66")
	out, err := cmd.CombinedOutput()
	log := string(out)
	if len(log) > 6000 {
		log = log[:6000]
	}
	c.Check(!strings.Contains(string(out), "DATA RACE"), "race", "data race on first use:\n%s", log)
	c.Check(err == nil, "crash", "first use ended with %v:\n%s", err, log)
	b, _ := os.ReadFile(f.Name())
	lines := strings.Split(strings.TrimSuffix(string(b), "\n"), "\n")
	ops := cGlobals()
	var want []string
	for _, o := range ops {
		want = append(want, fmt.Sprintf("%q %q", o.name, o.ask(0)))
	}
	for i, l := range lines {
		c.Check(i < len(want) && l == want[i], "first_use", "%s, want %s", l, want[min(i, len(want)-1)])
	}
	c.Check(len(lines) == len(want), "first_use", "%d answers, want %d", len(lines), len(want))
}

func TestC01(t *testing.T) {
	p := start(t, "C01", "three functions or more in the registries; three relations or more in the plan; every rotation of the first uses")
	defer p.finish()
	p.sub("registries", 120, func(c *C) { cRegistries(c, false) })
	p.sub("registries_shared", 200, func(c *C) { cRegistries(c, true) })
	p.sub("plans", 300, func(c *C) { cPlans(c, false) })
	p.sub("plans_shared", 700, func(c *C) { cPlans(c, true) })
	p.sub("globals_shared", 30, func(c *C) {
		ops := cGlobals()
		c.Case(true, "%d", pick(c.T, 1<<30))
		cRun(c, func() int { return 0 }, ops, true)
	})
	p.sub("first_use", 6, cFirstUse)
	if !raceBuild {
		t.Log("built without the race detector")
	}
}
