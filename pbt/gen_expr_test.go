package pbt

// EX is an independent model of an expression: its kind, operands and result type. From an EX the
// checks build the Go expression by the constructors and by the fluent builder, the protobuf message,
// and know the type and the operands in visiting order.

import (
	"fmt"
	"math"
	"strings"
	"sync"

	"github.com/substrait-io/substrait-go/v8/expr"
	ext "github.com/substrait-io/substrait-go/v8/extensions"
	"github.com/substrait-io/substrait-go/v8/plan"
	"github.com/substrait-io/substrait-go/v8/types"
	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	pbext "github.com/substrait-io/substrait-protobuf/go/substraitpb/extensions"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"
)

const eURN = "extension:verif:expr"

const eFile = `%YAML 1.2
---
urn: extension:verif:expr
scalar_functions:
  - name: same
    impls:
      - args: [{name: a, value: any1}, {name: b, value: any1}]
        return: boolean
  - name: add
    impls:
      - args: [{value: i32}, {value: i32}]
        options: {overflow: {values: [SILENT, SATURATE, ERROR]}}
        return: i32
      - args: [{value: i64}, {value: i64}]
        options: {overflow: {values: [SILENT, SATURATE, ERROR]}}
        return: i64
  - name: pick
    impls:
      - args: [{value: any1}]
        variadic: {min: 1}
        return: any1
  - name: label
    impls:
      - args: [{value: string}]
        nullability: DECLARED_OUTPUT
        return: string?
  - name: part
    impls:
      - args: [{name: c, options: [YEAR, MONTH, DAY]}, {value: date}]
        return: i64
window_functions:
  - name: rank
    impls:
      - args: []
        return: i64
  - name: lag
    impls:
      - args: [{value: any1}]
        decomposable: MANY
        intermediate: any1
        return: any1
aggregate_functions:
  - name: total
    impls:
      - args: [{value: i32}]
        nullability: DECLARED_OUTPUT
        decomposable: MANY
        intermediate: i64?
        return: i64?
  - name: least
    impls:
      - args: [{value: any1}]
        return: any1
  - name: count
    impls:
      - args: []
        return: i64
`

var (
	eOnce sync.Once
	eColl *ext.Collection
)

func eCol() *ext.Collection {
	eOnce.Do(func() {
		col := &ext.Collection{}
		other := "%%YAML 1.2\n---\nurn: %s\nscalar_functions:\n  - name: unrelated\n    impls:\n      - args: []\n        return: i8\n"
		for _, f := range []string{eFile, fmt.Sprintf(other, "extension:verif:custom"), fmt.Sprintf(other, "extension:verif:other")} {
			if err := col.Load(strings.NewReader(f)); err != nil {
				panic(err)
			}
		}
		eColl = col
	})
	return eColl
}

type eFn struct {
	Kind, URN, Name string
	Custom          bool
	Many            bool // decomposable: any phase
}

var eFns = map[string]eFn{
	"same": {"scalar", eURN, "same:any_any", false, false}, "add32": {"scalar", eURN, "add:i32_i32", false, false},
	"add64": {"scalar", eURN, "add:i64_i64", false, false}, "pick": {"scalar", eURN, "pick:any", false, false},
	"label": {"scalar", eURN, "label:str", false, false}, "part": {"scalar", eURN, "part:req_date", false, false},
	"rank": {"window", eURN, "rank:", false, false}, "lag": {"window", eURN, "lag:any", false, true},
	"total": {"agg", eURN, "total:i32", false, true}, "least": {"agg", eURN, "least:any", false, false}, "count": {"agg", eURN, "count:", false, false},
	"c_f": {"scalar", "extension:verif:custom", "f:any", true, true}, "c_g": {"scalar", "extension:verif:custom", "g", true, true},
	"c_w": {"window", "extension:verif:custom", "w:i32", true, true}, "c_a": {"agg", "extension:verif:other", "a:any_any", true, true},
	"c_add": {"scalar", eURN, "add:str_str", true, true},
}

// eAll are the functions in a fixed order.
var eAll = []string{"same", "add32", "add64", "pick", "label", "part", "rank", "lag", "total", "least", "count", "c_f", "c_g", "c_w", "c_a", "c_add"}

// EWorld is what expressions refer to: the functions' anchors.
type EWorld struct {
	Anchor map[string]uint32
	URNs   []*pbext.SimpleExtensionURN
	Decls  []*pbext.SimpleExtensionDeclaration
}

func genWorld(t *rapid.T) *EWorld {
	w := &EWorld{Anchor: map[string]uint32{}}
	urns := map[string]uint32{}
	base := rapid.SampledFrom([]uint32{1, 1, 10, 1000}).Draw(t, "anchorbase")
	step := rapid.SampledFrom([]uint32{1, 1, 3}).Draw(t, "anchorstep")
	order := append([]string(nil), eAll...)
	if rapid.Bool().Draw(t, "shuffled") {
		order = rapid.Permutation(order).Draw(t, "order")
	}
	for i, k := range order {
		f := eFns[k]
		if _, ok := urns[f.URN]; !ok {
			urns[f.URN] = uint32(len(urns))*step + base
			w.URNs = append(w.URNs, &pbext.SimpleExtensionURN{ExtensionUrnAnchor: urns[f.URN], Urn: f.URN})
		}
		w.Anchor[k] = base + uint32(i)*step
		w.Decls = append(w.Decls, &pbext.SimpleExtensionDeclaration{MappingType: &pbext.SimpleExtensionDeclaration_ExtensionFunction_{
			ExtensionFunction: &pbext.SimpleExtensionDeclaration_ExtensionFunction{ExtensionUrnReference: urns[f.URN], FunctionAnchor: w.Anchor[k], Name: f.Name}}})
	}
	return w
}

func (w *EWorld) set(c *C) ext.Set {
	s, err := ext.GetExtensionSet(&pb.Plan{ExtensionUrns: w.URNs, Extensions: w.Decls}, eCol())
	c.Check(err == nil, "extension_set", "GetExtensionSet: %v", err)
	return s
}

func (w *EWorld) reg(c *C) expr.ExtensionRegistry {
	reg := expr.NewExtensionRegistry(w.set(c), eCol())
	reg.SetSubqueryConverter(&plan.ExpressionConverter{ExtensionRegistry: reg})
	return reg
}

// ESeg is a step of a reference path.
type ESeg struct {
	K   string // field elem key
	I   int32
	Key *LV
}

type EOpt struct {
	Name string
	Pref []string
}

// EArg is a function argument: an operand (index into Kids), an enumeration value or a type.
type EArg struct {
	Enum string
	T    *TD
	Kid  int
	What string // "v" "e" "t"
}

type EBound struct {
	K string // "" prec foll cur unb
	N int64
}

type ERelM struct {
	Names  []string
	Cols   *ECols
	Filter *EX
}

type EX struct {
	K    string
	T    *TD
	LV   *LV
	Kids []*EX // in visiting order

	// ref
	Root   string // root expr outer lambda
	Steps  uint32
	Path   []ESeg
	RootEx *EX
	Mask   *EMask

	// functions
	Fn                      string
	Args                    []EArg
	Opts                    []EOpt
	NParts                  int
	SortDirs                []int32 // >0 direction, <=0 -> comparison function -(n)
	Phase, Invoc, BoundsTyp int32
	Lower, Upper            EBound

	HasElse bool
	FailB   int32
	NVal    int // mor: width
	Params  *ECols
	Op, Op2 int32
	Rel     *ERelM
}

// ECols is a list of column (or parameter) types that grows as references need them, unless it is frozen.
type ECols struct {
	T      []*TD
	Var    uint32 // type variation of lambda parameters
	Frozen bool
}

func (s *ECols) td() *TD { return &TD{Kind: "struct", Null: 2, Var: s.Var, Kids: s.T} }

// names gives depth-first names.
func (s *ECols) names() []string {
	var out []string
	for i := 0; i < s.td().nameCount(); i++ {
		out = append(out, fmt.Sprintf("n%d", i))
	}
	return out
}

func (s *ECols) record() *types.RecordType {
	return types.NewRecordTypeFromTypes(buildAll(s.T))
}

func (s *ECols) named() types.NamedStruct {
	return types.NamedStruct{Names: s.names(), Struct: types.StructType{Nullability: types.NullabilityRequired, Types: buildAll(s.T)}}
}

type ECtx struct {
	cols  *ECols
	lams  []*ECols
	outs  []*ECols
	msg   bool // only has to be expressible as a message
	noSub bool
	noLam bool
	noWin bool
	inSub bool
}

var eTypeOpts = typeGenOpts{depth: 2, noUnspec: true, decimalOK: true, noEmpty: true}

func genETD(t *rapid.T) *TD { return genLitTD(t, eTypeOpts) }

// genWrapTD draws a struct inside several layers of lists, maps and structs.
func genWrapTD(t *rapid.T) *TD {
	null := func() int { return 1 + rapid.IntRange(0, 1).Draw(t, "wnull") }
	leaf := func() *TD {
		return &TD{Kind: rapid.SampledFrom([]string{"i32", "string", "boolean"}).Draw(t, "wleaf"), Null: null()}
	}
	d := &TD{Kind: "struct", Null: null()}
	for i := rapid.IntRange(1, 3).Draw(t, "wfields"); i > 0; i-- {
		d.Kids = append(d.Kids, leaf())
	}
	for i := rapid.IntRange(1, 4).Draw(t, "layers"); i > 0; i-- {
		switch rapid.IntRange(0, 5).Draw(t, "layer") {
		case 0, 1, 2:
			d = &TD{Kind: "list", Null: null(), Kids: []*TD{d}}
		case 3:
			d = &TD{Kind: "map", Null: null(), Kids: []*TD{leaf(), d}}
		case 4:
			d = &TD{Kind: "map", Null: null(), Kids: []*TD{d, leaf()}}
		default:
			d = &TD{Kind: "struct", Null: null(), Kids: []*TD{d, leaf()}}
		}
	}
	return d
}

// etd draws a type: with columns that cannot grow, mostly one that is there.
func (x ECtx) etd(t *rapid.T) *TD {
	if x.cols == nil || !x.cols.Frozen || len(x.cols.T) == 0 || !pct(t, 75) {
		return genETD(t)
	}
	d := rapid.SampledFrom(x.cols.T).Draw(t, "coltype")
	for len(d.Kids) > 0 && d.Kind != "func" && pct(t, 30) {
		d = rapid.SampledFrom(d.Kids).Draw(t, "parttype")
	}
	if d.Null == 0 {
		return genETD(t)
	}
	return d.clone()
}

func boolTD(null int) *TD { return &TD{Kind: "boolean", Null: null} }

// pct is true in about n of 100 draws and shrinks to false. (rapid's ranges prefer small values.)
func pct(t *rapid.T, n int) bool {
	u := rapid.Uint64().Draw(t, "pct")
	if u == 0 {
		return false
	}
	u = (u ^ u>>31) * 0x9e3779b97f4a7c15
	u = (u ^ u>>29) * 0xbf58476d1ce4e5b9
	return (u>>32)%100 < uint64(n)
}

// genEX draws an expression of the wanted type.
func genEX(t *rapid.T, x ECtx, d *TD, depth int) *EX {
	var ks []string
	ks = append(ks, "ref", "ref", "param")
	if d.litable() {
		ks = append(ks, "lit", "lit")
	}
	if depth > 0 {
		ks = append(ks, "cast", "if", "switch", "pick", "custom", "custom")
		if !x.noWin {
			ks = append(ks, "window", "lag")
		}
		plain := d.Var == 0
		switch d.Kind {
		case "boolean":
			if plain {
				ks = append(ks, "same", "same")
				if d.Null == 2 {
					ks = append(ks, "or", "or", "mor", "mor")
					if !x.noSub {
						ks = append(ks, "in", "set", "setcmp")
					}
				}
			}
		case "i32":
			if plain {
				ks = append(ks, "add32", "add32", "add32")
			}
		case "i64":
			if plain {
				ks = append(ks, "add64", "part", "part")
				if d.Null == 2 && !x.noWin {
					ks = append(ks, "rank", "rank")
				}
			}
		case "string":
			if plain && d.Null == 1 {
				ks = append(ks, "label", "label", "label")
			}
		case "list", "map", "struct":
			if len(d.Kids) > 0 {
				ks = append(ks, "nested", "nested", "nested")
			}
		case "func":
			if d.Null == 2 && !x.noLam {
				ks = append(ks, "lambda", "lambda", "lambda", "lambda", "lambda", "lambda")
			}
		}
		if !x.noSub {
			ks = append(ks, "scalarsub")
		}
	}
	e := &EX{T: d.clone()}
	sub := func(d *TD) int {
		for i := len(e.Kids) - 1; i >= 0; i-- {
			// now and then the very same operand again
			if e.Kids[i].T.equal(d) && pct(t, 8) {
				e.Kids = append(e.Kids, e.Kids[i].clone())
				return len(e.Kids) - 1
			}
		}
		e.Kids = append(e.Kids, genEX(t, x, d, depth-1))
		return len(e.Kids) - 1
	}
	varg := func(d *TD) { e.Args = append(e.Args, EArg{What: "v", Kid: sub(d)}) }
	// mirror draws nullabilities for n operands so that one is nullable iff the result is
	mirror := func(n int) []int {
		out := make([]int, n)
		for i := range out {
			out[i] = 2
			if d.Null == 1 {
				out[i] = 1 + rapid.IntRange(0, 1).Draw(t, "null")
			}
		}
		if d.Null == 1 && n > 0 {
			out[rapid.IntRange(0, n-1).Draw(t, "nullat")] = 1
		}
		return out
	}
	k := rapid.SampledFrom(ks).Draw(t, "ekind")
	e.K = k
	switch k {
	case "lit":
		e.LV = genLV(t, d.clone())
	case "param":
		e.Op = rapid.SampledFrom([]int32{0, 1, 7, math.MaxInt32}).Draw(t, "pref")
	case "ref":
		genRef(t, x, e, depth)
	case "cast":
		e.FailB = int32(rapid.IntRange(0, 2).Draw(t, "failb"))
		if pct(t, 15) {
			// a cast to the type the operand has already
			sub(d)
			if in := e.Kids[0]; pct(t, 60) {
				e.Kids[0] = &EX{K: "cast", T: d.clone(), FailB: e.FailB, Kids: []*EX{in}}
			}
		} else {
			sub(x.etd(t))
		}
	case "if":
		for i := rapid.IntRange(1, 3).Draw(t, "nif"); i > 0; i-- {
			sub(boolTD(1 + rapid.IntRange(0, 1).Draw(t, "null")))
			sub(d)
		}
		sub(d)
		e.HasElse = true
	case "switch":
		m := genLitTD(t, typeGenOpts{depth: 1, noFunc: true, noUnspec: true, decimalOK: true, noEmpty: true})
		sub(m.withNull(1 + rapid.IntRange(0, 1).Draw(t, "null")))
		n := rapid.IntRange(1, 3).Draw(t, "ncase")
		e.HasElse = d.Null == 2 || rapid.Bool().Draw(t, "else")
		var nulls []int
		if e.HasElse {
			nulls = mirror(n + 1)
		} else {
			for i := 0; i < n; i++ {
				nulls = append(nulls, 1+rapid.IntRange(0, 1).Draw(t, "null"))
			}
		}
		for i := 0; i < n; i++ {
			l := m.withNull(1 + rapid.IntRange(0, 1).Draw(t, "null"))
			e.Kids = append(e.Kids, &EX{K: "lit", T: l, LV: genLV(t, l)})
			sub(d.withNull(nulls[i]))
		}
		if e.HasElse {
			sub(d.withNull(nulls[n]))
		}
	case "or":
		m := x.etd(t)
		for i := rapid.IntRange(2, 4).Draw(t, "nor"); i > 0; i-- {
			sub(m)
		}
	case "mor":
		e.NVal = rapid.IntRange(1, 3).Draw(t, "w")
		var ms []*TD
		for i := 0; i < e.NVal; i++ {
			ms = append(ms, x.etd(t))
		}
		for r := rapid.IntRange(2, 3).Draw(t, "rows") + rapid.IntRange(0, 9).Draw(t, "more")/8*2; r > 0; r-- {
			for _, m := range ms {
				sub(m)
			}
		}
	case "pick":
		e.K, e.Fn = "scalar", "pick"
		for _, n := range mirror(rapid.IntRange(1, 3).Draw(t, "n")) {
			varg(d.withNull(n))
		}
	case "same":
		e.K, e.Fn = "scalar", "same"
		m := x.etd(t)
		for _, n := range mirror(2) {
			varg(m.withNull(n))
		}
	case "add32", "add64":
		e.K, e.Fn = "scalar", k
		for _, n := range mirror(2) {
			varg(&TD{Kind: d.Kind, Null: n})
		}
		e.Opts = genEOpts(t, "overflow", []string{"SILENT", "SATURATE", "ERROR"})
	case "part":
		e.K, e.Fn = "scalar", k
		e.Args = []EArg{{What: "e", Enum: rapid.SampledFrom([]string{"YEAR", "MONTH", "DAY"}).Draw(t, "enum")}}
		varg(&TD{Kind: "date", Null: d.Null})
	case "label":
		e.K, e.Fn = "scalar", k
		varg(&TD{Kind: "string", Null: 1 + rapid.IntRange(0, 1).Draw(t, "null")})
	case "custom":
		e.K, e.Fn = "scalar", rapid.SampledFrom([]string{"c_f", "c_g", "c_add"}).Draw(t, "fn")
		genCustomArgs(t, x, e, depth)
	case "window":
		e.K, e.Fn = "window", "c_w"
		genCustomArgs(t, x, e, depth)
		genWin(t, x, e, depth)
	case "lag":
		e.K, e.Fn = "window", "lag"
		varg(d)
		genWin(t, x, e, depth)
	case "rank":
		e.K, e.Fn = "window", "rank"
		genWin(t, x, e, depth)
	case "nested":
		e.K = d.Kind
		switch d.Kind {
		case "list":
			for i := rapid.IntRange(1, 3).Draw(t, "n"); i > 0; i-- {
				sub(d.Kids[0])
			}
		case "map":
			for i := rapid.IntRange(1, 3).Draw(t, "n"); i > 0; i-- {
				sub(d.Kids[0])
				sub(d.Kids[1])
			}
		case "struct":
			for _, f := range d.Kids {
				sub(f)
			}
		}
	case "lambda":
		if depth == 1 {
			depth = 2
		}
		e.Params = &ECols{T: d.Kids[: len(d.Kids)-1 : len(d.Kids)-1]}
		if pct(t, 30) {
			e.Params.Var = rapid.SampledFrom([]uint32{1, 7, math.MaxUint32}).Draw(t, "pvar")
		}
		y := x
		y.lams = append(append([]*ECols(nil), x.lams...), e.Params)
		fixed := len(e.Params.T)
		e.Kids = []*EX{genEX(t, y, d.Kids[len(d.Kids)-1], depth-1)}
		if len(e.Params.T) != fixed {
			panic("lambda parameters grew")
		}
	case "scalarsub":
		e.Rel = genERel(t, x, []*TD{d}, depth)
	case "set":
		e.Op = int32(rapid.IntRange(1, 2).Draw(t, "op"))
		e.Rel = genERel(t, x, nil, depth)
	case "in":
		var ms []*TD
		for i := rapid.IntRange(1, 2).Draw(t, "n"); i > 0; i-- {
			ms = append(ms, x.etd(t))
			sub(ms[len(ms)-1])
		}
		e.Rel = genERel(t, x, ms, depth)
	case "setcmp":
		e.Op = int32(rapid.IntRange(1, 2).Draw(t, "op"))
		e.Op2 = int32(rapid.IntRange(1, 6).Draw(t, "op2"))
		m := x.etd(t)
		sub(m)
		e.Rel = genERel(t, x, []*TD{m}, depth)
	default:
		panic(k)
	}
	return e
}

func genEOpts(t *rapid.T, name string, vals []string) (out []EOpt) {
	if pct(t, 60) {
		return nil
	}
	n := rapid.IntRange(1, len(vals)).Draw(t, "nprefs")
	return []EOpt{{Name: name, Pref: rapid.Permutation(vals).Draw(t, "prefs")[:n]}}
}

func genCustomArgs(t *rapid.T, x ECtx, e *EX, depth int) {
	for i := rapid.IntRange(0, 3).Draw(t, "nargs"); i > 0; i-- {
		switch {
		case pct(t, 12):
			e.Args = append(e.Args, EArg{What: "e", Enum: rapid.SampledFrom([]string{"A", "B", "x y"}).Draw(t, "enum")})
		case x.msg && pct(t, 8):
			e.Args = append(e.Args, EArg{What: "t", T: x.etd(t)})
		default:
			e.Kids = append(e.Kids, genEX(t, x, x.etd(t), depth-1))
			e.Args = append(e.Args, EArg{What: "v", Kid: len(e.Kids) - 1})
		}
	}
	for i := rapid.IntRange(0, 4).Draw(t, "nopts") - 2; i > 0; i-- {
		e.Opts = append(e.Opts, EOpt{Name: rapid.SampledFrom([]string{"a", "b", "overflow"}).Draw(t, "oname"),
			Pref: rapid.SliceOfN(rapid.SampledFrom([]string{"X", "Y", "ERROR"}), 0, 2).Draw(t, "prefs")})
	}
}

func genSorts(t *rapid.T, x ECtx, e *EX, depth, max int) {
	for i := rapid.IntRange(0, max).Draw(t, "nsorts") + rapid.IntRange(0, 9).Draw(t, "more")/9*2; i > 0; i-- {
		e.Kids = append(e.Kids, genEX(t, x, x.etd(t), depth-1))
		e.SortDirs = append(e.SortDirs, rapid.SampledFrom([]int32{1, 2, 3, 4, 5, 0, -3}).Draw(t, "dir"))
	}
}

func genBound(t *rapid.T) EBound {
	b := EBound{K: rapid.SampledFrom([]string{"unb", "prec", "foll", "cur"}).Draw(t, "bound")}
	if b.K == "prec" || b.K == "foll" {
		b.N = rapid.SampledFrom([]int64{0, 1, 5, math.MaxInt64}).Draw(t, "off")
	}
	return b
}

func genWin(t *rapid.T, x ECtx, e *EX, depth int) {
	e.NParts = rapid.IntRange(0, 2).Draw(t, "nparts")
	if pct(t, 15) {
		e.NParts += 2
	}
	for i := 0; i < e.NParts; i++ {
		e.Kids = append(e.Kids, genEX(t, x, x.etd(t), depth-1))
	}
	genSorts(t, x, e, depth, 2)
	genPhase(t, e)
	e.BoundsTyp = int32(rapid.IntRange(0, 2).Draw(t, "bt"))
	if e.BoundsTyp == 2 && len(e.SortDirs) != 1 {
		e.BoundsTyp = 1 // a range needs one sort field
	}
	if pct(t, 75) {
		e.Lower, e.Upper = genBound(t), genBound(t)
	}
}

func genPhase(t *rapid.T, e *EX) {
	e.Phase = 3 // INITIAL_TO_RESULT
	if eFns[e.Fn].Many {
		e.Phase = int32(rapid.IntRange(0, 4).Draw(t, "phase"))
	}
	e.Invoc = int32(rapid.IntRange(0, 2).Draw(t, "invoc"))
}

// genAgg draws an aggregate function call.
func genAgg(t *rapid.T, x ECtx, depth int) *EX {
	e := &EX{K: "agg", Fn: rapid.SampledFrom([]string{"total", "least", "count", "c_a"}).Draw(t, "fn")}
	switch e.Fn {
	case "total":
		e.T = &TD{Kind: "i64", Null: 1}
		e.Kids = []*EX{genEX(t, x, &TD{Kind: "i32", Null: 1 + rapid.IntRange(0, 1).Draw(t, "null")}, depth)}
		e.Args = []EArg{{What: "v"}}
	case "least":
		e.T = x.etd(t)
		e.Kids = []*EX{genEX(t, x, e.T, depth)}
		e.Args = []EArg{{What: "v"}}
	case "count":
		e.T = &TD{Kind: "i64", Null: 2}
	case "c_a":
		e.T = x.etd(t)
		genCustomArgs(t, x, e, depth+1)
	}
	genSorts(t, x, e, depth+1, 2)
	genPhase(t, e)
	return e
}

func genERel(t *rapid.T, x ECtx, cols []*TD, depth int) *ERelM {
	r := &ERelM{Names: []string{"t"}, Cols: &ECols{T: append([]*TD(nil), cols...)}}
	if cols == nil {
		r.Cols.T = []*TD{genETD(t)}
	}
	if rapid.Bool().Draw(t, "filter") {
		// the columns are fixed when they are what is compared: references go to outer schemas, or to them
		y := ECtx{cols: r.Cols, outs: append(append([]*ECols(nil), x.outs...), x.cols), msg: x.msg, noSub: depth < 2, noLam: x.noLam, noWin: true, inSub: true,
			lams: nil}
		if cols != nil {
			y.cols = &ECols{T: r.Cols.T[:len(r.Cols.T):len(r.Cols.T)]}
		}
		r.Filter = genEX(t, y, boolTD(1+rapid.IntRange(0, 1).Draw(t, "null")), depth-1)
		if cols != nil && len(y.cols.T) != len(r.Cols.T) {
			r.Filter = nil // needed more columns than there are
		}
	}
	return r
}

// wrapPath puts d inside containers and gives the path back to it.
func wrapPath(t *rapid.T, d *TD, depth int) (*TD, []ESeg) {
	if depth <= 0 || pct(t, 50) {
		return d, nil
	}
	o := &TD{Null: 1 + rapid.IntRange(0, 1).Draw(t, "null")}
	var s ESeg
	switch o.Kind = rapid.SampledFrom([]string{"struct", "list", "map", "struct"}).Draw(t, "cont"); o.Kind {
	case "struct":
		n := rapid.IntRange(1, 3).Draw(t, "n")
		s = ESeg{K: "field", I: int32(rapid.IntRange(0, n-1).Draw(t, "at"))}
		for i := 0; i < n; i++ {
			if i == int(s.I) {
				o.Kids = append(o.Kids, d)
			} else {
				o.Kids = append(o.Kids, genLitTD(t, typeGenOpts{depth: 1, noUnspec: true, decimalOK: true, noEmpty: true}))
			}
		}
	case "list":
		o.Kids = []*TD{d}
		s = ESeg{K: "elem", I: rapid.SampledFrom([]int32{0, 1, 100}).Draw(t, "off")}
	case "map":
		k := genLitTD(t, typeGenOpts{depth: 1, noFunc: true, noUnspec: true, decimalOK: true, noEmpty: true})
		o.Kids = []*TD{k, d}
		s = ESeg{K: "key", Key: genLV(t, k.clone())}
	}
	root, p := wrapPath(t, o, depth-1)
	return root, append(p, s)
}

// column gives an index of a column of the type, adding one if none.
func (s *ECols) column(t *rapid.T, d *TD) int32 {
	for i, c := range s.T {
		if c.equal(d) && pct(t, 75) {
			return int32(i)
		}
	}
	if pct(t, 25) {
		s.T = append(s.T, genETD(t))
	}
	s.T = append(s.T, d.clone())
	return int32(len(s.T) - 1)
}

// find gives a path to a part of the columns with the type, without adding columns.
func (s *ECols) find(t *rapid.T, d *TD) ([]ESeg, bool) {
	var hits [][]ESeg
	for i, c := range s.T {
		c.walkTo(t, d, []ESeg{{K: "field", I: int32(i)}}, func(p []ESeg) { hits = append(hits, p) }, 3)
	}
	if len(hits) == 0 {
		return nil, false
	}
	return rapid.SampledFrom(hits).Draw(t, "hit"), true
}

func (c *TD) walkTo(t *rapid.T, d *TD, at []ESeg, hit func([]ESeg), depth int) {
	if c.equal(d) {
		hit(at)
	}
	if depth == 0 {
		return
	}
	next := func(s ESeg) []ESeg { return append(at[:len(at):len(at)], s) }
	switch c.Kind {
	case "struct":
		for i, k := range c.Kids {
			k.walkTo(t, d, next(ESeg{K: "field", I: int32(i)}), hit, depth-1)
		}
	case "list":
		c.Kids[0].walkTo(t, d, next(ESeg{K: "elem", I: 2}), hit, depth-1)
	case "map":
		if c.Kids[0].litable() && c.Kids[1].equal(d) {
			hit(next(ESeg{K: "key", Key: genLV(t, c.Kids[0].clone())}))
		}
	}
}

func genRef(t *rapid.T, x ECtx, e *EX, depth int) {
	roots := []string{"root", "root", "root"}
	if depth > 0 {
		roots = append(roots, "expr")
	}
	if len(x.lams) > 0 {
		roots = append(roots, "lambda", "lambda", "lambda")
	}
	if len(x.outs) > 0 && x.msg {
		roots = append(roots, "outer")
	}
	e.Root = rapid.SampledFrom(roots).Draw(t, "root")
	if e.Root == "lambda" {
		e.Steps = uint32(rapid.IntRange(0, len(x.lams)-1).Draw(t, "steps"))
		p, ok := x.lams[len(x.lams)-1-int(e.Steps)].find(t, e.T)
		if ok {
			e.Path = p
			return
		}
		e.Root, e.Steps = "root", 0
	}
	if e.Root == "expr" {
		c, p := wrapPath(t, e.T, 2)
		if len(p) > 0 {
			e.Path = p
			e.RootEx = genEX(t, x, c, depth-1)
			return
		}
		e.Root = "root"
	}
	cols := x.cols
	if e.Root == "outer" {
		e.Steps = uint32(rapid.IntRange(1, len(x.outs)).Draw(t, "steps"))
		cols = x.outs[len(x.outs)-int(e.Steps)]
	}
	if cols.Frozen {
		p, ok := cols.find(t, e.T)
		if ok {
			e.Path = p
			return
		}
		e.Root, e.Steps = "", 0
		switch {
		case depth > 0 && len(x.cols.T) > 0:
			e.K = "cast"
			e.Kids = []*EX{genEX(t, x, x.etd(t), depth-1)}
		case e.T.litable() && pct(t, 50):
			e.K, e.LV = "lit", genLV(t, e.T.clone())
		default:
			e.K = "param"
		}
		return
	}
	c, p := wrapPath(t, e.T, 2)
	e.Path = append([]ESeg{{K: "field", I: cols.column(t, c)}}, p...)
}

func segRef(path []ESeg) expr.ReferenceSegment {
	segs := make([]expr.ReferenceSegment, len(path))
	for i, s := range path {
		switch s.K {
		case "field":
			segs[i] = expr.NewStructFieldRef(s.I)
		case "elem":
			segs[i] = expr.NewListElemRef(s.I)
		case "key":
			segs[i] = expr.NewMapKeyRef(s.Key.lit())
		}
	}
	return expr.FlattenRefSegments(segs...)
}

func segProto(path []ESeg) *pb.Expression_ReferenceSegment {
	if len(path) == 0 {
		return nil
	}
	child := segProto(path[1:])
	switch s := path[0]; s.K {
	case "field":
		return &pb.Expression_ReferenceSegment{ReferenceType: &pb.Expression_ReferenceSegment_StructField_{
			StructField: &pb.Expression_ReferenceSegment_StructField{Field: s.I, Child: child}}}
	case "elem":
		return &pb.Expression_ReferenceSegment{ReferenceType: &pb.Expression_ReferenceSegment_ListElement_{
			ListElement: &pb.Expression_ReferenceSegment_ListElement{Offset: s.I, Child: child}}}
	default:
		return &pb.Expression_ReferenceSegment{ReferenceType: &pb.Expression_ReferenceSegment_MapKey_{
			MapKey: &pb.Expression_ReferenceSegment_MapKey{MapKey: s.Key.proto(), Child: child}}}
	}
}

func (e *EX) refProto(w *EWorld) *pb.Expression_FieldReference {
	f := &pb.Expression_FieldReference{ReferenceType: &pb.Expression_FieldReference_DirectReference{DirectReference: segProto(e.Path)}}
	if e.Mask != nil {
		f.ReferenceType = &pb.Expression_FieldReference_MaskedReference{MaskedReference: e.Mask.proto()}
	}
	switch e.Root {
	case "root":
		f.RootType = &pb.Expression_FieldReference_RootReference_{RootReference: &pb.Expression_FieldReference_RootReference{}}
	case "expr":
		f.RootType = &pb.Expression_FieldReference_Expression{Expression: e.RootEx.proto(w)}
	case "outer":
		f.RootType = &pb.Expression_FieldReference_OuterReference_{OuterReference: &pb.Expression_FieldReference_OuterReference{StepsOut: e.Steps}}
	case "lambda":
		f.RootType = &pb.Expression_FieldReference_LambdaParameterReference_{
			LambdaParameterReference: &pb.Expression_FieldReference_LambdaParameterReference{StepsOut: e.Steps}}
	}
	return f
}

func (e *EX) nArgs() (n int) {
	for _, a := range e.Args {
		if a.What == "v" {
			n++
		}
	}
	return n
}

func (e *EX) argProtos(w *EWorld) []*pb.FunctionArgument {
	var out []*pb.FunctionArgument
	for _, a := range e.Args {
		switch a.What {
		case "v":
			out = append(out, &pb.FunctionArgument{ArgType: &pb.FunctionArgument_Value{Value: e.Kids[a.Kid].proto(w)}})
		case "e":
			out = append(out, &pb.FunctionArgument{ArgType: &pb.FunctionArgument_Enum{Enum: a.Enum}})
		case "t":
			out = append(out, &pb.FunctionArgument{ArgType: &pb.FunctionArgument_Type{Type: a.T.proto()}})
		}
	}
	return out
}

func (e *EX) optProtos() []*pb.FunctionOption {
	var out []*pb.FunctionOption
	for _, o := range e.Opts {
		out = append(out, &pb.FunctionOption{Name: o.Name, Preference: o.Pref})
	}
	return out
}

func (e *EX) sortKids() []*EX {
	return e.Kids[len(e.Kids)-len(e.SortDirs):]
}

func (e *EX) sortProtos(w *EWorld) []*pb.SortField {
	var out []*pb.SortField
	for i, k := range e.sortKids() {
		out = append(out, sortProto(k, e.SortDirs[i], w))
	}
	return out
}

func sortProto(k *EX, dir int32, w *EWorld) *pb.SortField {
	s := &pb.SortField{Expr: k.proto(w)}
	if dir > 0 {
		s.SortKind = &pb.SortField_Direction{Direction: pb.SortField_SortDirection(dir)}
	} else {
		s.SortKind = &pb.SortField_ComparisonFunctionReference{ComparisonFunctionReference: uint32(-dir)}
	}
	return s
}

func goSort(ex expr.Expression, dir int32) expr.SortField {
	if dir > 0 {
		return expr.SortField{Expr: ex, Kind: types.SortDirection(dir)}
	}
	return expr.SortField{Expr: ex, Kind: types.FunctionRef(uint32(-dir))}
}

func (b EBound) proto() *pb.Expression_WindowFunction_Bound {
	switch b.K {
	case "prec":
		return &pb.Expression_WindowFunction_Bound{Kind: &pb.Expression_WindowFunction_Bound_Preceding_{Preceding: &pb.Expression_WindowFunction_Bound_Preceding{Offset: b.N}}}
	case "foll":
		return &pb.Expression_WindowFunction_Bound{Kind: &pb.Expression_WindowFunction_Bound_Following_{Following: &pb.Expression_WindowFunction_Bound_Following{Offset: b.N}}}
	case "cur":
		return &pb.Expression_WindowFunction_Bound{Kind: &pb.Expression_WindowFunction_Bound_CurrentRow_{CurrentRow: &pb.Expression_WindowFunction_Bound_CurrentRow{}}}
	case "unb":
		return &pb.Expression_WindowFunction_Bound{Kind: &pb.Expression_WindowFunction_Bound_Unbounded_{Unbounded: &pb.Expression_WindowFunction_Bound_Unbounded{}}}
	}
	return nil
}

func (b EBound) bound() expr.Bound {
	switch b.K {
	case "prec":
		return expr.PrecedingBound(b.N)
	case "foll":
		return expr.FollowingBound(b.N)
	case "cur":
		return expr.CurrentRow{}
	case "unb":
		return expr.Unbounded{}
	}
	return nil
}

func (e *EX) aggProto(w *EWorld) *pb.AggregateFunction {
	return &pb.AggregateFunction{FunctionReference: w.Anchor[e.Fn], Arguments: e.argProtos(w), Options: e.optProtos(), OutputType: e.T.proto(),
		Phase: pb.AggregationPhase(e.Phase), Sorts: e.sortProtos(w), Invocation: pb.AggregateFunction_AggregationInvocation(e.Invoc)}
}

func (r *ERelM) proto(w *EWorld) *pb.Rel {
	common := func() *pb.RelCommon {
		return &pb.RelCommon{EmitKind: &pb.RelCommon_Direct_{Direct: &pb.RelCommon_Direct{}}}
	}
	scan := &pb.Rel{RelType: &pb.Rel_Read{Read: &pb.ReadRel{Common: common(),
		BaseSchema: &pb.NamedStruct{Names: r.Cols.names(), Struct: r.Cols.td().proto().GetStruct()},
		ReadType:   &pb.ReadRel_NamedTable_{NamedTable: &pb.ReadRel_NamedTable{Names: r.Names}}}}}
	if r.Filter == nil {
		return scan
	}
	return &pb.Rel{RelType: &pb.Rel_Filter{Filter: &pb.FilterRel{Common: common(), Input: scan, Condition: r.Filter.proto(w)}}}
}

func (e *EX) kidProtos(w *EWorld) []*pb.Expression {
	out := make([]*pb.Expression, len(e.Kids))
	for i, k := range e.Kids {
		out[i] = k.proto(w)
	}
	return out
}

func (e *EX) proto(w *EWorld) *pb.Expression {
	switch e.K {
	case "lit":
		return &pb.Expression{RexType: &pb.Expression_Literal_{Literal: e.LV.proto()}}
	case "param":
		return &pb.Expression{RexType: &pb.Expression_DynamicParameter{DynamicParameter: &pb.DynamicParameter{Type: e.T.proto(), ParameterReference: uint32(e.Op)}}}
	case "ref":
		return &pb.Expression{RexType: &pb.Expression_Selection{Selection: e.refProto(w)}}
	case "cast":
		return &pb.Expression{RexType: &pb.Expression_Cast_{Cast: &pb.Expression_Cast{Type: e.T.proto(), Input: e.Kids[0].proto(w),
			FailureBehavior: pb.Expression_Cast_FailureBehavior(e.FailB)}}}
	case "scalar":
		return &pb.Expression{RexType: &pb.Expression_ScalarFunction_{ScalarFunction: &pb.Expression_ScalarFunction{
			FunctionReference: w.Anchor[e.Fn], Arguments: e.argProtos(w), Options: e.optProtos(), OutputType: e.T.proto()}}}
	case "window":
		n := e.nArgs()
		wf := &pb.Expression_WindowFunction{FunctionReference: w.Anchor[e.Fn], Arguments: e.argProtos(w), Options: e.optProtos(), OutputType: e.T.proto(),
			Phase: pb.AggregationPhase(e.Phase), Sorts: e.sortProtos(w), Invocation: pb.AggregateFunction_AggregationInvocation(e.Invoc),
			BoundsType: pb.Expression_WindowFunction_BoundsType(e.BoundsTyp), LowerBound: e.Lower.proto(), UpperBound: e.Upper.proto()}
		for _, k := range e.Kids[n : n+e.NParts] {
			wf.Partitions = append(wf.Partitions, k.proto(w))
		}
		return &pb.Expression{RexType: &pb.Expression_WindowFunction_{WindowFunction: wf}}
	case "if":
		it := &pb.Expression_IfThen{}
		ks := e.kidProtos(w)
		for i := 0; i+1 < len(ks); i += 2 {
			it.Ifs = append(it.Ifs, &pb.Expression_IfThen_IfClause{If: ks[i], Then: ks[i+1]})
		}
		it.Else = ks[len(ks)-1]
		return &pb.Expression{RexType: &pb.Expression_IfThen_{IfThen: it}}
	case "switch":
		ks := e.kidProtos(w)
		sw := &pb.Expression_SwitchExpression{Match: ks[0]}
		for i := 1; i+1 < len(ks); i += 2 {
			sw.Ifs = append(sw.Ifs, &pb.Expression_SwitchExpression_IfValue{If: ks[i].GetLiteral(), Then: ks[i+1]})
		}
		if e.HasElse {
			sw.Else = ks[len(ks)-1]
		}
		return &pb.Expression{RexType: &pb.Expression_SwitchExpression_{SwitchExpression: sw}}
	case "or":
		ks := e.kidProtos(w)
		return &pb.Expression{RexType: &pb.Expression_SingularOrList_{SingularOrList: &pb.Expression_SingularOrList{Value: ks[0], Options: ks[1:]}}}
	case "mor":
		ks := e.kidProtos(w)
		m := &pb.Expression_MultiOrList{Value: ks[:e.NVal]}
		for i := e.NVal; i < len(ks); i += e.NVal {
			m.Options = append(m.Options, &pb.Expression_MultiOrList_Record{Fields: ks[i : i+e.NVal]})
		}
		return &pb.Expression{RexType: &pb.Expression_MultiOrList_{MultiOrList: m}}
	case "list", "map", "struct":
		n := &pb.Expression_Nested{Nullable: e.T.Null == 1, TypeVariationReference: e.T.Var}
		ks := e.kidProtos(w)
		switch e.K {
		case "list":
			n.NestedType = &pb.Expression_Nested_List_{List: &pb.Expression_Nested_List{Values: ks}}
		case "struct":
			n.NestedType = &pb.Expression_Nested_Struct_{Struct: &pb.Expression_Nested_Struct{Fields: ks}}
		case "map":
			m := &pb.Expression_Nested_Map{}
			for i := 0; i < len(ks); i += 2 {
				m.KeyValues = append(m.KeyValues, &pb.Expression_Nested_Map_KeyValue{Key: ks[i], Value: ks[i+1]})
			}
			n.NestedType = &pb.Expression_Nested_Map_{Map: m}
		}
		return &pb.Expression{RexType: &pb.Expression_Nested_{Nested: n}}
	case "lambda":
		return &pb.Expression{RexType: &pb.Expression_Lambda_{Lambda: &pb.Expression_Lambda{
			Parameters: e.Params.td().proto().GetStruct(), Body: e.Kids[0].proto(w)}}}
	case "scalarsub", "in", "set", "setcmp":
		s := &pb.Expression_Subquery{}
		rel := e.Rel.proto(w)
		switch e.K {
		case "scalarsub":
			s.SubqueryType = &pb.Expression_Subquery_Scalar_{Scalar: &pb.Expression_Subquery_Scalar{Input: rel}}
		case "in":
			s.SubqueryType = &pb.Expression_Subquery_InPredicate_{InPredicate: &pb.Expression_Subquery_InPredicate{Needles: e.kidProtos(w), Haystack: rel}}
		case "set":
			s.SubqueryType = &pb.Expression_Subquery_SetPredicate_{SetPredicate: &pb.Expression_Subquery_SetPredicate{
				PredicateOp: pb.Expression_Subquery_SetPredicate_PredicateOp(e.Op), Tuples: rel}}
		case "setcmp":
			s.SubqueryType = &pb.Expression_Subquery_SetComparison_{SetComparison: &pb.Expression_Subquery_SetComparison{
				ReductionOp: pb.Expression_Subquery_SetComparison_ReductionOp(e.Op), ComparisonOp: pb.Expression_Subquery_SetComparison_ComparisonOp(e.Op2),
				Left: e.Kids[0].proto(w), Right: rel}}
		}
		return &pb.Expression{RexType: &pb.Expression_Subquery_{Subquery: s}}
	}
	panic("proto of " + e.K)
}

// each visits every expression of the tree, roots of references and filters of subqueries included.
func (e *EX) each(f func(*EX)) {
	f(e)
	for _, k := range e.Kids {
		k.each(f)
	}
	if e.RootEx != nil {
		e.RootEx.each(f)
	}
	if e.Rel != nil && e.Rel.Filter != nil {
		e.Rel.Filter.each(f)
	}
}

func (e *EX) has(pred func(*EX) bool) (ok bool) {
	e.each(func(x *EX) { ok = ok || pred(x) })
	return ok
}

func (e *EX) hasSub() bool { return e.has(func(x *EX) bool { return x.Rel != nil }) }

func (e *EX) clone() *EX {
	o := *e
	o.T = e.T.clone()
	if e.LV != nil {
		o.LV = e.LV.clone()
	}
	o.Kids = append([]*EX(nil), e.Kids...)
	for i, k := range o.Kids {
		o.Kids[i] = k.clone()
	}
	o.Path = append([]ESeg(nil), e.Path...)
	for i, s := range o.Path {
		if s.Key != nil {
			o.Path[i].Key = s.Key.clone()
		}
	}
	if e.RootEx != nil {
		o.RootEx = e.RootEx.clone()
	}
	o.Args = append([]EArg(nil), e.Args...)
	o.Opts = append([]EOpt(nil), e.Opts...)
	o.SortDirs = append([]int32(nil), e.SortDirs...)
	if e.Rel != nil {
		r := *e.Rel
		r.Cols = &ECols{T: append([]*TD(nil), r.Cols.T...)}
		if r.Filter != nil {
			r.Filter = r.Filter.clone()
		}
		o.Rel = &r
	}
	if e.Params != nil {
		o.Params = &ECols{T: append([]*TD(nil), e.Params.T...), Var: e.Params.Var}
	}
	return &o
}

// size is the number of expressions.
func (e *EX) size() (n int) {
	e.each(func(*EX) { n++ })
	return n
}

func (e *EX) String() string {
	var b strings.Builder
	switch e.K {
	case "lit":
		return "lit(" + e.LV.String() + ")"
	case "ref":
		b.WriteString("ref[" + e.Root)
		if e.Root == "outer" || e.Root == "lambda" {
			fmt.Fprintf(&b, " %d", e.Steps)
		}
		if e.RootEx != nil {
			b.WriteString(" " + e.RootEx.String())
		}
		b.WriteString("]")
		for _, s := range e.Path {
			switch s.K {
			case "key":
				fmt.Fprintf(&b, "[%s]", s.Key)
			case "elem":
				fmt.Fprintf(&b, "[%d]", s.I)
			default:
				fmt.Fprintf(&b, ".%d", s.I)
			}
		}
		if e.Mask != nil {
			fmt.Fprintf(&b, ".mask%v", e.Mask)
		}
		return b.String() + ":" + e.T.String()
	}
	b.WriteString(e.K)
	if e.Fn != "" {
		b.WriteString(":" + e.Fn)
	}
	b.WriteString("(")
	for i, k := range e.Kids {
		if i > 0 {
			b.WriteString(", ")
		}
		b.WriteString(k.String())
	}
	for _, a := range e.Args {
		if a.What != "v" {
			fmt.Fprintf(&b, " %s%s%v", a.What, a.Enum, a.T)
		}
	}
	b.WriteString(")")
	if len(e.Opts) > 0 {
		fmt.Fprintf(&b, "%v", e.Opts)
	}
	if e.K == "window" || e.K == "agg" {
		fmt.Fprintf(&b, "{parts %d sorts %v phase %d inv %d bt %d %v..%v}", e.NParts, e.SortDirs, e.Phase, e.Invoc, e.BoundsTyp, e.Lower, e.Upper)
	}
	if e.Op != 0 || e.Op2 != 0 || e.FailB != 0 {
		fmt.Fprintf(&b, "{%d %d %d}", e.Op, e.Op2, e.FailB)
	}
	if e.Params != nil {
		fmt.Fprintf(&b, "{params %v}", e.Params.T)
		if e.Params.Var != 0 {
			fmt.Fprintf(&b, "[%d]", e.Params.Var)
		}
	}
	if e.Rel != nil {
		fmt.Fprintf(&b, "{rel %v", e.Rel.Cols.T)
		if e.Rel.Filter != nil {
			b.WriteString(" where " + e.Rel.Filter.String())
		}
		b.WriteString("}")
	}
	return b.String() + ":" + e.T.String()
}

// key identifies the expression.
func (e *EX) key(w *EWorld) string {
	var m proto.Message
	if e.K == "agg" {
		m = e.aggProto(w)
	} else {
		m = e.proto(w)
	}
	b, err := proto.MarshalOptions{Deterministic: true}.Marshal(m)
	if err != nil {
		panic(err)
	}
	return string(b)
}

// EB builds expressions with the library.
type EB struct {
	W      *EWorld
	B      *expr.ExprBuilder
	Fluent bool // by the fluent builder as far as it goes
}

func newEB(c *C, w *EWorld, reg expr.ExtensionRegistry, cols *ECols, fluent bool) *EB {
	return &EB{W: w, B: &expr.ExprBuilder{Reg: reg, BaseSchema: cols.record()}, Fluent: fluent}
}

// lazyB defers to the model, so that what it builds is built inside the builder's context.
type lazyB struct {
	b *EB
	e *EX
}

func (l lazyB) BuildExpr() (expr.Expression, error)  { return l.b.build(l.e) }
func (l lazyB) BuildFuncArg() (types.FuncArg, error) { return l.b.build(l.e) }
func fnID(k string) ext.FunctionID                   { return ext.FunctionID{URN: eFns[k].URN, Name: eFns[k].Name} }
func (b *EB) opts(e *EX) (out []*types.FunctionOption) {
	for _, o := range e.Opts {
		out = append(out, &types.FunctionOption{Name: o.Name, Preference: o.Pref})
	}
	return out
}

func (b *EB) all(ks []*EX) ([]expr.Expression, error) {
	out := make([]expr.Expression, len(ks))
	for i, k := range ks {
		var err error
		if out[i], err = b.build(k); err != nil {
			return nil, err
		}
	}
	return out, nil
}

func (b *EB) args(e *EX) (out []types.FuncArg, err error) {
	for _, a := range e.Args {
		switch a.What {
		case "v":
			x, err := b.build(e.Kids[a.Kid])
			if err != nil {
				return nil, err
			}
			out = append(out, x)
		case "e":
			out = append(out, types.Enum(a.Enum))
		case "t":
			out = append(out, a.T.build())
		}
	}
	return out, nil
}

func (b *EB) argBuilders(e *EX) (out []expr.FuncArgBuilder) {
	for _, a := range e.Args {
		if a.What == "e" {
			out = append(out, b.B.Enum(a.Enum))
			continue
		}
		k := e.Kids[a.Kid]
		if fb := b.fluent(k); fb != nil {
			out = append(out, fb)
		} else {
			out = append(out, lazyB{b, k})
		}
	}
	return out
}

type funcArgB interface {
	expr.Builder
	expr.FuncArgBuilder
}

// fluent is the fluent builder of an expression, if there is one.
func (b *EB) fluent(e *EX) funcArgB {
	switch e.K {
	case "lit":
		return b.B.Literal(e.LV.lit())
	case "ref":
		switch e.Root {
		case "root":
			return b.B.RootRef(segRef(e.Path))
		case "lambda":
			s := segRef(e.Path).(*expr.StructFieldRef)
			return b.B.LambdaParamRef(*s, e.Steps)
		}
	case "param":
		return b.B.DynamicParam(e.T.build(), uint32(e.Op))
	case "cast":
		return b.B.Cast(b.sub(e.Kids[0]), e.T.build()).FailBehavior(types.CastFailBehavior(e.FailB))
	case "scalar":
		if !eFns[e.Fn].Custom {
			return b.B.ScalarFunc(fnID(e.Fn), b.opts(e)...).Args(b.argBuilders(e)...)
		}
	case "lambda":
		ps := &types.StructType{Nullability: types.NullabilityRequired, TypeVariationRef: e.Params.Var, Types: buildAll(e.Params.T)}
		return b.B.Lambda(ps, b.sub(e.Kids[0]))
	}
	return nil
}

func (b *EB) sub(e *EX) expr.Builder {
	if fb := b.fluent(e); fb != nil {
		return fb
	}
	return lazyB{b, e}
}

func (b *EB) sorts(e *EX) (out []expr.SortField, err error) {
	for i, k := range e.sortKids() {
		x, err := b.build(k)
		if err != nil {
			return nil, err
		}
		out = append(out, goSort(x, e.SortDirs[i]))
	}
	return out, nil
}

func (b *EB) build(e *EX) (expr.Expression, error) {
	if b.Fluent || e.K == "lambda" || e.K == "ref" && e.Root == "lambda" {
		if fb := b.fluent(e); fb != nil {
			return fb.BuildExpr()
		}
	}
	switch e.K {
	case "lit":
		return e.LV.lit(), nil
	case "param":
		return &expr.DynamicParameter{OutputType: e.T.build(), ParameterReference: uint32(e.Op)}, nil
	case "ref":
		switch e.Root {
		case "root":
			return expr.NewRootFieldRef(segRef(e.Path), b.B.BaseSchema)
		case "expr":
			root, err := b.build(e.RootEx)
			if err != nil {
				return nil, err
			}
			return expr.NewFieldRef(root, segRef(e.Path), b.B.BaseSchema)
		}
		return nil, fmt.Errorf("cannot build %s", e)
	case "scalar":
		args, err := b.args(e)
		if err != nil {
			return nil, err
		}
		if eFns[e.Fn].Custom {
			return expr.NewCustomScalarFunc(b.B.Reg, ext.NewScalarFuncVariant(fnID(e.Fn)), e.T.build(), b.opts(e), args...)
		}
		return expr.NewScalarFunc(b.B.Reg, fnID(e.Fn), b.opts(e), args...)
	case "window":
		n := e.nArgs()
		sorts, err := b.sorts(e)
		if err != nil {
			return nil, err
		}
		if b.Fluent && !eFns[e.Fn].Custom {
			var parts []expr.Builder
			for _, k := range e.Kids[n : n+e.NParts] {
				parts = append(parts, b.sub(k))
			}
			return b.B.WindowFunc(fnID(e.Fn), b.opts(e)...).Args(b.argBuilders(e)...).Phase(types.AggregationPhase(e.Phase)).
				Invocation(types.AggregationInvocation(e.Invoc)).Sort(sorts...).Partitions(parts...).
				Bounds(e.Lower.bound(), e.Upper.bound()).BoundsType(types.BoundsType(e.BoundsTyp)).BuildExpr()
		}
		args, err := b.args(e)
		if err != nil {
			return nil, err
		}
		var w *expr.WindowFunction
		if eFns[e.Fn].Custom {
			w, err = expr.NewCustomWindowFunc(b.B.Reg, ext.NewWindowFuncVariant(fnID(e.Fn)), e.T.build(), b.opts(e),
				types.AggregationInvocation(e.Invoc), types.AggregationPhase(e.Phase), args...)
		} else {
			w, err = expr.NewWindowFunc(b.B.Reg, fnID(e.Fn), b.opts(e), types.AggregationInvocation(e.Invoc), types.AggregationPhase(e.Phase), args...)
		}
		if err != nil {
			return nil, err
		}
		if w.Partitions, err = b.all(e.Kids[n : n+e.NParts]); err != nil {
			return nil, err
		}
		w.Sorts, w.BoundsType, w.LowerBound, w.UpperBound = sorts, types.BoundsType(e.BoundsTyp), e.Lower.bound(), e.Upper.bound()
		return w, nil
	}
	ks, err := b.all(e.Kids)
	if err != nil {
		return nil, err
	}
	switch e.K {
	case "cast":
		return &expr.Cast{Type: e.T.build(), Input: ks[0], FailureBehavior: types.CastFailBehavior(e.FailB)}, nil
	case "if":
		var rest []expr.IfThenPair
		for i := 2; i+1 < len(ks); i += 2 {
			rest = append(rest, expr.IfThenPair{If: ks[i], Then: ks[i+1]})
		}
		return expr.NewIfThen(expr.IfThenPair{If: ks[0], Then: ks[1]}, ks[len(ks)-1], rest...)
	case "switch":
		var els expr.Expression
		cs := ks[1:]
		if e.HasElse {
			els = ks[len(ks)-1]
			cs = ks[1 : len(ks)-1]
		}
		var cases []struct {
			If   expr.Literal
			Then expr.Expression
		}
		for i := 0; i < len(cs); i += 2 {
			cases = append(cases, struct {
				If   expr.Literal
				Then expr.Expression
			}{cs[i].(expr.Literal), cs[i+1]})
		}
		return expr.NewSwitch(ks[0], els, cases...)
	case "or":
		return &expr.SingularOrList{Value: ks[0], Options: ks[1:]}, nil
	case "mor":
		m := &expr.MultiOrList{Value: ks[:e.NVal]}
		for i := e.NVal; i < len(ks); i += e.NVal {
			m.Options = append(m.Options, ks[i:i+e.NVal])
		}
		return m, nil
	case "list":
		if e.T.Var == 0 {
			return expr.NewListExpr(e.T.Null == 1, ks...), nil
		}
		return &expr.ListExpr{Nullable: e.T.Null == 1, TypeVariationRef: e.T.Var, Values: ks}, nil
	case "struct":
		return &expr.StructExpr{Nullable: e.T.Null == 1, TypeVariationRef: e.T.Var, Fields: ks}, nil
	case "map":
		m := &expr.MapExpr{Nullable: e.T.Null == 1, TypeVariationRef: e.T.Var}
		for i := 0; i < len(ks); i += 2 {
			m.KeyValues = append(m.KeyValues, struct{ Key, Value expr.Expression }{ks[i], ks[i+1]})
		}
		return m, nil
	case "scalarsub", "in", "set", "setcmp":
		rel, err := b.rel(e.Rel)
		if err != nil {
			return nil, err
		}
		pbld := plan.NewBuilder(eCol())
		switch e.K {
		case "scalarsub":
			if b.Fluent {
				return pbld.ScalarSubquery(rel)
			}
			return plan.NewScalarSubquery(rel), nil
		case "in":
			if b.Fluent {
				return pbld.InPredicateSubquery(ks, rel)
			}
			return plan.NewInPredicateSubquery(ks, rel), nil
		case "set":
			if b.Fluent {
				return pbld.SetPredicateSubquery(rel, plan.SetPredicateOp(e.Op))
			}
			return plan.NewSetPredicateSubquery(plan.SetPredicateOp(e.Op), rel), nil
		default:
			if b.Fluent {
				return pbld.SetComparisonSubquery(ks[0], rel, plan.SetComparisonReductionOp(e.Op), plan.SetComparisonComparisonOp(e.Op2))
			}
			return plan.NewSetComparisonSubquery(plan.SetComparisonReductionOp(e.Op), plan.SetComparisonComparisonOp(e.Op2), ks[0], rel), nil
		}
	}
	panic("build of " + e.K)
}

func (b *EB) rel(r *ERelM) (plan.Rel, error) {
	pbld := plan.NewBuilder(eCol())
	scan := pbld.NamedScan(r.Names, r.Cols.named())
	if r.Filter == nil {
		return scan, nil
	}
	in := &EB{W: b.W, B: &expr.ExprBuilder{Reg: b.B.Reg, BaseSchema: r.Cols.record()}, Fluent: b.Fluent}
	cond, err := in.build(r.Filter)
	if err != nil {
		return nil, err
	}
	return pbld.Filter(scan, cond)
}

func (b *EB) agg(e *EX) (*expr.AggregateFunction, error) {
	sorts, err := b.sorts(e)
	if err != nil {
		return nil, err
	}
	inv, ph := types.AggregationInvocation(e.Invoc), types.AggregationPhase(e.Phase)
	if b.Fluent && !eFns[e.Fn].Custom {
		return b.B.AggFunc(fnID(e.Fn), b.opts(e)...).Args(b.argBuilders(e)...).Phase(ph).Invocation(inv).Sorts(sorts...).Build()
	}
	args, err := b.args(e)
	if err != nil {
		return nil, err
	}
	if eFns[e.Fn].Custom {
		return expr.NewCustomAggregateFunc(b.B.Reg, ext.NewAggFuncVariant(fnID(e.Fn)), e.T.build(), b.opts(e), inv, ph, sorts, args...)
	}
	return expr.NewAggregateFunc(b.B.Reg, fnID(e.Fn), b.opts(e), inv, ph, sorts, args...)
}

// EMask is a mask reference.
type EMask struct {
	K        string // struct list map
	Items    []EMaskItem
	Maintain bool
	Kid      *EMask // list, map
	List     [][2]int32
	IsSlice  []bool
	Key      string
	KeyKind  string // key expr
}

type EMaskItem struct {
	F   int32
	Kid *EMask
}

func (m *EMask) sel() *pb.Expression_MaskExpression_Select {
	if m == nil {
		return nil
	}
	switch m.K {
	case "struct":
		return &pb.Expression_MaskExpression_Select{Type: &pb.Expression_MaskExpression_Select_Struct{Struct: m.structSel()}}
	case "list":
		l := &pb.Expression_MaskExpression_ListSelect{Child: m.Kid.sel()}
		for i, r := range m.List {
			it := &pb.Expression_MaskExpression_ListSelect_ListSelectItem{}
			if m.IsSlice[i] {
				it.Type = &pb.Expression_MaskExpression_ListSelect_ListSelectItem_Slice{Slice: &pb.Expression_MaskExpression_ListSelect_ListSelectItem_ListSlice{Start: r[0], End: r[1]}}
			} else {
				it.Type = &pb.Expression_MaskExpression_ListSelect_ListSelectItem_Item{Item: &pb.Expression_MaskExpression_ListSelect_ListSelectItem_ListElement{Field: r[0]}}
			}
			l.Selection = append(l.Selection, it)
		}
		return &pb.Expression_MaskExpression_Select{Type: &pb.Expression_MaskExpression_Select_List{List: l}}
	default:
		s := &pb.Expression_MaskExpression_MapSelect{Child: m.Kid.sel()}
		switch m.KeyKind {
		case "key":
			s.Select = &pb.Expression_MaskExpression_MapSelect_Key{Key: &pb.Expression_MaskExpression_MapSelect_MapKey{MapKey: m.Key}}
		default:
			s.Select = &pb.Expression_MaskExpression_MapSelect_Expression{Expression: &pb.Expression_MaskExpression_MapSelect_MapKeyExpression{MapKeyExpression: m.Key}}
		}
		return &pb.Expression_MaskExpression_Select{Type: &pb.Expression_MaskExpression_Select_Map{Map: s}}
	}
}

func (m *EMask) structSel() *pb.Expression_MaskExpression_StructSelect {
	s := &pb.Expression_MaskExpression_StructSelect{}
	for _, it := range m.Items {
		s.StructItems = append(s.StructItems, &pb.Expression_MaskExpression_StructItem{Field: it.F, Child: it.Kid.sel()})
	}
	return s
}

func (m *EMask) proto() *pb.Expression_MaskExpression {
	return &pb.Expression_MaskExpression{Select: m.structSel(), MaintainSingularStruct: m.Maintain}
}

func (m *EMask) String() string { return m.proto().String() }
