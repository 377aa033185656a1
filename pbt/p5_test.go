package pbt

import (
	"fmt"
	"math"
	"sort"
	"strings"
	"testing"

	"github.com/substrait-io/substrait-go/v8/expr"
	ext "github.com/substrait-io/substrait-go/v8/extensions"
	"github.com/substrait-io/substrait-go/v8/plan"
	"github.com/substrait-io/substrait-go/v8/types"
	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	"pgregory.net/rapid"
)

// anchors reads the functions a plan message declares.
func anchors(c *C, m *pb.Plan) (*EWorld, map[string]uint32) {
	urns := map[uint32]string{}
	for _, u := range m.ExtensionUrns {
		_, dup := urns[u.ExtensionUrnAnchor]
		c.Check(!dup, "urn_anchor_twice", "URN anchor %d is declared twice", u.ExtensionUrnAnchor)
		urns[u.ExtensionUrnAnchor] = u.Urn
	}
	fns, tys := map[string]uint32{}, map[string]uint32{}
	seen := map[string]bool{}
	for _, d := range m.Extensions {
		var key string
		if f := d.GetExtensionFunction(); f != nil {
			key = fmt.Sprintf("fn %d", f.FunctionAnchor)
			fns[urns[f.ExtensionUrnReference]+" "+f.Name] = f.FunctionAnchor
		} else if t := d.GetExtensionType(); t != nil {
			key = fmt.Sprintf("type %d", t.TypeAnchor)
			tys[urns[t.ExtensionUrnReference]+" "+t.Name] = t.TypeAnchor
		}
		c.Check(!seen[key], "anchor_twice", "anchor %s is declared twice", key)
		seen[key] = true
	}
	w := &EWorld{Anchor: map[string]uint32{}}
	for k, f := range eFns {
		if a, ok := fns[f.URN+" "+f.Name]; ok {
			w.Anchor[k] = a
		}
	}
	return w, tys
}

// params collects the dynamic parameters of relations.
func (r *RM) params(out map[int32][]*TD) {
	r.each(func(k *RM) {
		for _, e := range k.ownExprs() {
			e.each(func(x *EX) {
				if x.K == "param" {
					out[x.Op] = append(out[x.Op], x.T)
				}
			})
		}
	})
}

func (r *RM) fns(out map[string]bool) {
	r.each(func(k *RM) {
		for _, e := range k.ownExprs() {
			e.each(func(x *EX) {
				if x.Fn != "" {
					out[x.Fn] = true
				}
			})
		}
	})
}

// p5 draws arguments of builder calls together with whether they are valid.
type p5 struct {
	c   *C
	t   *rapid.T
	rb  *RB
	bad string // what is wrong with what was drawn, or ""
	x   RCtx
}

func (p *p5) flaw(n int) bool { return p.bad == "" && pct(p.t, n) }

func (p *p5) rel() (*RM, plan.Rel) {
	r := genRM(p.t, RCtx{edepth: 1}, rapid.IntRange(0, 1).Draw(p.t, "depth"))
	return r, p.build(r)
}

func (p *p5) build(r *RM) plan.Rel {
	rel, err := p.rb.build(r)
	p.c.Check(err == nil, "input", "a well-formed relation is refused: %v", err)
	return rel
}

// input draws a relation to use as an input, sometimes none.
func (p *p5) input() (*RM, plan.Rel) {
	r, rel := p.rel()
	if p.flaw(7) {
		p.bad = "no input"
		return r, nil
	}
	return r, rel
}

// remap draws an output mapping.
func (p *p5) remap(n int) []int32 {
	if pct(p.t, 50) {
		return nil
	}
	m, ok := genRemap(p.t, n)
	if !ok {
		if p.bad != "" {
			return nil
		}
		p.bad = "mapping"
	}
	if ok && m == nil {
		m = []int32{}
	}
	return m
}

func (p *p5) index(n int) int32 {
	if n == 0 || p.flaw(25) {
		p.bad = "index"
		return rapid.SampledFrom([]int32{-1, int32(n), int32(n) + 1, math.MaxInt32, math.MinInt32}).Draw(p.t, "badindex")
	}
	return int32(pick(p.t, n))
}

// cond draws a condition.
func (p *p5) cond(cols []*TD, optional bool) expr.Expression {
	if optional && pct(p.t, 40) {
		return nil
	}
	if !optional && p.flaw(7) {
		p.bad = "no condition"
		return nil
	}
	d := boolTD(1 + rapid.IntRange(0, 1).Draw(p.t, "null"))
	if p.flaw(25) {
		if d = (ECtx{cols: frozen(cols)}).etd(p.t); d.Kind != "boolean" {
			p.bad = "condition not boolean"
		}
	}
	return p.ex(cols, d)
}

func (p *p5) ex(cols []*TD, d *TD) expr.Expression {
	e, err := p.rb.expr(cols, p.x.ex(p.t, cols, d))
	p.c.Check(err == nil, "expression", "a well-formed expression is refused: %v", err)
	return e
}

func (p *p5) enum(lo, hi int32, unspecified bool) int32 {
	if p.flaw(20) {
		p.bad = "enumeration"
		out := []int32{hi + 1, -1, 99, math.MaxInt32, math.MinInt32}
		if unspecified {
			out = append(out, 0, 0, 0)
		}
		return rapid.SampledFrom(out).Draw(p.t, "badenum")
	}
	return rapid.Int32Range(lo, hi).Draw(p.t, "enum")
}

// schema draws a named schema, with the right number of names or not.
func (p *p5) schema(cols []*TD) types.NamedStruct {
	return types.NamedStruct{Names: p.names(cols), Struct: types.StructType{Nullability: types.NullabilityRequired, Types: buildTDs(cols)}}
}

func (p *p5) names(cols []*TD) []string {
	names := genColNames(p.t, cols)
	if p.flaw(20) {
		old := len(names)
		switch rapid.IntRange(0, 3).Draw(p.t, "badnames") {
		case 0:
			names = append(names, "extra")
		case 1:
			names = nil
		case 2:
			if len(names) > 0 {
				names = names[1:]
			}
		case 3: // one per column, whatever is nested
			names = nil
			for range cols {
				names = append(names, "n")
			}
		}
		if len(names) != old {
			p.bad = "names"
		}
	}
	return names
}

func (p *p5) cols(lo, hi int) (out []*TD) {
	for i := rapid.IntRange(lo, hi).Draw(p.t, "ncols"); i > 0; i-- {
		if pct(p.t, 6) {
			out = append(out, genWrapTD(p.t))
			continue
		}
		out = append(out, genETD(p.t))
	}
	return out
}

// otherType draws a type of another kind or other parameters.
func (p *p5) otherType(d *TD) *TD {
	for i := 0; i < 20; i++ {
		o := genETD(p.t)
		if !o.withNull(1).equal(d.withNull(1)) {
			return o
		}
	}
	if d.Kind == "date" {
		return boolTD(1)
	}
	return &TD{Kind: "date", Null: 1}
}

// p5Calls are the builder's methods: each draws its arguments, makes the call, and says how many columns
// the result has if the call is valid.
var p5Calls = map[string]func(p *p5) (call func() (any, error), cols int){
	"filter": func(p *p5) (func() (any, error), int) {
		r, in := p.input()
		c, m := p.cond(r.cols(), false), p.remap(len(r.cols()))
		n := len(r.cols())
		if m == nil && rapid.Bool().Draw(p.t, "plain") {
			return func() (any, error) { return p.rb.B.Filter(in, c) }, n
		}
		return func() (any, error) { return p.rb.B.FilterRemap(in, c, m) }, width(m, n)
	},
	"join": func(p *p5) (func() (any, error), int) {
		l, lin := p.input()
		r, rin := p.input()
		both := cat(l.cols(), r.cols())
		c := p.cond(both, false)
		jt := p.enum(1, 12, true)
		n := len(both)
		if p.bad == "" {
			n = len(joinSchema((&RM{K: "join", JT: jt}).logicalJoin(), l.cols(), r.cols()))
		}
		switch rapid.IntRange(0, 3).Draw(p.t, "variant") {
		case 0:
			return func() (any, error) { return p.rb.B.Join(lin, rin, c, plan.JoinType(jt)) }, n
		case 1:
			m := p.remap(n)
			return func() (any, error) { return p.rb.B.JoinRemap(lin, rin, c, plan.JoinType(jt), m) }, width(m, n)
		case 2:
			post := p.cond(both, true)
			return func() (any, error) { return p.rb.B.JoinAndFilter(lin, rin, c, post, plan.JoinType(jt)) }, n
		}
		post, m := p.cond(both, true), p.remap(n)
		return func() (any, error) { return p.rb.B.JoinAndFilterRemap(lin, rin, c, post, plan.JoinType(jt), m) }, width(m, n)
	},
	"cross": func(p *p5) (func() (any, error), int) {
		l, lin := p.input()
		r, rin := p.input()
		n := len(l.cols()) + len(r.cols())
		m := p.remap(n)
		if m == nil && rapid.Bool().Draw(p.t, "plain") {
			return func() (any, error) { return p.rb.B.Cross(lin, rin) }, n
		}
		return func() (any, error) { return p.rb.B.CrossRemap(lin, rin, m) }, width(m, n)
	},
	"project": func(p *p5) (func() (any, error), int) {
		r, in := p.input()
		var es []expr.Expression
		for i := rapid.IntRange(1, 3).Draw(p.t, "nexprs"); i > 0; i-- {
			es = append(es, p.ex(r.cols(), genETD(p.t)))
		}
		if p.flaw(10) {
			p.bad, es = "no expressions", nil
		}
		if p.flaw(10) {
			p.bad = "nil expression"
			es[pick(p.t, len(es))] = nil
		}
		n := len(r.cols()) + len(es)
		m := p.remap(n)
		if m == nil && rapid.Bool().Draw(p.t, "plain") {
			return func() (any, error) { return p.rb.B.Project(in, es...) }, n
		}
		return func() (any, error) { return p.rb.B.ProjectRemap(in, m, es...) }, width(m, n)
	},
	"fetch": func(p *p5) (func() (any, error), int) {
		r, in := p.input()
		off := rapid.SampledFrom([]int64{0, 1, 5, math.MaxInt64}).Draw(p.t, "off")
		cnt := rapid.SampledFrom([]int64{-1, 0, 1, 5, math.MaxInt64}).Draw(p.t, "cnt")
		if p.flaw(25) {
			p.bad, off = "offset", rapid.SampledFrom([]int64{-1, -2, math.MinInt64}).Draw(p.t, "badoff")
		}
		if p.flaw(25) {
			p.bad, cnt = "count", rapid.SampledFrom([]int64{-2, -3, math.MinInt64}).Draw(p.t, "badcnt")
		}
		n := len(r.cols())
		m := p.remap(n)
		if m == nil && rapid.Bool().Draw(p.t, "plain") {
			return func() (any, error) { return p.rb.B.Fetch(in, off, cnt) }, n
		}
		return func() (any, error) { return p.rb.B.FetchRemap(in, off, cnt, m) }, width(m, n)
	},
	"sort": func(p *p5) (func() (any, error), int) {
		r, in := p.input()
		var fs []expr.SortField
		for i := rapid.IntRange(1, 3).Draw(p.t, "nsorts"); i > 0; i-- {
			fs = append(fs, goSort(p.ex(r.cols(), genETD(p.t)), rapid.SampledFrom([]int32{1, 2, 3, 4, 5, 0, -3}).Draw(p.t, "dir")))
		}
		if p.flaw(10) {
			p.bad, fs = "no sort fields", nil
		}
		if p.flaw(15) {
			p.bad = "incomplete sort field"
			f := &fs[pick(p.t, len(fs))]
			if rapid.Bool().Draw(p.t, "noexpr") {
				f.Expr = nil
			} else {
				f.Kind = nil
			}
		}
		n := len(r.cols())
		m := p.remap(n)
		if m == nil && rapid.Bool().Draw(p.t, "plain") {
			return func() (any, error) { return p.rb.B.Sort(in, fs...) }, n
		}
		return func() (any, error) { return p.rb.B.SortRemap(in, m, fs...) }, width(m, n)
	},
	"sortfields": func(p *p5) (func() (any, error), int) {
		r, in := p.input()
		var idx []int32
		for i := rapid.IntRange(0, 3).Draw(p.t, "nidx"); i > 0; i-- {
			idx = append(idx, p.index(len(r.cols())))
		}
		if p.bad == "no input" && len(idx) == 0 {
			idx = []int32{0}
		}
		return func() (any, error) {
			fs, err := p.rb.B.SortFields(in, idx...)
			if err != nil {
				return nil, err
			}
			p.c.Check(len(fs) == len(idx), "sortfields", "%d sort fields for %d columns", len(fs), len(idx))
			for i, f := range fs {
				ref := f.Expr.(*expr.FieldReference)
				p.c.Check(tdOf(ref.GetType()).equal(r.cols()[idx[i]]) && f.Kind == types.SortAscNullsLast &&
					protoEq(f.Expr.ToProto(), (&EX{K: "ref", Root: "root", Path: []ESeg{{K: "field", I: idx[i]}}}).proto(p.rb.W)), "sortfields",
					"sort field %d is %s %s, want column %d %v", i, f.Expr, f.Kind, idx[i], r.cols()[idx[i]])
			}
			return nil, nil
		}, -1
	},
	"rootref": func(p *p5) (func() (any, error), int) {
		r, in := p.input()
		i := p.index(len(r.cols()))
		return func() (any, error) { return p.ref(r.cols(), i)(p.rb.B.RootFieldRef(in, i)) }, -1
	},
	"joinedref": func(p *p5) (func() (any, error), int) {
		l, lin := p.input()
		r, rin := p.input()
		both := cat(l.cols(), r.cols())
		i := p.index(len(both))
		return func() (any, error) { return p.ref(both, i)(p.rb.B.JoinedRecordFieldRef(lin, rin, i)) }, -1
	},
	"set": func(p *p5) (func() (any, error), int) {
		r, in := p.input()
		ins := []plan.Rel{in}
		for i := rapid.IntRange(1, 3).Draw(p.t, "nmore"); i > 0; i-- {
			cols := cat(r.cols())
			if p.flaw(15) {
				p.bad = "set inputs"
				switch k := rapid.IntRange(0, 2).Draw(p.t, "how"); {
				case k == 0 || len(cols) == 0:
					cols = append(cols, genETD(p.t))
				case k == 1:
					cols = cols[:len(cols)-1]
				default:
					at := pick(p.t, len(cols))
					cols[at] = p.otherType(cols[at])
				}
			}
			more := p.build(genSameLeaf(p.t, RCtx{edepth: 1}, cols))
			if p.flaw(7) {
				p.bad, more = "no input", nil
			}
			ins = append(ins, more)
		}
		op := p.enum(1, 8, true)
		if p.flaw(10) {
			p.bad, ins = "too few inputs", ins[:rapid.IntRange(0, 1).Draw(p.t, "few")]
		}
		n := len(r.cols())
		m := p.remap(n)
		if m == nil && rapid.Bool().Draw(p.t, "plain") {
			return func() (any, error) { return p.rb.B.Set(plan.SetOp(op), ins...) }, n
		}
		return func() (any, error) { return p.rb.B.SetRemap(plan.SetOp(op), m, ins...) }, width(m, n)
	},
	"scan": func(p *p5) (func() (any, error), int) {
		cols := p.cols(0, 4)
		s := types.NamedStruct{Names: genColNames(p.t, cols), Struct: types.StructType{Nullability: types.NullabilityRequired, Types: buildTDs(cols)}}
		names := genTableNames(p.t)
		m := p.remap(len(cols))
		if m == nil && rapid.Bool().Draw(p.t, "plain") {
			return func() (any, error) { return p.rb.B.NamedScan(names, s), nil }, len(cols)
		}
		return func() (any, error) { return p.rb.B.NamedScanRemap(names, s, m) }, width(m, len(cols))
	},
	"virtual": func(p *p5) (func() (any, error), int) {
		var cols []*TD
		for i := rapid.IntRange(0, 3).Draw(p.t, "ncols"); i > 0; i-- {
			cols = append(cols, genLitTD(p.t, typeGenOpts{depth: 2, noFunc: true, noUnspec: true, decimalOK: true, noEmpty: true}))
		}
		lits := rapid.Bool().Draw(p.t, "literals")
		var ls []expr.StructLiteralValue
		var es []expr.VirtualTableExpressionValue
		nrows := rapid.IntRange(1, 3).Draw(p.t, "nrows")
		for r := 0; r < nrows; r++ {
			ds := cat(cols)
			what := ""
			if p.flaw(12) {
				switch k := rapid.IntRange(0, 4).Draw(p.t, "how"); {
				case (k == 0 || len(cols) == 0) && r > 0:
					what = "more values"
					ds = append(ds, boolTD(2))
				case len(cols) == 0:
				case k == 1 && r > 0:
					what = "fewer values"
					ds = ds[:len(ds)-1]
				case k == 2 && r > 0:
					what = "value type"
					at := pick(p.t, len(ds))
					for i := 0; i < 9 && ds[at].equal(cols[at]); i++ {
						ds[at] = genLitTD(p.t, typeGenOpts{depth: 1, noFunc: true, noUnspec: true, decimalOK: true, noEmpty: true})
					}
					if ds[at].equal(cols[at]) {
						what = ""
					}
				case k == 3 && r > 0:
					what = "value nullability"
					at := pick(p.t, len(ds))
					ds[at] = ds[at].withNull(3 - ds[at].Null)
				case k == 4:
					what = "nil value"
				}
				p.bad = what
			}
			var row expr.VirtualTableExpressionValue
			var lrow expr.StructLiteralValue
			for _, d := range ds {
				if lits || rapid.Bool().Draw(p.t, "lit") {
					l := genLV(p.t, d.clone()).lit()
					row, lrow = append(row, l), append(lrow, l)
				} else {
					row = append(row, p.ex(nil, d))
				}
			}
			if what == "nil value" {
				at := pick(p.t, len(row))
				row[at] = nil
				if lits {
					lrow[at] = nil
				}
			}
			es, ls = append(es, row), append(ls, lrow)
		}
		if p.flaw(5) {
			p.bad, es, ls = "no rows", nil, nil
		}
		names := p.names(cols)
		n := len(cols)
		m := p.remap(n)
		plain := m == nil && rapid.Bool().Draw(p.t, "plain")
		switch {
		case lits && plain:
			return func() (any, error) { return p.rb.B.VirtualTable(names, ls...) }, n
		case lits && rapid.Bool().Draw(p.t, "as literals"):
			return func() (any, error) { return p.rb.B.VirtualTableRemap(names, m, ls...) }, width(m, n)
		case plain:
			return func() (any, error) { return p.rb.B.VirtualTableFromExpr(names, es...) }, n
		}
		return func() (any, error) { return p.rb.B.VirtualTableFromExprRemap(names, m, es...) }, width(m, n)
	},
	"emptyvirtual": func(p *p5) (func() (any, error), int) {
		cols := p.cols(0, 4)
		names, ts := p.names(cols), buildTDs(cols)
		return func() (any, error) { return p.rb.B.EmptyVirtualTable(names, ts) }, len(cols)
	},
	"iceberg": func(p *p5) (func() (any, error), int) {
		cols := p.cols(0, 4)
		s := p.schema(cols)
		return func() (any, error) { return p.rb.B.IcebergTableFromMetadataFile("uri", nil, s) }, len(cols)
	},
	"aggcolumns": func(p *p5) (func() (any, error), int) {
		r, in := p.input()
		ms := p.measures(r)
		var cols []int32
		for i := rapid.IntRange(0, 2).Draw(p.t, "ncols"); i > 0; i-- {
			cols = append(cols, p.index(len(r.cols())))
		}
		if len(cols) == 0 && len(ms) == 0 && p.bad == "" {
			p.bad = "nothing to aggregate"
		}
		return func() (any, error) { return p.rb.B.AggregateColumns(in, ms, cols...) }, -1
	},
	"aggexprs": func(p *p5) (func() (any, error), int) {
		r, in := p.input()
		ms := p.measures(r)
		var gs [][]expr.Expression
		n := 0
		for i := rapid.IntRange(0, 2).Draw(p.t, "nsets"); i > 0; i-- {
			var g []expr.Expression
			for j := rapid.IntRange(0, 2).Draw(p.t, "nkeys"); j > 0; j-- {
				g = append(g, p.ex(r.cols(), genETD(p.t)))
				n++
				if p.flaw(8) {
					p.bad, g[len(g)-1] = "nil key", nil
				}
			}
			gs = append(gs, g)
		}
		if n == 0 && len(ms) == 0 && p.bad == "" {
			p.bad = "nothing to aggregate"
		}
		return func() (any, error) { return p.rb.B.AggregateExprs(in, ms, gs...) }, -1
	},
	"aggbuilder": func(p *p5) (func() (any, error), int) {
		r, in := p.input()
		ms := p.measures(r)
		ab := p.rb.B.GetRelBuilder().AggregateRel(in, ms)
		n := rapid.IntRange(0, 3).Draw(p.t, "nkeys")
		w := map[uint32]bool{}
		for i := 0; i < n; i++ {
			e := p.ex(r.cols(), genETD(p.t))
			if p.flaw(5) {
				p.bad, e = "nil key", nil
			}
			w[ab.AddExpression(e)] = true
		}
		n = len(w)
		ng := rapid.IntRange(0, 3).Draw(p.t, "nsets")
		for i := 0; i < ng; i++ {
			refs := []uint32{}
			for j := rapid.IntRange(0, 3).Draw(p.t, "nrefs"); j > 0; j-- {
				if n == 0 || p.flaw(8) {
					p.bad = "key reference"
					refs = append(refs, rapid.SampledFrom([]uint32{uint32(n), uint32(n) + 1, math.MaxUint32}).Draw(p.t, "badref"))
				} else {
					refs = append(refs, uint32(pick(p.t, n)))
				}
			}
			switch k := rapid.IntRange(0, 2).Draw(p.t, "strategy"); {
			case len(refs) == 0 || k == 0:
				ab.AddGroupingSet(refs)
			case k == 1:
				ab.AddRollup(refs)
			default:
				p.c.Check(ab.AddCube(refs) == nil, "cube", "a cube of %d keys is refused", len(refs))
			}
		}
		if len(ms) == 0 && (ng == 0 || n == 0) && p.bad == "" {
			p.bad = "nothing to aggregate"
		}
		return func() (any, error) { return ab.Build() }, -1
	},
	"write": func(p *p5) (func() (any, error), int) {
		r, in := p.input()
		cols := r.cols()
		s := p.schema(cols)
		names := genTableNames(p.t)
		op := p.enum(1, 4, true)
		switch rapid.IntRange(0, 5).Draw(p.t, "variant") {
		case 0:
			if p.bad == "enumeration" {
				p.bad = ""
			}
			return func() (any, error) { return p.rb.B.NamedInsert(in, names, s) }, -1
		case 1:
			if p.bad == "enumeration" {
				p.bad = ""
			}
			return func() (any, error) { return p.rb.B.NamedDelete(in, names, s) }, -1
		case 2:
			if p.bad == "enumeration" {
				p.bad = ""
			}
			return func() (any, error) { return p.rb.B.CreateTableAsSelect(in, names, s) }, len(cols)
		case 3:
			if p.bad == "enumeration" {
				p.bad = ""
			}
			m := p.remap(len(cols))
			return func() (any, error) { return p.rb.B.CreateTableAsSelectRemap(in, m, names, s) }, width(m, len(cols))
		case 4:
			var m []int32
			if op == 4 {
				m = p.remap(len(cols))
			}
			return func() (any, error) { return p.rb.B.NamedWriteRemap(in, plan.WriteOp(op), names, s, m) }, -1
		}
		return func() (any, error) { return p.rb.B.NamedWrite(in, plan.WriteOp(op), names, s) }, -1
	},
	"extension": func(p *p5) (func() (any, error), int) {
		r := &RM{K: "extleaf", Decoded: true}
		r.genDetail(p.t)
		d, err := newVdef(r.Detail)
		p.c.Check(err == nil, "definition", "%v", err)
		var def plan.ExtensionRelDefinition = d
		if p.flaw(20) {
			p.bad, def = "no definition", nil
		}
		n := len(r.Base.T)
		switch rapid.IntRange(0, 2).Draw(p.t, "variant") {
		case 0:
			return func() (any, error) { return p.rb.B.ExtensionLeaf(def) }, n
		case 1:
			_, in := p.input()
			return func() (any, error) { return p.rb.B.ExtensionSingle(in, def) }, n
		}
		var ins []plan.Rel
		for i := rapid.IntRange(1, 3).Draw(p.t, "ninputs"); i > 0; i-- {
			_, in := p.input()
			ins = append(ins, in)
		}
		if p.flaw(15) {
			p.bad, ins = "no inputs", nil
		}
		return func() (any, error) { return p.rb.B.ExtensionMulti(ins, def) }, n
	},
	"inpredicate": func(p *p5) (func() (any, error), int) {
		r, in := p.input()
		var es []expr.Expression
		for range r.cols() {
			es = append(es, p.ex(nil, genETD(p.t)))
		}
		if p.flaw(20) {
			p.bad = "needles"
			switch k := rapid.IntRange(0, 2).Draw(p.t, "how"); {
			case k == 0 || len(es) == 0:
				es = append(es, p.ex(nil, genETD(p.t)))
			case k == 1:
				es = es[1:]
			case k == 2:
				es[pick(p.t, len(es))] = nil
			}
		}
		if len(es) == 0 && p.bad == "" {
			p.bad = "no needles"
		}
		return func() (any, error) { return p.rb.B.InPredicateSubquery(es, in) }, -1
	},
	"setpredicate": func(p *p5) (func() (any, error), int) {
		_, in := p.input()
		op := p.enum(1, 2, true)
		return func() (any, error) { return p.rb.B.SetPredicateSubquery(in, plan.SetPredicateOp(op)) }, -1
	},
	"scalarsubquery": func(p *p5) (func() (any, error), int) {
		r, in := p.input()
		if in != nil && pct(p.t, 50) && len(r.cols()) > 0 {
			if m := []int32{int32(pick(p.t, len(r.cols())))}; !identity(m, len(r.cols())) {
				var err error
				in, err = in.Remap(m...)
				p.c.Check(err == nil, "input", "%v", err)
				r = r.remapped(m)
			}
		}
		if len(r.cols()) != 1 && p.bad == "" {
			p.bad = "not one column"
		}
		return func() (any, error) {
			s, err := p.rb.B.ScalarSubquery(in)
			if err == nil {
				p.c.Check(tdOf(s.GetType()).equal(r.cols()[0]), "scalar_type", "a scalar subquery of %v is %v", r.cols(), s.GetType())
			}
			return s, err
		}, -1
	},
	"setcomparison": func(p *p5) (func() (any, error), int) {
		_, in := p.input()
		e := p.ex(nil, genETD(p.t))
		if p.flaw(10) {
			p.bad, e = "no left side", nil
		}
		red, cmp := p.enum(1, 2, true), p.enum(1, 6, true)
		return func() (any, error) {
			return p.rb.B.SetComparisonSubquery(e, in, plan.SetComparisonReductionOp(red), plan.SetComparisonComparisonOp(cmp))
		}, -1
	},
	"plan": func(p *p5) (func() (any, error), int) {
		r, in := p.rel()
		names := p.names(r.cols())
		if p.flaw(10) {
			p.bad, in = "no root", nil
		}
		var others []plan.Rel
		rs := []*RM{r}
		for i := rapid.IntRange(0, 2).Draw(p.t, "nothers"); i > 0; i-- {
			o, oin := p.rel()
			rs = append(rs, o)
			if p.flaw(7) {
				p.bad, oin = "no relation", nil
			}
			others = append(others, oin)
		}
		switch rapid.IntRange(0, 2).Draw(p.t, "variant") {
		case 0:
			return func() (any, error) { return p.rb.B.Plan(in, names, others...) }, -1
		case 1:
			return func() (any, error) { return p.rb.B.PlanWithTypes(in, names, []string{"a/b"}, others...) }, -1
		}
		params := map[int32][]*TD{}
		for _, o := range rs {
			o.params(params)
		}
		alone := len(others) == 0 && p.bad == "" && rapid.Bool().Draw(p.t, "alone")
		var bs []plan.DynamicParameterBinding
		for _, b := range genBindings(p.t, params) {
			b := b
			d := b.T
			if p.flaw(30) {
				switch rapid.IntRange(0, 2).Draw(p.t, "badbinding") {
				case 0:
					p.bad, b.Anchor = "undeclared parameter", 12345
				case 1:
					p.bad, d = "binding type", p.litableOther(d)
				case 2:
					p.bad = "binding without value"
					bs = append(bs, plan.DynamicParameterBinding{ParameterAnchor: uint32(b.Anchor)})
					continue
				}
			}
			l := genLV(p.t, d.clone()).lit()
			bs = append(bs, plan.DynamicParameterBinding{ParameterAnchor: uint32(b.Anchor), Value: l})
		}
		if len(bs) == 0 && p.flaw(15) {
			l := expr.NewPrimitiveLiteral(true, false)
			p.bad = "undeclared parameter"
			bs = append(bs, plan.DynamicParameterBinding{ParameterAnchor: 4321, Value: l})
		}
		if alone {
			return func() (any, error) { return in, plan.ValidateParameterBindings(in, bs) }, -1
		}
		return func() (any, error) { return p.rb.B.PlanWithBindings(in, names, nil, bs, others...) }, -1
	},
	"unknownfn": func(p *p5) (func() (any, error), int) {
		p.bad = "unknown function"
		i32 := expr.NewPrimitiveLiteral(int32(1), false)
		id := rapid.SampledFrom([]ext.FunctionID{{URN: eURN, Name: "nosuch"}, {URN: eURN, Name: "add:i32_i64"}, {URN: "extension:no:such", Name: "add:i32_i32"}, {URN: "", Name: "add:i32_i32"},
			{URN: eURN, Name: ""}, {URN: eURN, Name: "total:i32"}}).Draw(p.t, "id")
		if pct(p.t, 40) {
			if id.Name == "total:i32" {
				id.Name = "add:i32_i32"
			}
			return func() (any, error) { return p.rb.B.AggregateFn(id.URN, id.Name, nil, i32, i32) }, -1
		}
		return func() (any, error) { return p.rb.B.ScalarFn(id.URN, id.Name, nil, i32, i32) }, -1
	},
}

func (p *p5) litableOther(d *TD) *TD {
	for i := 0; i < 20; i++ {
		o := genLitTD(p.t, typeGenOpts{depth: 1, noFunc: true, noUnspec: true, decimalOK: true, noEmpty: true})
		if !o.withNull(1).equal(d.withNull(1)) {
			return o
		}
	}
	if d.Kind == "date" {
		return boolTD(1)
	}
	return &TD{Kind: "date", Null: 1}
}

// measures draws measures, sometimes one without a function.
func (p *p5) measures(r *RM) (out []plan.AggRelMeasure) {
	for i := rapid.IntRange(0, 2).Draw(p.t, "nmeasures"); i > 0; i-- {
		f, err := p.rb.eb(r.cols()).agg(p.x.agg(p.t, r.cols()))
		p.c.Check(err == nil, "measure", "%v", err)
		var filter expr.Expression
		if pct(p.t, 30) {
			filter = p.ex(r.cols(), boolTD(1))
		}
		if p.flaw(8) {
			p.bad, f = "measure without a function", nil
		}
		out = append(out, p.rb.B.Measure(f, filter))
	}
	return out
}

// ref checks a reference the builder made.
func (p *p5) ref(cols []*TD, i int32) func(*expr.FieldReference, error) (any, error) {
	return func(f *expr.FieldReference, err error) (any, error) {
		if err != nil {
			return nil, err
		}
		if int(i) < len(cols) && i >= 0 {
			p.c.Check(tdOf(f.GetType()).equal(cols[i]) && protoEq(f.ToProto(), (&EX{K: "ref", Root: "root", Path: []ESeg{{K: "field", I: i}}}).proto(p.rb.W)), "fieldref",
				"%s of type %v, want column %d %v", f, f.GetType(), i, cols[i])
		}
		return nil, nil
	}
}

func width(m []int32, n int) int {
	if m == nil {
		return n
	}
	return len(m)
}

type p5bind struct {
	Anchor int32
	T      *TD
}

// genBindings draws bindings that fit the parameters, those of one type throughout.
func genBindings(t *rapid.T, params map[int32][]*TD) (out []p5bind) {
	for _, a := range []int32{0, 1, 7, math.MaxInt32} {
		ts := params[a]
		if len(ts) == 0 || pct(t, 20) || !ts[0].litable() {
			continue
		}
		same := true
		for _, d := range ts {
			same = same && d.withNull(1).equal(ts[0].withNull(1))
		}
		if same {
			out = append(out, p5bind{a, ts[0].withNull(1 + rapid.IntRange(0, 1).Draw(t, "bindnull"))})
		}
	}
	return out
}

func TestP05(t *testing.T) {
	p := start(t, "P05", "calls of every method of the builder with arguments that are right or have one flaw (predicted from the model), and plans of generated relations built by a builder that saw "+
		"nothing before, read back through the declarations it wrote; non-trivial = a flawed call, or a plan with functions or more than one relation")
	defer p.finish()

	var names []string
	for k := range p5Calls {
		names = append(names, k)
	}
	sortStrings(names)
	p.sub("calls", 12000, func(c *C) {
		k := names[pick(c.T, len(names))]
		p := &p5{c: c, t: c.T, rb: newRB(c), x: RCtx{edepth: 1}}
		call, cols := p5Calls[k](p)
		c.Case(p.bad != "", "%s: %s", k, p.bad)
		c.Label(k)
		sig := k
		if p.bad != "" {
			sig = k + ":" + p.bad
			c.Label(sig)
		}
		var got any
		var err error
		c.NoPanic("panic:"+sig, func() { got, err = call() })
		if p.bad != "" {
			c.Check(err != nil, "accepted:"+sig, "%s is accepted", p.bad)
			return
		}
		c.Check(err == nil, "refused:"+sig, "a valid call is refused: %v", err)
		if rel, ok := got.(plan.Rel); ok && !isNil(got) && cols >= 0 {
			rt := rel.RecordType()
			c.Check(int(rt.FieldCount()) == cols, "columns:"+sig, "%d columns, want %d", rt.FieldCount(), cols)
		}
	})

	p.sub("parameters", 3000, func(c *C) {
		t := c.T
		w := genWorld(t)
		r := genRM(t, RCtx{msg: true, edepth: 2, write: true}, rapid.IntRange(0, 2).Draw(t, "depth"))
		m := wire(r.proto(w, true))
		// one expression anywhere becomes a parameter; places of all kinds are equally likely
		by := map[string][]mnode{}
		for _, n := range messagesOf(m) {
			if _, ok := n.m.Interface().(*pb.Expression); ok {
				for _, k := range strings.Split(n.path, ".") {
					by[k] = append(by[k], n)
				}
			}
		}
		var ks []string
		for k := range by {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		if len(ks) == 0 {
			c.Case(false, "%s", r)
			return
		}
		k := ks[pick(t, len(ks))]
		n := by[k][pick(t, len(by[k]))]
		lo := typeGenOpts{depth: 1, noFunc: true, noUnspec: true, decimalOK: true, noEmpty: true}
		d := genLitTD(t, lo)
		if pct(t, 60) {
			d = &TD{Kind: "boolean", Null: 2}
		}
		n.m.Interface().(*pb.Expression).RexType = &pb.Expression_DynamicParameter{DynamicParameter: &pb.DynamicParameter{Type: d.proto(), ParameterReference: 4242}}
		rel, err := plan.RelFromProto(m, w.decReg(c))
		c.Case(err == nil && strings.Count(n.path, ".") > 3, "parameter of type %s at %s in %s", d, n.path, r)
		if err != nil {
			c.Label("refused")
			return
		}
		c.Label("in " + k)
		good := plan.DynamicParameterBinding{ParameterAnchor: 4242, Value: genLV(t, d).lit()}
		err = plan.ValidateParameterBindings(rel, []plan.DynamicParameterBinding{good})
		c.Check(err == nil, "parameter_refused", "a value of type %s for the parameter at %s: %v", d, n.path, err)
		err = plan.ValidateParameterBindings(rel, []plan.DynamicParameterBinding{{ParameterAnchor: 4243, Value: good.Value}})
		c.Check(err != nil, "no_parameter", "a value for a parameter that is nowhere is accepted")
		if pct(t, 30) {
			// and one in what an extension holds
			def := &vdef{exprs: []expr.Expression{
				expr.NewPrimitiveLiteral(int32(1), false),
				&expr.Cast{Type: &types.Int8Type{}, Input: &expr.DynamicParameter{OutputType: d.build(), ParameterReference: 4343}},
			}}
			b := plan.NewBuilderDefault()
			var x plan.Rel
			var err error
			kind := rapid.IntRange(0, 2).Draw(t, "extension")
			switch kind {
			case 0:
				x, err = b.ExtensionLeaf(def)
			case 1:
				x, err = b.ExtensionSingle(rel, def)
			default:
				x, err = b.ExtensionMulti([]plan.Rel{rel, rel}, def)
			}
			c.Check(err == nil, "extension", "%v", err)
			if rapid.Bool().Draw(t, "below") {
				x, err = b.Cross(x, rel)
				c.Check(err == nil, "cross", "%v", err)
			}
			in := plan.DynamicParameterBinding{ParameterAnchor: 4343, Value: good.Value}
			err = plan.ValidateParameterBindings(x, []plan.DynamicParameterBinding{in})
			c.Check(err == nil, "extension_parameter_refused", "kind %d: %v", kind, err)
			err = plan.ValidateParameterBindings(x, []plan.DynamicParameterBinding{in, {ParameterAnchor: 4343, Value: expr.NewNullLiteral(&types.UUIDType{Nullability: types.NullabilityNullable})}})
			c.Check(err != nil || d.Kind == "uuid", "extension_parameter_type", "kind %d", kind)
		}
		o := genLitTD(t, lo)
		if x, y := d.clone(), o.clone(); func() bool { x.Null, y.Null = 2, 2; return x.equal(y) }() {
			return
		}
		err = plan.ValidateParameterBindings(rel, []plan.DynamicParameterBinding{{ParameterAnchor: 4242, Value: genLV(t, o).lit()}})
		c.Check(err != nil, "parameter_type", "a value of type %s is accepted for the parameter of type %s at %s", o, d, n.path)
	})

	p.sub("plans", 3000, func(c *C) {
		t := c.T
		rb := &RB{c: c, B: plan.NewBuilder(eCol()), W: &EWorld{Anchor: map[string]uint32{}}, Later: rapid.Bool().Draw(t, "remapped later")}
		rb.reg = rb.B.GetExprBuilder().Reg
		var rs []*RM
		fns, params := map[string]bool{}, map[int32][]*TD{}
		for i := rapid.IntRange(1, 3).Draw(t, "nrels"); i > 0; i-- {
			r := genRM(t, RCtx{edepth: 2, write: true}, rapid.IntRange(0, 2).Draw(t, "depth"))
			rs = append(rs, r)
			r.fns(fns)
			r.params(params)
		}
		c.Case(len(rs) > 1 || len(fns) > 0, "%v", rs)
		for k := range fns {
			c.Label(k)
		}
		// types, and functions asked for by reference only
		type ref struct {
			urn, name string
			at        uint32
		}
		var tys []ref
		asked := map[string]uint32{}
		ask := func() {
			for i := rapid.IntRange(0, 2).Draw(t, "nrefs"); i > 0; i-- {
				if rapid.Bool().Draw(t, "type") {
					u := ref{urn: rapid.SampledFrom([]string{eURN, "extension:verif:types"}).Draw(t, "urn"), name: rapid.SampledFrom([]string{"point", "add:i32_i32", "w"}).Draw(t, "tname")}
					ps := []types.TypeParam{}
					ty := rb.B.UserDefinedType(u.urn, u.name, ps...)
					u.at = ty.TypeReference
					c.Check(ty.Nullability == types.NullabilityNullable, "udt", "%v", ty)
					tys = append(tys, u)
				} else {
					k := eAll[pick(t, len(eAll))]
					asked[k] = uint32(rb.B.GetFunctionRef(eFns[k].URN, eFns[k].Name))
					fns[k] = true
				}
			}
		}
		var rels []plan.Rel
		ask()
		for _, r := range rs {
			rel, err := rb.build(r)
			c.Check(err == nil, "build", "a well-formed relation is refused: %v", err)
			rels = append(rels, rel)
			ask()
		}
		colNames := genColNames(t, rs[0].cols())
		var urls []string
		if pct(t, 40) {
			urls = rapid.SliceOfN(rapid.SampledFrom([]string{"a/b", "c/d", "a/b"}), 0, 3).Draw(t, "urls")
		}
		var bs []plan.DynamicParameterBinding
		for _, b := range genBindings(t, params) {
			l := genLV(t, b.T).lit()
			bs = append(bs, plan.DynamicParameterBinding{ParameterAnchor: uint32(b.Anchor), Value: l})
			c.Label("binding")
		}
		var pl *plan.Plan
		var err error
		switch {
		case len(bs) == 0 && len(urls) == 0 && rapid.Bool().Draw(t, "plain"):
			pl, err = rb.B.Plan(rels[0], colNames, rels[1:]...)
		case len(bs) == 0 && rapid.Bool().Draw(t, "with types"):
			pl, err = rb.B.PlanWithTypes(rels[0], colNames, urls, rels[1:]...)
		default:
			pl, err = rb.B.PlanWithBindings(rels[0], colNames, urls, bs, rels[1:]...)
		}
		c.Check(err == nil, "plan", "a valid plan is refused: %v", err)
		out, err := pl.ToProto()
		c.Check(err == nil, "to_proto", "%v", err)
		w, declared := anchors(c, out)
		for k := range fns {
			a, ok := w.Anchor[k]
			c.Check(ok, "undeclared", "function %s is used and not declared:\n%v", k, out)
			if at, ok := asked[k]; ok {
				c.Check(at == a, "function_ref", "GetFunctionRef of %s was %d, the plan declares %d", k, at, a)
			}
		}
		for _, u := range tys {
			a, ok := declared[u.urn+" "+u.name]
			c.Check(ok && a == u.at, "type_ref", "type %s %s has reference %d, the plan declares %d %v", u.urn, u.name, u.at, a, ok)
		}
		c.Check(len(out.Relations) == len(rs), "nrelations", "%d relations, want %d", len(out.Relations), len(rs))
		for i, r := range rs {
			want := r.proto(w, true)
			got := out.Relations[i].GetRel()
			if i == 0 {
				got = out.Relations[0].GetRoot().GetInput()
				c.Check(sameStrings(out.Relations[0].GetRoot().GetNames(), colNames), "names", "%v, want %v", out.Relations[0].GetRoot().GetNames(), colNames)
			}
			c.Check(got != nil, "relation_kind", "relation %d is %v", i, out.Relations[i])
			c.Check(protoEq(got, want), "relation:"+r.top(), "relation %d: written / wanted differ at %s", i, msgDiff(got.ProtoReflect(), want.ProtoReflect(), ""))
		}
		c.Check(len(out.ParameterBindings) == len(bs), "bindings", "%d bindings, want %d", len(out.ParameterBindings), len(bs))
		for i, b := range bs {
			c.Check(out.ParameterBindings[i].ParameterAnchor == b.ParameterAnchor && protoEq(out.ParameterBindings[i].Value, b.Value.ToProtoLiteral()), "bindings",
				"%v, want %v", out.ParameterBindings[i], b)
		}
		c.Check(fmt.Sprint(out.ExpectedTypeUrls) == fmt.Sprint(urls), "urls", "%v, want %v", out.ExpectedTypeUrls, urls)
		c.Check(out.Version != nil && out.Version.GetMajorNumber() == pl.Version().GetMajorNumber() && out.Version.GetMinorNumber() == pl.Version().GetMinorNumber() && out.Version.GetProducer() == pl.Version().GetProducer(), "version", "%v", out.Version)
		c.Check(len(pl.Relations()) == len(rs) && len(pl.GetRoots()) == 1 && pl.GetRoots()[0].Input() == rels[0] && len(pl.GetNonRootRelations()) == len(rs)-1,
			"relations", "%d relations, %d roots", len(pl.Relations()), len(pl.GetRoots()))
		for i, o := range pl.GetNonRootRelations() {
			c.Check(o == rels[i+1], "relations", "relation %d is another", i+1)
		}
		rt := pl.GetRoots()[0].RecordType()
		c.Check(protoEq(rt.ToProto(), schemaProto(colNames, frozen(rs[0].cols()))), "root_schema", "%v, want %v %v", &rt, colNames, rs[0].cols())
		for _, u := range tys {
			if u.urn != eURN {
				return // extensions that are not loaded cannot be read back
			}
		}
		back, err := plan.FromProtoWithDecoder(wire(out), eCol(), map[string]expr.ExtensionRelDecoder{defURL: vdec{}})
		c.Check(err == nil, "read", "a built plan is refused when read: %v", err)
		again, err := back.ToProto()
		c.Check(err == nil && samePlan(again, out), "read_again", "%v: %s", err, planDiff(again, out))

		// with one name too many or too few at the root it cannot be read
		bad := wire(out)
		root := bad.Relations[0].GetRoot()
		if w := root.Input.GetWrite(); w != nil && w.Output == pb.WriteRel_OUTPUT_MODE_UNSPECIFIED {
			return // which columns it has is not said
		}
		if n := len(root.Names); n > 0 && rapid.Bool().Draw(t, "fewer") {
			root.Names = root.Names[:n-1]
		} else {
			root.Names = append(root.Names, "more")
		}
		_, err = plan.FromProtoWithDecoder(bad, eCol(), map[string]expr.ExtensionRelDecoder{defURL: vdec{}})
		c.Check(err != nil, "names_read", "read with the names %v over %v", root.Names, rs[0].cols())
	})
}
