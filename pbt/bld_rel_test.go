package pbt

import (
	"fmt"

	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/plan"
	"github.com/substrait-io/substrait-go/v8/types"
	"pgregory.net/rapid"
)

// RB builds relations with the plan builder.
type RB struct {
	c     *C
	B     plan.Builder
	W     *EWorld // the anchors the builder uses
	reg   expr.ExtensionRegistry
	memo  map[*RM]plan.Rel
	Later bool // mappings by Remap, of what can take them when made too
}

func newRB(c *C) *RB {
	rb := &RB{c: c, B: plan.NewBuilder(eCol()), W: &EWorld{Anchor: map[string]uint32{}}, Later: rapid.Bool().Draw(c.T, "remapped later")}
	rb.reg = rb.B.GetExprBuilder().Reg
	order := append([]string(nil), eAll...)
	if rapid.Bool().Draw(c.T, "shuffled") {
		order = rapid.Permutation(order).Draw(c.T, "order")
	}
	for _, k := range order {
		rb.W.Anchor[k] = uint32(rb.B.GetFunctionRef(eFns[k].URN, eFns[k].Name))
	}
	return rb
}

func (b *RB) eb(cols []*TD) *EB {
	e := newEB(b.c, b.W, b.reg, frozen(cols), false)
	e.Fluent = rapid.Bool().Draw(b.c.T, "fluent")
	return e
}

func (r *RM) named() types.NamedStruct {
	return types.NamedStruct{Names: r.BaseNames, Struct: types.StructType{Nullability: types.NullabilityRequired, Types: buildTDs(r.Base.T)}}
}

func buildTDs(ds []*TD) []types.Type {
	out := make([]types.Type, len(ds))
	for i, d := range ds {
		out[i] = d.build()
	}
	return out
}

// identity says that a mapping gives all columns in their order.
func identity(m []int32, n int) bool {
	for i, x := range m {
		if int(x) != i {
			return false
		}
	}
	return len(m) == n
}

// build makes the relation with the builder. A mapping put on afterwards is left away if it is
// the identity; the model is changed to say so.
func (b *RB) build(r *RM) (plan.Rel, error) {
	if rel, ok := b.memo[r]; ok {
		return rel, nil
	}
	rel, err := b.build1(r)
	if err == nil && b.memo != nil {
		b.memo[r] = rel
	}
	return rel, err
}

func (b *RB) build1(r *RM) (plan.Rel, error) {
	var in []plan.Rel
	for _, k := range r.In {
		x, err := b.build(k)
		if err != nil {
			return nil, err
		}
		in = append(in, x)
	}
	var remap []int32
	later := r.Mapped && (b.Later || r.K == "ext" || r.K == "iceberg" || r.K == "agg" || len(r.K) > 3 && r.K[:3] == "ext" || r.K == "virtual" && len(r.Rows) == 0)
	if r.Mapped && !later {
		remap = append([]int32{}, r.Map...)
	}
	out, err := b.make(r, in, remap)
	if err != nil || !later {
		return out, err
	}
	if identity(r.Map, len(r.Direct)) {
		r.Mapped, r.Map = false, nil
		if len(r.Direct) == 0 {
			return out, nil
		}
		for i := range r.Direct {
			remap = append(remap, int32(i))
		}
		return out.Remap(remap...)
	}
	return out.Remap(append([]int32{}, r.Map...)...)
}

func (b *RB) exprs(cols []*TD, es []*EX) ([]expr.Expression, error) { return b.eb(cols).all(es) }

func (b *RB) expr(cols []*TD, e *EX) (expr.Expression, error) {
	if e == nil {
		return nil, nil
	}
	return b.eb(cols).build(e)
}

func (b *RB) make(r *RM, in []plan.Rel, remap []int32) (plan.Rel, error) {
	t := b.c.T
	plain := remap == nil && rapid.Bool().Draw(t, "plain call")
	cols := func(i int) []*TD { return r.In[i].cols() }
	switch r.K {
	case "named":
		if plain {
			return b.B.NamedScan(r.Names, r.named()), nil
		}
		return b.B.NamedScanRemap(r.Names, r.named(), remap)
	case "virtual":
		if len(r.Rows) == 0 {
			return b.B.EmptyVirtualTable(r.BaseNames, buildTDs(r.Base.T))
		}
		lits := true
		var rows []expr.VirtualTableExpressionValue
		var lrows []expr.StructLiteralValue
		for _, row := range r.Rows {
			es, err := b.exprs(nil, row)
			if err != nil {
				return nil, err
			}
			rows = append(rows, es)
			var lr expr.StructLiteralValue
			for _, e := range es {
				l, ok := e.(expr.Literal)
				lits = lits && ok
				if ok {
					lr = append(lr, l)
				}
			}
			lrows = append(lrows, lr)
		}
		switch {
		case lits && plain:
			return b.B.VirtualTable(r.BaseNames, lrows...)
		case lits && rapid.Bool().Draw(t, "as literals"):
			return b.B.VirtualTableRemap(r.BaseNames, remap, lrows...)
		case plain:
			return b.B.VirtualTableFromExpr(r.BaseNames, rows...)
		}
		return b.B.VirtualTableFromExprRemap(r.BaseNames, remap, rows...)
	case "ext":
		return b.B.ExtensionTable(r.Detail, r.named()), nil
	case "iceberg":
		var s plan.IcebergSnapshot
		switch r.SnapK {
		case "id":
			s = plan.SnapshotId(r.SnapID)
		case "ts":
			s = plan.SnapshotTimestamp(r.SnapTS)
		}
		return b.B.IcebergTableFromMetadataFile(r.URI, s, r.named())
	case "filter":
		e, err := b.expr(cols(0), r.Cond)
		if err != nil {
			return nil, err
		}
		if plain {
			return b.B.Filter(in[0], e)
		}
		return b.B.FilterRemap(in[0], e, remap)
	case "project":
		es, err := b.exprs(cols(0), r.Exprs)
		if err != nil {
			return nil, err
		}
		if plain {
			return b.B.Project(in[0], es...)
		}
		return b.B.ProjectRemap(in[0], remap, es...)
	case "fetch":
		if plain {
			return b.B.Fetch(in[0], r.Off, r.Cnt)
		}
		return b.B.FetchRemap(in[0], r.Off, r.Cnt, remap)
	case "sort":
		var fs []expr.SortField
		for i, e := range r.Exprs {
			x, err := b.expr(cols(0), e)
			if err != nil {
				return nil, err
			}
			fs = append(fs, goSort(x, r.Dirs[i]))
		}
		if plain {
			return b.B.Sort(in[0], fs...)
		}
		return b.B.SortRemap(in[0], remap, fs...)
	case "cross":
		if plain {
			return b.B.Cross(in[0], in[1])
		}
		return b.B.CrossRemap(in[0], in[1], remap)
	case "join":
		both := cat(cols(0), cols(1))
		cond, err := b.expr(both, r.Cond)
		if err != nil {
			return nil, err
		}
		post, err := b.expr(both, r.Post)
		if err != nil {
			return nil, err
		}
		jt := plan.JoinType(r.JT)
		switch {
		case post == nil && plain:
			return b.B.Join(in[0], in[1], cond, jt)
		case post == nil:
			return b.B.JoinRemap(in[0], in[1], cond, jt, remap)
		case plain:
			return b.B.JoinAndFilter(in[0], in[1], cond, post, jt)
		}
		return b.B.JoinAndFilterRemap(in[0], in[1], cond, post, jt, remap)
	case "set":
		if plain {
			return b.B.Set(plan.SetOp(r.Op), in...)
		}
		return b.B.SetRemap(plan.SetOp(r.Op), remap, in...)
	case "agg":
		keys, err := b.exprs(cols(0), r.Exprs)
		if err != nil {
			return nil, err
		}
		var ms []plan.AggRelMeasure
		for _, m := range r.Measures {
			f, err := b.eb(cols(0)).agg(m.Agg)
			if err != nil {
				return nil, err
			}
			filter, err := b.expr(cols(0), m.Filter)
			if err != nil {
				return nil, err
			}
			ms = append(ms, b.B.Measure(f, filter))
		}
		if rapid.Bool().Draw(t, "by AggregateExprs") {
			var sets [][]expr.Expression
			for _, g := range r.Groups {
				set := []expr.Expression{}
				for _, i := range g {
					set = append(set, keys[i])
				}
				sets = append(sets, set)
			}
			return b.B.AggregateExprs(in[0], ms, sets...)
		}
		ab := b.B.GetRelBuilder().AggregateRel(in[0], ms)
		for _, g := range r.Groups {
			set := []uint32{}
			for _, i := range g {
				set = append(set, ab.AddExpression(keys[i]))
			}
			ab.AddGroupingSet(set)
		}
		return ab.Build()
	case "extsingle", "extmulti", "extleaf":
		def, err := newVdef(r.Detail)
		if err != nil {
			return nil, err
		}
		switch r.K {
		case "extsingle":
			return b.B.ExtensionSingle(in[0], def)
		case "extmulti":
			return b.B.ExtensionMulti(in, def)
		}
		return b.B.ExtensionLeaf(def)
	case "write":
		switch {
		case r.Op == 4 && plain:
			return b.B.CreateTableAsSelect(in[0], r.Names, r.named())
		case r.Op == 4:
			return b.B.CreateTableAsSelectRemap(in[0], remap, r.Names, r.named())
		case r.Op == 1 && plain:
			return b.B.NamedInsert(in[0], r.Names, r.named())
		case r.Op == 2 && plain:
			return b.B.NamedDelete(in[0], r.Names, r.named())
		}
		return b.B.NamedWriteRemap(in[0], plan.WriteOp(r.Op), r.Names, r.named(), remap)
	}
	panic(r.K)
}

// relExprs lists what a relation says its expressions are, in the order of ownExprs.
func relExprs(rel plan.Rel) (es []any) {
	add := func(e expr.Expression) {
		if e != nil {
			es = append(es, e)
		}
	}
	switch r := rel.(type) {
	case plan.ReadRel:
		add(r.Filter())
		add(r.BestEffortFilter())
		if v, ok := r.(*plan.VirtualTableReadRel); ok {
			for _, row := range v.Values() {
				for _, e := range row {
					add(e)
				}
			}
		}
	case *plan.FilterRel:
		add(r.Condition())
	case *plan.ProjectRel:
		for _, e := range r.Expressions() {
			add(e)
		}
	case *plan.SortRel:
		for _, s := range r.Sorts() {
			add(s.Expr)
		}
	case *plan.JoinRel:
		add(r.Expr())
		add(r.PostJoinFilter())
	case *plan.HashJoinRel:
		for _, k := range r.Keys() {
			add(k.Left())
			add(k.Right())
		}
		add(r.PostJoinFilter())
	case *plan.MergeJoinRel:
		for _, k := range r.Keys() {
			add(k.Left())
			add(k.Right())
		}
		add(r.PostJoinFilter())
	case *plan.AggregateRel:
		for _, e := range r.GroupingExpressions() {
			add(e)
		}
		for _, m := range r.Measures() {
			es = append(es, m.Measure())
			add(m.Filter())
		}
	}
	return es
}

// checkParts compares what the relation and those below say of themselves with the model.
func (r *RM) checkParts(c *C, rel plan.Rel, w *EWorld, sig string) {
	k := r.K + sig
	got, want := relExprs(rel), r.exprSlots()
	c.Check(len(got) == len(want), "nexprs:"+k, "%d expressions, want %d: %v", len(got), len(want), got)
	for i, g := range got {
		m := want[i]
		if m == nil {
			e := g.(expr.Expression)
			c.Check(e.ToProto().GetLiteral().GetBoolean(), "default:"+k, "a missing filter is %s", e)
			continue
		}
		if f, ok := g.(*expr.AggregateFunction); ok {
			c.Check(protoEq(f.ToProto(), m.aggProto(w)), "parts:"+k, "measure %s, want %s", f, m)
			c.Check(tdOf(f.GetType()).equal(m.T), "parttype:"+k, "measure %s is %v, want %v", f, f.GetType(), m.T)
			continue
		}
		e := g.(expr.Expression)
		c.Check(protoEq(e.ToProto(), m.proto(w)), "parts:"+k, "expression %s, want %s", e, m)
		c.Check(e.GetType() != nil && tdOf(e.GetType()).equal(m.T), "parttype:"+k, "expression %s is %v, want %v", e, e.GetType(), m.T)
	}
	var bad string
	is := func(what string, ok bool) {
		if !ok && bad == "" {
			bad = what
		}
	}
	in := func(got plan.Rel, i int) {
		is("input", i < len(r.In) && got == rel.GetInputs()[i])
	}
	if x, ok := rel.(plan.ReadRel); ok {
		b := x.BaseSchema()
		is("base schema", protoEq(b.ToProto(), schemaProto(r.BaseNames, r.Base)))
		is("projection", (x.Projection() == nil) == (r.Mask == nil) && (r.Mask == nil || protoEq(x.Projection().ToProto(), r.Mask.proto())))
	}
	switch x := rel.(type) {
	case *plan.NamedTableReadRel:
		is("kind", r.K == "named")
		is("names", sameStrings(x.Names(), r.Names))
		is("extension", protoEq(x.NamedTableAdvancedExtension(), r.TAdv))
	case *plan.VirtualTableReadRel:
		is("kind", r.K == "virtual")
		is("rows", len(x.Values()) == len(r.Rows))
	case *plan.LocalFileReadRel:
		is("kind", r.K == "files")
		for i, f := range r.Files {
			g := x.Item(i)
			is("file", g.PartIndex == f.PartitionIndex && g.Start == f.Start && g.Len == f.Length &&
				g.Path == f.GetUriFile()+f.GetUriFolder()+f.GetUriPath()+f.GetUriPathGlob())
		}
	case *plan.ExtensionTableReadRel:
		is("kind", r.K == "ext")
		is("detail", protoEq(x.Detail(), r.Detail))
	case *plan.IcebergTableReadRel:
		is("kind", r.K == "iceberg")
	case *plan.FilterRel:
		is("kind", r.K == "filter")
		in(x.Input(), 0)
	case *plan.ProjectRel:
		is("kind", r.K == "project")
		in(x.Input(), 0)
	case *plan.FetchRel:
		is("kind", r.K == "fetch")
		is("offset", x.Offset() == r.Off)
		is("count", x.Count() == r.Cnt)
		in(x.Input(), 0)
	case *plan.SortRel:
		is("kind", r.K == "sort")
		in(x.Input(), 0)
		for i, s := range x.Sorts() {
			is("direction", protoEq(s.ToProto(), sortProto(r.Exprs[i], r.Dirs[i], w)))
		}
	case *plan.JoinRel:
		is("kind", r.K == "join")
		is("type", int32(x.Type()) == r.JT)
		in(x.Left(), 0)
		in(x.Right(), 1)
	case *plan.CrossRel:
		is("kind", r.K == "cross")
		in(x.Left(), 0)
		in(x.Right(), 1)
	case *plan.HashJoinRel:
		is("kind", r.K == "hash")
		is("type", int32(x.Type()) == r.JT)
		is("build side", int32(x.BuildInput()) == r.BuildSide)
		in(x.Left(), 0)
		in(x.Right(), 1)
		r.checkKeys(x.Keys(), is)
	case *plan.MergeJoinRel:
		is("kind", r.K == "merge")
		is("type", int32(x.Type()) == r.JT)
		in(x.Left(), 0)
		in(x.Right(), 1)
		r.checkKeys(x.Keys(), is)
	case *plan.SetRel:
		is("kind", r.K == "set")
		is("op", int32(x.Op()) == r.Op)
		for i, k := range x.Inputs() {
			in(k, i)
		}
	case *plan.AggregateRel:
		is("kind", r.K == "agg")
		in(x.Input(), 0)
		is("sets", sameRefs(x.GroupingReferences(), r.Groups))
	case *plan.ExtensionSingleRel:
		is("kind", r.K == "extsingle")
		in(x.Input(), 0)
		is("detail", protoEq(x.Detail(), r.Detail))
	case *plan.ExtensionMultiRel:
		is("kind", r.K == "extmulti")
		is("detail", protoEq(x.Detail(), r.Detail))
		for i, k := range x.Inputs() {
			in(k, i)
		}
	case *plan.ExtensionLeafRel:
		is("kind", r.K == "extleaf")
		is("detail", protoEq(x.Detail(), r.Detail))
	case *plan.NamedTableWriteRel:
		is("kind", r.K == "write")
		is("names", sameStrings(x.Names(), r.Names))
		is("op", int32(x.Op()) == r.Op)
		is("create mode", int32(x.CreateMode()) == r.CreateMode)
		s := x.TableSchema()
		is("schema", protoEq(s.ToProto(), schemaProto(r.BaseNames, r.Base)))
		in(x.Input(), 0)
	default:
		is("kind", false)
	}
	c.Check(bad == "", "part:"+k+":"+bad, "%s of %T is not that of %s", bad, rel, r)
	for i, x := range rel.GetInputs() {
		r.In[i].checkParts(c, x, w, sig)
	}
}

func (r *RM) checkKeys(ks []*plan.ComparisonJoinKey, is func(string, bool)) {
	is("keys", len(ks) == len(r.Keys))
	for i, k := range ks {
		switch x := k.Comparison().(type) {
		case plan.SimpleComparison:
			is("comparison", int32(x.Type) == r.Keys[i].Simple)
		case plan.CustomComparison:
			is("comparison", r.Keys[i].Simple == 0 && fmt.Sprint(x) == fmt.Sprintf("{%d}", r.Keys[i].Custom))
		default:
			is("comparison", false)
		}
	}
}

func sameStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func sameRefs(a, b [][]uint32) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if len(a[i]) != len(b[i]) {
			return false
		}
		for j := range a[i] {
			if a[i][j] != b[i][j] {
				return false
			}
		}
	}
	return true
}
