package pbt

import (
	"fmt"
	"testing"

	"github.com/substrait-io/substrait-go/v8/types"
	"pgregory.net/rapid"
)

// altBuild builds the type by one of its representations: direct construction or parsed from a message.
func altBuild(t *rapid.T, d *TD) types.Type {
	if rapid.Bool().Draw(t, "viaproto") {
		return types.TypeFromProto(d.proto())
	}
	return d.build()
}

func TestT02(t *testing.T) {
	p := start(t, "T02", "pairs of type trees (copy, single-attribute mutant at any depth, unrelated) and histories of derivations "+
		"(nullability, length, precision, concatenation, matching) with a structural model; non-trivial = mutant pair, nested type or history longer than 1")
	defer p.finish()

	p.sub("equals_is_structural", 12000, func(c *C) {
		d := genTD(c.T, defTypeOpts)
		how := rapid.SampledFrom([]string{"mutant", "mutant", "mutant", "copy", "other"}).Draw(c.T, "how")
		e, op := d.clone(), "copy"
		switch how {
		case "mutant":
			e, op = mutateTD(c.T, d)
		case "other":
			e, op = genTD(c.T, typeGenOpts{depth: 1}), "other"
		}
		c.Case(how == "mutant" || d.isNested(), "%s: %s vs %s", op, d, e)
		c.Label("op:" + op)
		a, b := altBuild(c.T, d), altBuild(c.T, e)
		want := d.equal(e)
		sig := fmt.Sprintf("equals:%s:%s", op, d.Kind)
		c.Check(a.Equals(b) == want, sig, "%v Equals %v = %v, want %v", a, b, a.Equals(b), want)
		c.Check(b.Equals(a) == want, sig, "(swapped) %v Equals %v = %v, want %v", b, a, b.Equals(a), want)
		c.Check(a.Equals(a) && b.Equals(b), "reflexive:"+d.Kind, "%v or %v is not equal to itself", a, b)
		cp := altBuild(c.T, d)
		c.Check(a.Equals(cp) && cp.Equals(a), "copy:"+d.Kind, "%v is not equal to its copy", a)
		c.Check(a.GetType().Equals(a), "gettype:"+d.Kind, "GetType differs")
	})

	p.sub("record_equals", 1500, func(c *C) {
		d := &TD{Kind: "struct", Null: 2}
		n := rapid.IntRange(0, 4).Draw(c.T, "n")
		for i := 0; i < n; i++ {
			if pct(c.T, 20) {
				d.Kids = append(d.Kids, genWrapTD(c.T))
				continue
			}
			d.Kids = append(d.Kids, genTD(c.T, typeGenOpts{depth: 1}))
		}
		e, op := d.clone(), "copy"
		if rapid.Bool().Draw(c.T, "mut") {
			e, op = mutateTD(c.T, d)
			if e.Kind != "struct" || e.Null != 2 || e.Var != 0 {
				e, op = d.clone(), "copy"
			}
		}
		c.Case(op != "copy" || n > 0, "%s: %s vs %s", op, d, e)
		a, b := types.NewRecordTypeFromTypes(buildAll(d.Kids)), types.NewRecordTypeFromStruct(*e.build().(*types.StructType))
		want := d.equal(e)
		c.Check(a.Equals(b) == want && b.Equals(a) == want, "record_equals", "record equality of %s and %s is not %v", a, b, want)
		c.Check(int(a.FieldCount()) == n, "field_count", "field count %d want %d", a.FieldCount(), n)
		for i, k := range d.Kids {
			c.Check(protoEq(types.TypeToProto(a.GetFieldRef(int32(i))), k.proto()), "field_ref", "field %d is %s want %s", i, a.GetFieldRef(int32(i)), k)
		}
		c.Check(a.AsStructType().Equals(d.build()), "as_struct", "AsStructType %s want %s", a.AsStructType(), d)
		c.Check(NS(a.AsStructType()) == d.nameCount(), "name_count", "DepthFirstNameCount %d want %d for %s", NS(a.AsStructType()), d.nameCount(), d)
	})

	p.sub("derivations_leave_source", 3000, func(c *C) {
		d := genTD(c.T, typeGenOpts{depth: 2})
		src := altBuild(c.T, d)
		pool := []types.Type{src}
		model := []*TD{d}
		n := rapid.IntRange(1, 6).Draw(c.T, "steps")
		hist := ""
		for i := 0; i < n; i++ {
			k := rapid.IntRange(0, len(pool)-1).Draw(c.T, "which")
			x, m := pool[k], model[k]
			nl := rapid.IntRange(0, 2).Draw(c.T, "null")
			switch op := rapid.SampledFrom([]string{"null", "null", "len", "ret", "prec"}).Draw(c.T, "op"); op {
			case "null":
				pool = append(pool, x.WithNullability(types.Nullability(nl)))
				model = append(model, m.withNull(nl))
				hist += fmt.Sprintf(" #%d.WithNullability(%d)", k, nl)
			case "len":
				if f, ok := x.(types.FixedType); ok {
					l := rapid.Int32Range(0, 100).Draw(c.T, "l")
					pool = append(pool, f.WithLength(l))
					mm := m.clone()
					mm.P = l
					model = append(model, mm)
					hist += fmt.Sprintf(" #%d.WithLength(%d)", k, l)
				}
			case "ret":
				if f, ok := x.(interface {
					GetReturnType(int32, types.Nullability) types.Type
				}); ok {
					l := rapid.Int32Range(0, 9).Draw(c.T, "l")
					if got := f.GetReturnType(l, types.Nullability(nl)); got != nil {
						pool = append(pool, got)
						mm := m.withNull(nl)
						mm.P = l
						model = append(model, mm)
						hist += fmt.Sprintf(" #%d.GetReturnType(%d,%d)", k, l, nl)
					}
				}
			case "prec":
				var ic types.IntervalCompoundType
				if f, ok := x.(types.IntervalCompoundType); ok {
					ic = f
				} else if f, ok := x.(*types.IntervalCompoundType); ok {
					ic = *f
				} else {
					continue
				}
				pr := rapid.Int32Range(0, 9).Draw(c.T, "pr")
				mm := m.clone()
				mm.P = pr
				pool = append(pool, ic.WithPrecision(types.TimePrecision(pr)))
				model = append(model, mm)
				hist += fmt.Sprintf(" #%d.WithPrecision(%d)", k, pr)
			}
		}
		c.Case(len(pool) > 2 || d.isNested(), "%s%s", d, hist)
		for i := range pool {
			c.Check(protoEq(types.TypeToProto(pool[i]), model[i].proto()), "derived:"+d.Kind,
				"after%s value #%d is %s, want %s", hist, i, tdOf(pool[i]), model[i])
		}
	})

	p.sub("concat_does_not_alias", 3000, func(c *C) {
		// a pool of records; concatenating any two gives a fresh one; all must keep their model
		var pool []types.RecordType
		var model []*TD
		add := func(d *TD, r types.RecordType) { pool = append(pool, r); model = append(model, d) }
		small := typeGenOpts{depth: 0, noUDTArgs: true}
		for i := 0; i < 3; i++ {
			d := &TD{Kind: "struct", Null: 2}
			n := rapid.IntRange(0, 3).Draw(c.T, "n")
			for j := 0; j < n; j++ {
				d.Kids = append(d.Kids, genTD(c.T, small))
			}
			ts := make([]types.Type, 0, n+rapid.IntRange(0, 3).Draw(c.T, "spare"))
			ts = append(ts, buildAll(d.Kids)...)
			add(d, *types.NewRecordTypeFromTypes(ts))
		}
		steps := rapid.IntRange(1, 6).Draw(c.T, "steps")
		hist := ""
		for i := 0; i < steps; i++ {
			a := rapid.IntRange(0, len(pool)-1).Draw(c.T, "a")
			b := rapid.IntRange(0, len(pool)-1).Draw(c.T, "b")
			hist += fmt.Sprintf(" #%d+#%d", a, b)
			d := &TD{Kind: "struct", Null: 2, Kids: append(append([]*TD{}, model[a].Kids...), model[b].Kids...)}
			r := pool[a].Concat(pool[b])
			add(d, r)
		}
		c.Case(steps > 1, "%v%s", model[:3], hist)
		for i := range pool {
			c.Check(pool[i].AsStructType().Equals(model[i].build()), "concat_alias", "after%s record #%d is %s want %s", hist, i, pool[i], model[i])
		}
	})

	p.sub("concat_result_is_independent", 1500, func(c *C) {
		// writing into the concatenation (as a join does to its output) must not write into the inputs
		small := typeGenOpts{depth: 0, noUDTArgs: true}
		gen := func() (*TD, types.RecordType) {
			d := &TD{Kind: "struct", Null: 2}
			n := rapid.IntRange(0, 3).Draw(c.T, "n")
			for j := 0; j < n; j++ {
				d.Kids = append(d.Kids, genTD(c.T, small))
			}
			return d, *types.NewRecordTypeFromTypes(buildAll(d.Kids))
		}
		da, a := gen()
		db, b := gen()
		c.Case(len(da.Kids)+len(db.Kids) > 0, "%s + %s", da, db)
		r := a.Concat(b)
		ts := r.Types()
		for i := range ts {
			ts[i] = &types.BinaryType{Nullability: types.NullabilityNullable, TypeVariationRef: 999}
		}
		c.Check(a.AsStructType().Equals(da.build()) && b.AsStructType().Equals(db.build()), "concat_shares_storage",
			"inputs became %s and %s", a, b)
	})

	p.sub("global_type_tables", 300, func(c *C) {
		// types handed out by name must come out unchanged whatever was done with earlier ones
		m := types.GetTypeNameToTypeMap()
		names := make([]string, 0, len(m))
		for k := range m {
			names = append(names, k)
		}
		sortStrings(names)
		name := rapid.SampledFrom(names).Draw(c.T, "name")
		nl := rapid.IntRange(0, 2).Draw(c.T, "null")
		c.Case(true, "%s.WithNullability(%d)", name, nl)
		before := m[name].GetNullability()
		der := m[name].WithNullability(types.Nullability(nl))
		c.Check(der.GetNullability() == types.Nullability(nl), "with_null:"+name, "derived nullability %v", der.GetNullability())
		c.Check(m[name].GetNullability() == before, "table_changed:"+name, "table entry changed to %v", m[name].GetNullability())
		c.Check(types.GetTypeNameToTypeMap()[name].GetNullability() == before, "table_changed:"+name, "fresh table entry changed")
	})
}

// NS counts names the way the code does.
func NS(s *types.StructType) int { return s.DepthFirstNameCount() }

// nameCount is the number of names a struct needs: one per field, recursing into struct, list and map.
func (d *TD) nameCount() int {
	n := 0
	switch d.Kind {
	case "struct":
		for _, k := range d.Kids {
			n += 1 + k.nameCount()
		}
	case "list", "map":
		for _, k := range d.Kids {
			n += k.nameCount()
		}
	}
	return n
}
