package pbt

import (
	"errors"
	"fmt"
	"testing"

	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/plan"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"
)

func msgKey(m proto.Message) string {
	b, err := proto.MarshalOptions{Deterministic: true}.Marshal(m)
	if err != nil {
		panic(err)
	}
	return string(b)
}

// exprCols is what the expressions of a relation refer to.
func (r *RM) exprCols() []*TD {
	switch r.K {
	case "virtual":
		return nil
	case "named", "files", "ext", "iceberg":
		return r.Base.T
	}
	var in [][]*TD
	for _, i := range r.In {
		in = append(in, i.cols())
	}
	return cat(in...)
}

// withExprs is the relation with its expressions replaced; key expressions by keyf.
func (r *RM) withExprs(f func(*EX) *EX, keyf func(e *EX, side int) *EX) *RM {
	o := *r
	opt := func(e *EX) *EX {
		if e == nil {
			return nil
		}
		return f(e)
	}
	list := func(es []*EX) (out []*EX) {
		for _, e := range es {
			out = append(out, f(e))
		}
		return out
	}
	o.Keys = nil
	for _, k := range r.Keys {
		k.L, k.R = keyf(k.L, 0), keyf(k.R, 1)
		o.Keys = append(o.Keys, k)
	}
	o.Filter, o.Best, o.Cond, o.Post = opt(r.Filter), opt(r.Best), opt(r.Cond), opt(r.Post)
	o.Exprs = list(r.Exprs)
	o.Rows = nil
	for _, row := range r.Rows {
		o.Rows = append(o.Rows, list(row))
	}
	o.Measures = nil
	for _, m := range r.Measures {
		a := *m.Agg
		a.Kids = list(m.Agg.Kids)
		o.Measures = append(o.Measures, RMeas{Agg: &a, Filter: opt(m.Filter)})
	}
	return &o
}

func TestP04(t *testing.T) {
	p := start(t, "P04", "relations of every kind read from messages, copied with the same and with other inputs (and wrong numbers of them), and rewritten by functions replacing a "+
		"drawn subset of their expressions (conditions, filters, projections, keys, sort keys, arguments and sort keys of measures, table rows) or failing at a drawn call; "+
		"non-trivial = something is replaced")
	defer p.finish()

	type setup struct {
		w   *EWorld
		r   *RM
		rel plan.Rel
		reg expr.ExtensionRegistry
		msg string
	}
	make := func(c *C) setup {
		w := genWorld(c.T)
		ks := append([]string{"leaf", "leaf", "write", "hash", "merge", "extsingle", "extmulti"}, relKinds...)
		k := ks[pick(c.T, len(ks))]
		x := RCtx{msg: true, edepth: 1, noSub: rapid.Bool().Draw(c.T, "nosub")}
		var r *RM
		if k == "leaf" {
			r = genLeaf(c.T, x, nil)
		} else {
			r = genKind(c.T, x, k, 1)
		}
		c.Label(r.K)
		reg := w.decReg(c)
		rel, err := plan.RelFromProto(wire(r.proto(w, false)), reg)
		c.Check(err == nil, "refused:"+r.K, "%v", err)
		return setup{w, r, rel, reg, msgKey(rel.ToProto())}
	}
	same := func(c *C, s setup, got plan.Rel, want *RM, sig string) {
		m := want.proto(s.w, true)
		c.Check(protoEq(got.ToProto(), m), sig+":"+want.K, "%s: written / wanted differ at %s", want, msgDiff(got.ToProto().ProtoReflect(), m.ProtoReflect(), ""))
		e := schemaErr(got.RecordType(), want.cols())
		c.Check(e == "", sig+"_schema:"+want.K, "%s", e)
	}
	unchanged := func(c *C, s setup, sig string) {
		c.Check(msgKey(s.rel.ToProto()) == s.msg, "original_"+sig+":"+s.r.K, "the original became %v", s.rel.ToProto())
	}
	// other inputs with the same columns
	others := func(c *C, s setup) (rels []plan.Rel, m *RM) {
		o := *s.r
		o.In = nil
		for i, k := range s.r.In {
			if pct(c.T, 35) {
				o.In = append(o.In, k)
				rels = append(rels, s.rel.GetInputs()[i])
				continue
			}
			n := genSameLeaf(c.T, RCtx{msg: true, edepth: 0, noSub: true}, k.cols())
			rel, err := plan.RelFromProto(wire(n.proto(s.w, false)), s.reg)
			c.Check(err == nil, "refused_input", "%v", err)
			o.In = append(o.In, n)
			rels = append(rels, rel)
		}
		if (s.r.K == "set" || s.r.K == "extmulti") && len(rels) > 1 {
			// any number of inputs
			min := 2
			switch op := pick(c.T, 8); {
			case op == 0:
				k := pick(c.T, len(rels))
				o.In, rels = append(o.In, o.In[k]), append(rels, rels[k])
			case op == 1 && len(rels) > min:
				o.In, rels = o.In[:len(rels)-1], rels[:len(rels)-1]
			case op == 2 && len(rels) > min:
				o.In, rels = o.In[1:], rels[1:]
			}
		}
		return rels, &o
	}
	sharing := func(c *C, got plan.Rel, in []plan.Rel, sig string) {
		have := got.GetInputs()
		c.Check(len(have) == len(in), sig+"_inputs", "%d inputs, want %d", len(have), len(in))
		for i := range in {
			c.Check(have[i] == in[i], sig+"_inputs", "input %d is not the one given", i)
		}
	}
	// changes to a copy are not seen in the original
	scribble := func(c *C, s setup, got plan.Rel) {
		got.SetAdvancedExtension(genAdv(c.T, 100))
		if x, ok := got.(interface{ SetProjection(*expr.MaskExpression) }); ok {
			x.SetProjection(nil)
		}
		if x, ok := got.(*plan.AggregateRel); ok {
			x.SetMeasures(nil)
			x.SetGroupingReferences([][]uint32{{}})
			x.SetGroupingExpressions(nil)
		}
		_, _ = got.Remap()
		unchanged(c, s, "after_change_of_copy")
	}

	p.sub("copy", 2500, func(c *C) {
		s := make(c)
		k := s.r.K
		in, m := others(c, s)
		diff := len(in) != len(s.rel.GetInputs())
		for i := range in {
			diff = diff || in[i] != s.rel.GetInputs()[i]
		}
		c.Case(diff, "%s to %s", s.r, m)
		got, err := s.rel.Copy(in...)
		c.Check(err == nil, "copy_err:"+k, "%v", err)
		same(c, s, got, m, "copy")
		sharing(c, got, in, "copy:"+k)
		unchanged(c, s, "copied")
		if len(in) > 0 {
			old := append([]plan.Rel{}, in...)
			for i := range in {
				in[i] = nil
			}
			sharing(c, got, old, "copy_slice:"+k)
			in = old
		}
		plain, err := s.rel.Copy(s.rel.GetInputs()...)
		c.Check(err == nil, "copy_err:"+k, "%v", err)
		same(c, s, plain, s.r, "plain_copy")
		scribble(c, s, plain)
		scribble(c, s, got)
		if n := len(s.r.In); n > 0 {
			var bad []plan.Rel
			if wrong := rapid.Bool().Draw(c.T, "fewer"); wrong || k == "set" || k == "extmulti" {
				if k != "set" && k != "extmulti" {
					bad = in[:n-1]
				} else if k == "set" {
					bad = in[:1]
				}
			} else {
				bad = append(append(bad, in...), in[0])
			}
			var rel plan.Rel
			c.NoPanic("count_panic:"+k, func() { rel, err = s.rel.Copy(bad...) })
			c.Check(err != nil, "count:"+k, "%d inputs instead of %d give %v", len(bad), n, rel)
			c.NoPanic("count_panic_rewrite:"+k, func() {
				rel, err = s.rel.CopyWithExpressionRewrite(func(e expr.Expression) (expr.Expression, error) { return e, nil }, bad...)
			})
			c.Check(err != nil, "count_rewrite:"+k, "%d inputs instead of %d give %v", len(bad), n, rel)
		}
	})

	p.sub("rewrite", 5000, func(c *C) {
		s := make(c)
		k := s.r.K
		cols := s.r.exprCols()
		base := (&ECols{T: cols}).record()
		to := map[string]*EX{}
		x := RCtx{msg: true, edepth: 1, noSub: rapid.Bool().Draw(c.T, "nosub2")}
		if k == "virtual" {
			x.noSub = true
		}
		n := 0
		repl := func(e *EX, gen func() *EX) *EX {
			key := msgKey(e.proto(s.w))
			if to[key] == nil {
				to[key] = e
				if pct(c.T, 50) {
					to[key] = gen()
				}
			}
			if msgKey(to[key].proto(s.w)) != key {
				n++
			}
			return to[key]
		}
		m := s.r.withExprs(func(e *EX) *EX {
			return repl(e, func() *EX {
				if k == "virtual" {
					return genEX(c.T, ECtx{cols: &ECols{Frozen: true}, msg: true, noSub: true, noLam: true, noWin: true}, e.T, 1)
				}
				return x.ex(c.T, cols, e.T)
			})
		}, func(e *EX, side int) *EX {
			return repl(e, func() *EX { return genKey(c.T, s.r.In[side].cols()) })
		})
		in := s.rel.GetInputs()
		if rapid.Bool().Draw(c.T, "other inputs") {
			var o *RM
			in, o = others(c, s)
			m.In = o.In
		}
		c.Case(n > 0, "%s to %s", s.r, m)
		back := map[string]expr.Expression{}
		for key, e := range to {
			if msgKey(e.proto(s.w)) == key {
				continue
			}
			schema := base
			if k == "virtual" {
				schema = nil
			}
			var lib expr.Expression
			var err error
			if len(s.r.Keys) > 0 && e.K == "ref" {
				// a key of one of the sides
				for side := 0; side < 2 && lib == nil; side++ {
					lib, err = expr.ExprFromProto(e.proto(s.w), (&ECols{T: s.r.In[side].cols()}).record(), s.reg)
					if err != nil || !tdOf(lib.GetType()).equal(e.T) {
						lib = nil
					}
				}
				if lib == nil {
					lib, err = expr.ExprFromProto(e.proto(s.w), schema, s.reg)
				}
			} else {
				lib, err = expr.ExprFromProto(e.proto(s.w), schema, s.reg)
			}
			c.Check(err == nil, "replacement", "%s: %v", e, err)
			back[key] = lib
		}
		calls := 0
		f := func(e expr.Expression) (expr.Expression, error) {
			calls++
			if e == nil {
				return nil, nil
			}
			if b, ok := back[msgKey(e.ToProto())]; ok {
				return b, nil
			}
			return e, nil
		}
		got, err := s.rel.CopyWithExpressionRewrite(f, in...)
		c.Check(err == nil, "rewrite_err:"+k, "%v", err)
		same(c, s, got, m, "rewrite")
		sharing(c, got, in, "rewrite:"+k)
		unchanged(c, s, "rewritten")
		if got != s.rel {
			scribble(c, s, got)
		}

		// nothing changed
		id, err := s.rel.CopyWithExpressionRewrite(func(e expr.Expression) (expr.Expression, error) { return e, nil }, s.rel.GetInputs()...)
		c.Check(err == nil, "identity_err:"+k, "%v", err)
		same(c, s, id, s.r, "identity")

		// an error
		if calls > 0 {
			at, i := rapid.IntRange(0, calls-1).Draw(c.T, "fail at"), 0
			boom := fmt.Errorf("boom")
			var rel plan.Rel
			c.NoPanic("error_panic:"+k, func() {
				rel, err = s.rel.CopyWithExpressionRewrite(func(e expr.Expression) (expr.Expression, error) {
					if i++; i-1 == at {
						return nil, boom
					}
					return f(e)
				}, in...)
			})
			c.Check(errors.Is(err, boom), "error_lost:"+k, "failing at call %d of %d gives %v, %v", at, calls, rel, err)
			unchanged(c, s, "after_error")
		}
	})
}
