package pbt

import (
	"fmt"
	"testing"

	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/plan"
	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	"pgregory.net/rapid"
)

func (w *EWorld) decReg(c *C) expr.ExtensionRegistry {
	reg := w.reg(c)
	if err := reg.SetExtensionRelDecoder(defURL, vdec{}); err != nil {
		c.Fail("decoder", "%v", err)
	}
	return reg
}

func (r *RM) top() string {
	if r.JT > 0 {
		return r.K + ":" + r.logicalJoin()
	}
	return r.K
}

// genPlanMsg draws a plan of relations.
type PM struct {
	W     *EWorld
	Rels  []*RM
	Root  []bool
	Names [][]string
	Bind  []*pb.DynamicParameterBinding
	Rest  *pb.Plan
}

func (p *PM) proto(canon bool) *pb.Plan {
	m := wire(p.Rest)
	m.ExtensionUrns, m.Extensions = p.W.URNs, p.W.Decls
	for i, r := range p.Rels {
		rel := r.proto(p.W, canon)
		if p.Root[i] {
			m.Relations = append(m.Relations, &pb.PlanRel{RelType: &pb.PlanRel_Root{Root: &pb.RelRoot{Input: rel, Names: p.Names[i]}}})
		} else {
			m.Relations = append(m.Relations, &pb.PlanRel{RelType: &pb.PlanRel_Rel{Rel: rel}})
		}
	}
	m.ParameterBindings = p.Bind
	return m
}

func genPM(t *rapid.T, x RCtx, depth int) *PM {
	p := &PM{W: genWorld(t), Rest: &pb.Plan{}}
	for i := rapid.IntRange(1, 3).Draw(t, "nrels"); i > 0; i-- {
		r := genRM(t, x, rapid.IntRange(0, depth).Draw(t, "depth"))
		p.Rels = append(p.Rels, r)
		p.Root = append(p.Root, i == 1 || rapid.Bool().Draw(t, "root"))
		p.Names = append(p.Names, genColNames(t, r.cols()))
	}
	if pct(t, 80) {
		p.Rest.Version = &pb.Version{MajorNumber: rapid.SampledFrom([]uint32{0, 1}).Draw(t, "major"), MinorNumber: rapid.SampledFrom([]uint32{0, 29, 85}).Draw(t, "minor"),
			PatchNumber: rapid.SampledFrom([]uint32{0, 3}).Draw(t, "patch"), GitHash: rapid.SampledFrom([]string{"", "0123456789abcdef0123456789abcdef01234567"}).Draw(t, "hash"),
			Producer: rapid.SampledFrom([]string{"", "me"}).Draw(t, "producer")}
	}
	p.Rest.AdvancedExtensions = genAdv(t, 30)
	if pct(t, 30) {
		p.Rest.ExpectedTypeUrls = rapid.SliceOfN(rapid.SampledFrom([]string{"a/b", "c/d", "a/b"}), 1, 3).Draw(t, "urls")
	}
	for i := rapid.IntRange(0, 3).Draw(t, "nbind") - 1; i > 0; i-- {
		d := genLitTD(t, typeGenOpts{depth: 1, noFunc: true, noUnspec: true, decimalOK: true, noEmpty: true})
		p.Bind = append(p.Bind, &pb.DynamicParameterBinding{ParameterAnchor: uint32(i * 7), Value: genLV(t, d).proto()})
	}
	return p
}

func (p *PM) String() string {
	s := ""
	for i, r := range p.Rels {
		s += fmt.Sprintf("root=%v %v %s\n", p.Root[i], p.Names[i], r)
	}
	return s + fmt.Sprintf("bindings %v", p.Bind)
}

// samePlan compares plan messages, the declarations as sets.
func samePlan(a, b *pb.Plan) bool {
	if declMap(a.ExtensionUrns, a.Extensions) != declMap(b.ExtensionUrns, b.Extensions) {
		return false
	}
	x, y := wire(a), wire(b)
	x.ExtensionUrns, x.Extensions, y.ExtensionUrns, y.Extensions = nil, nil, nil, nil
	return protoEq(x, y)
}

func planDiff(a, b *pb.Plan) string {
	x, y := declMap(a.ExtensionUrns, a.Extensions), declMap(b.ExtensionUrns, b.Extensions)
	if x != y {
		return fmt.Sprintf("declarations: %s / %s", x, y)
	}
	a, b = wire(a), wire(b)
	a.ExtensionUrns, a.Extensions, b.ExtensionUrns, b.Extensions = nil, nil, nil, nil
	return msgDiff(a.ProtoReflect(), b.ProtoReflect(), "")
}

func TestP01(t *testing.T) {
	p := start(t, "P01", "relation trees of every supported kind to depth 3, with expressions (functions, subqueries, lambdas, references) fitted to the inputs' schemas, emit "+
		"mappings, hints, extensions, filters, masks, deprecated and current forms; plans of several of them with names, version, bindings, type URLs and sparse extension anchors; "+
		"and plans built by the builder; non-trivial = at least 2 relations in the tree or 2 expressions")
	defer p.finish()

	p.sub("relations", 5000, func(c *C) {
		w := genWorld(c.T)
		r := genRM(c.T, RCtx{msg: true, edepth: 2, write: true}, rapid.IntRange(0, 3).Draw(c.T, "depth"))
		c.Case(r.size() > 1 || len(r.ownExprs()) > 1, "%s", r)
		r.label(c)
		k := r.top()
		in := r.proto(w, false)
		m := wire(in)
		reg := w.decReg(c)
		got, err := plan.RelFromProto(m, reg)
		c.Check(err == nil, "refused:"+k, "a well-formed relation is refused: %v", err)
		c.Check(protoEq(m, in), "message_changed:"+k, "parsing changed the message")
		want := r.proto(w, true)
		r.checkParts(c, got, w, "")
		out := got.ToProto()
		c.Check(protoEq(out, want), "reserialise:"+k, "writes\n%v\nwant\n%v", out, want)
		c.Check(protoEq(got.ToProtoPlanRel().GetRel(), want), "reserialise_plan_rel:"+k, "writes\n%v\nwant\n%v", got.ToProtoPlanRel(), want)
		again, err := plan.RelFromProto(wire(out), w.decReg(c))
		c.Check(err == nil, "refused_again:"+k, "its own message is refused: %v", err)
		c.Check(protoEq(again.ToProto(), want), "reserialise_again:"+k, "writes\n%v\nwant\n%v", again.ToProto(), want)
	})

	p.sub("plans", 2500, func(c *C) {
		pm := genPM(c.T, RCtx{msg: true, edepth: 1, write: true}, 2)
		c.Case(len(pm.Rels) > 1 || pm.Rels[0].size() > 1, "%s", pm)
		in := pm.proto(false)
		m := wire(in)
		got, err := plan.FromProtoWithDecoder(m, eCol(), map[string]expr.ExtensionRelDecoder{defURL: vdec{}})
		c.Check(err == nil, "refused_plan", "a well-formed plan is refused: %v", err)
		c.Check(protoEq(m, in), "plan_message_changed", "parsing changed the message")
		want := pm.proto(true)
		out, err := got.ToProto()
		c.Check(err == nil, "plan_to_proto", "%v", err)
		c.Check(samePlan(out, want), "plan_reserialise", "written / wanted differ at %s", planDiff(out, want))
		again, err := plan.FromProtoWithDecoder(wire(out), eCol(), map[string]expr.ExtensionRelDecoder{defURL: vdec{}})
		c.Check(err == nil, "refused_plan_again", "its own message is refused: %v", err)
		out2, err := again.ToProto()
		c.Check(err == nil && samePlan(out2, want), "plan_reserialise_again", "%v, written / wanted differ at %s", err, planDiff(out2, want))

		// what the plan says of itself
		v := pm.Rest.Version
		gv := got.Version()
		c.Check(gv.GetMajorNumber() == v.GetMajorNumber() && gv.GetMinorNumber() == v.GetMinorNumber() && gv.GetPatchNumber() == v.GetPatchNumber() &&
			gv.GetGitHash() == v.GetGitHash() && gv.GetProducer() == v.GetProducer(), "version", "version %v, want %v", gv, v)
		c.Check(fmt.Sprint(got.ExpectedTypeURLs()) == fmt.Sprint(pm.Rest.ExpectedTypeUrls), "urls", "%v", got.ExpectedTypeURLs())
		c.Check(len(got.ParameterBindings()) == len(pm.Bind), "bindings", "%v", got.ParameterBindings())
		for i, b := range got.ParameterBindings() {
			c.Check(b.ParameterAnchor == pm.Bind[i].ParameterAnchor && protoEq(b.Value.ToProtoLiteral(), pm.Bind[i].Value), "bindings", "%v, want %v", b, pm.Bind[i])
		}
		rels := got.Relations()
		c.Check(len(rels) == len(pm.Rels), "nrelations", "%d relations, want %d", len(rels), len(pm.Rels))
		nr, no := 0, 0
		for i := range rels {
			c.Check(rels[i].IsRoot() == pm.Root[i], "is_root", "relation %d", i)
			if pm.Root[i] {
				root := got.GetRoots()[nr]
				nr++
				c.Check(rels[i].Root() == root && fmt.Sprint(root.Names()) == fmt.Sprint(pm.Names[i]), "root", "relation %d: names %v, want %v", i, root.Names(), pm.Names[i])
				rt := root.RecordType()
				e := schemaErr(root.Input().RecordType(), pm.Rels[i].cols())
				c.Check(e == "", "root_schema", "%s", e)
				c.Check(fmt.Sprint(rt.Names) == fmt.Sprint(pm.Names[i]) && protoEq(rt.ToProto().GetStruct(), (&ECols{T: pm.Rels[i].cols()}).td().proto().GetStruct()), "root_record_type",
					"%v, want %v %v", &rt, pm.Names[i], pm.Rels[i].cols())
			} else {
				c.Check(rels[i].Rel() == got.GetNonRootRelations()[no], "nonroot", "relation %d", i)
				no++
			}
		}
		c.Check(nr == len(got.GetRoots()) && no == len(got.GetNonRootRelations()), "roots", "%d %d", nr, no)
	})

	p.sub("built", 3000, func(c *C) {
		r := genRM(c.T, RCtx{edepth: 2, write: true}, rapid.IntRange(0, 3).Draw(c.T, "depth"))
		c.Case(r.size() > 1 || len(r.ownExprs()) > 1, "%s", r)
		r.label(c)
		k := r.top()
		rb := newRB(c)
		rel, err := rb.build(r)
		c.Check(err == nil, "build:"+k, "a well-formed relation is refused: %v", err)
		want := r.proto(rb.W, true)
		r.checkParts(c, rel, rb.W, ":built")
		c.Check(protoEq(rel.ToProto(), want), "built:"+k, "written / wanted differ at %s", msgDiff(rel.ToProto().ProtoReflect(), want.ProtoReflect(), ""))
		names := genColNames(c.T, r.cols())
		pl, err := rb.B.Plan(rel, names)
		c.Check(err == nil, "plan:"+k, "%v", err)
		out, err := pl.ToProto()
		c.Check(err == nil, "plan_to_proto:"+k, "%v", err)
		back, err := plan.FromProtoWithDecoder(wire(out), eCol(), map[string]expr.ExtensionRelDecoder{defURL: vdec{}})
		c.Check(err == nil, "built_refused:"+k, "a built plan is refused when read: %v", err)
		c.Check(protoEq(back.GetRoots()[0].Input().ToProto(), want), "built_read:"+k, "read relation writes\n%v\nwant\n%v", back.GetRoots()[0].Input().ToProto(), want)
		c.Check(fmt.Sprint(back.GetRoots()[0].Names()) == fmt.Sprint(names), "built_names", "%v, want %v", back.GetRoots()[0].Names(), names)
		out2, err := back.ToProto()
		c.Check(err == nil && samePlan(out2, out), "built_plan_read", "%v: %s", err, planDiff(out2, out))
	})

	p.sub("nothing_dropped", 6000, func(c *C) {
		pm := genPM(c.T, RCtx{msg: true, edepth: 1, write: true}, 2)
		in := pm.proto(false)
		what := mutate(c.T, in)
		m := wire(in)
		var got *plan.Plan
		var err error
		c.NoPanic("read_panic", func() {
			got, err = plan.FromProtoWithDecoder(m, eCol(), map[string]expr.ExtensionRelDecoder{defURL: vdec{}})
		})
		c.Case(err == nil, "%s in %s", what, pm)
		if err != nil {
			c.Label("refused")
			return
		}
		c.Label("accepted")
		var out *pb.Plan
		c.NoPanic("write_panic", func() { out, err = got.ToProto() })
		c.Check(err == nil, "plan_to_proto", "%v", err)
		want := wire(m)
		normal(want)
		c.Check(samePlan(out, want), "not_kept:"+what, "%s: written / read differ at %s", what, planDiff(out, want))
	})
}
