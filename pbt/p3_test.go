package pbt

import (
	"fmt"
	"testing"

	"github.com/substrait-io/substrait-go/v8/plan"
	"pgregory.net/rapid"
)

// remapped is the model with the mapping put on top.
func (r *RM) remapped(m []int32) *RM {
	out := *r
	out.Mapped, out.Map = true, []int32{}
	for _, i := range m {
		if r.Mapped {
			i = r.Map[i]
		}
		out.Map = append(out.Map, i)
	}
	if len(out.Direct) > 0 && identity(out.Map, len(out.Direct)) {
		out.Mapped, out.Map = false, nil
	}
	return &out
}

// genRemap draws a mapping over n columns, and whether it is one.
func genRemap(t *rapid.T, n int) (m []int32, ok bool) {
	if !pct(t, 25) {
		return append([]int32{}, genMapping(t, n)...), true
	}
	m = append([]int32{}, genMapping(t, n)...)
	bad := rapid.SampledFrom([]int32{int32(n), -1, int32(n) + 5, 1 << 30, -1 << 31}).Draw(t, "bad")
	at := rapid.IntRange(0, len(m)).Draw(t, "at")
	return append(m[:at:at], append([]int32{bad}, m[at:]...)...), false
}

type p3entry struct {
	m   *RM
	rel plan.Rel
	msg string
}

func (e *p3entry) check(c *C, w *EWorld, sig string) {
	want := e.m.proto(w, true)
	c.Check(protoEq(e.rel.ToProto(), want), "message"+sig, "%s: written / wanted differ at %s", e.m, msgDiff(e.rel.ToProto().ProtoReflect(), want.ProtoReflect(), ""))
	e.m.checkSchemas(c, e.rel, sig)
}

func TestP03(t *testing.T) {
	p := start(t, "P03", "histories of up to 8 steps over a pool of relations that share inputs: make, remap with mappings with repeats, none, all, or indices outside, wrap in another "+
		"relation, write into slices given and returned; all relations of the pool are compared with their models at the end; and remapping of relations read from messages; "+
		"non-trivial = at least two remappings")
	defer p.finish()

	step := func(c *C, w *EWorld, e *p3entry) *p3entry {
		n := len(e.m.cols())
		m, ok := genRemap(c.T, n)
		arg := append([]int32{}, m...)
		var out plan.Rel
		var err error
		c.NoPanic("remap_panic:"+e.m.K, func() { out, err = e.rel.Remap(arg...) })
		if !ok {
			c.Check(err != nil, "bad_accepted:"+e.m.K, "mapping %v of %d columns is accepted", m, n)
			e.check(c, w, ":after_refusal:"+e.m.K)
			return nil
		}
		c.Check(err == nil, "refused:"+e.m.K, "mapping %v of %d columns is refused: %v", m, n, err)
		c.Check(out != e.rel, "same:"+e.m.K, "Remap returned the relation itself")
		ne := &p3entry{m: e.m.remapped(m), rel: out}
		ne.check(c, w, ":remapped:"+e.m.K)
		cols := e.m.cols()
		for i, x := range m {
			c.Check(ne.m.cols()[i].equal(cols[x]), "model", "model")
		}
		if rapid.Bool().Draw(c.T, "scribble") {
			for i := range arg {
				arg[i] = 99
			}
			om := out.OutputMapping()
			for i := range om {
				om[i] = 77
			}
			ne.check(c, w, ":slices:"+e.m.K)
		}
		e.check(c, w, ":source:"+e.m.K)
		return ne
	}

	p.sub("history", 2500, func(c *C) {
		rb := newRB(c)
		rb.memo = map[*RM]plan.Rel{}
		x := RCtx{edepth: 1, noSub: true}
		var pool []*p3entry
		add := func(m *RM) {
			rel, err := rb.build(m)
			c.Check(err == nil, "build:"+m.K, "%s: %v", m, err)
			pool = append(pool, &p3entry{m: m, rel: rel})
		}
		add(genRM(c.T, x, rapid.IntRange(0, 2).Draw(c.T, "depth")))
		remaps, log := 0, ""
		for i := rapid.IntRange(1, 8).Draw(c.T, "nsteps"); i > 0; i-- {
			e := pool[rapid.IntRange(0, len(pool)-1).Draw(c.T, "entry")]
			switch rapid.IntRange(0, 4).Draw(c.T, "op") {
			case 0:
				y := x
				y.input = func(t *rapid.T) *RM { return pool[rapid.IntRange(0, len(pool)-1).Draw(t, "input")].m }
				ks := append([]string{"write", "extsingle", "extmulti"}, relKinds...)
				m := genKind(c.T, y, ks[pick(c.T, len(ks))], 1)
				log += " wrap:" + m.K
				add(m)
			default:
				remaps++
				ne := step(c, rb.W, e)
				log += fmt.Sprintf(" remap:%s:%v", e.m.K, ne != nil)
				if ne != nil {
					rb.memo[ne.m] = ne.rel
					pool = append(pool, ne)
				}
			}
		}
		c.Case(remaps > 1, "%s:%s", pool[0].m, log)
		for _, e := range pool {
			c.Label(e.m.K)
			e.check(c, rb.W, ":end:"+e.m.K)
		}
	})

	p.sub("read", 3000, func(c *C) {
		w := genWorld(c.T)
		m := genRM(c.T, RCtx{msg: true, edepth: 1, write: true}, rapid.IntRange(0, 2).Draw(c.T, "depth"))
		c.Label(m.K)
		rel, err := plan.RelFromProto(wire(m.proto(w, false)), w.decReg(c))
		c.Check(err == nil, "refused_message:"+m.K, "%v", err)
		e := &p3entry{m: m, rel: rel}
		all := []*p3entry{e}
		for i := rapid.IntRange(1, 3).Draw(c.T, "nsteps"); i > 0; i-- {
			if ne := step(c, w, all[rapid.IntRange(0, len(all)-1).Draw(c.T, "entry")]); ne != nil {
				all = append(all, ne)
			}
		}
		c.Case(len(all) > 2, "%s", all[len(all)-1].m)
		for _, e := range all {
			e.check(c, w, ":end:"+e.m.K)
		}
	})
}
