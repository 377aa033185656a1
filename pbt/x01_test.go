package pbt

import (
	"fmt"
	"sort"
	"strings"
	"sync"
	"testing"

	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/extensions"
	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	pbext "github.com/substrait-io/substrait-protobuf/go/substraitpb/extensions"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"
)

// xid is an identifier of any kind: f function, t type, v type variation.
type xid struct{ kind, urn, name string }

var xURNs = []string{"extension:verif:a", "extension:verif:b", "extension:verif:c", "extension:verif:d"}
var xFuncs = []string{"add:i32_i32", "sub:i32_i32", "add:i64_i64", "abs:i8", "neg", "Add:i32_i32", "add:i32_i32 ", "add"}
var xTypes = []string{"point", "line", "add:i32_i32", "T", "Point"}
var xVars = []string{"dict4", "big", "point", "T", "DICT4"}

const xLib = `%%YAML 1.2
---
urn: %s
types: [{name: point}, {name: line}]
type_variations: [{parent: string, name: dict4, functions: INHERITS}, {parent: string, name: big, functions: SEPARATE}]
scalar_functions:
  - name: add
    impls:
      - {args: [{value: i32}, {value: i32}], return: i32}
      - {args: [{value: i64}, {value: i64}], return: i64}
aggregate_functions:
  - name: sub
    impls: [{args: [{value: i32}, {value: i32}], return: i32}]
window_functions:
  - name: abs
    impls: [{args: [{value: i8}], return: i8, window_type: PARTITION}]
`

var xCollection = sync.OnceValue(func() *extensions.Collection {
	c := &extensions.Collection{}
	for _, u := range xURNs {
		if err := c.Load(strings.NewReader(fmt.Sprintf(xLib, u))); err != nil {
			panic(err)
		}
	}
	return c
})

// xmodel is the reference: which anchors denote what.
type xmodel struct {
	ids    map[string]map[uint32]xid // kind -> anchor -> id
	anchor map[xid]uint32            // first anchor of an id
	urns   map[uint32]string         // declared at load
}

func newXModel() *xmodel {
	return &xmodel{ids: map[string]map[uint32]xid{"f": {}, "t": {}, "v": {}}, anchor: map[xid]uint32{}, urns: map[uint32]string{}}
}

func genXID(t *rapid.T) xid {
	k := rapid.SampledFrom([]string{"f", "t", "v"}).Draw(t, "kind")
	names := map[string][]string{"f": xFuncs, "t": xTypes, "v": xVars}[k]
	return xid{k, rapid.SampledFrom(xURNs).Draw(t, "urn"), rapid.SampledFrom(names).Draw(t, "name")}
}

var xAnchor = rapid.OneOf(rapid.Uint32Range(0, 8), rapid.SampledFrom([]uint32{0, 4294967295, 4294967294, 100, 65536}))

func xGet(s extensions.Set, id xid) uint32 {
	switch id.kind {
	case "f":
		return s.GetFuncAnchor(extensions.FunctionID{URN: id.urn, Name: id.name})
	case "t":
		return s.GetTypeAnchor(extensions.TypeID{URN: id.urn, Name: id.name})
	}
	return s.GetTypeVariationAnchor(extensions.TypeVariationID{URN: id.urn, Name: id.name})
}

func xDecode(s extensions.Set, kind string, a uint32) (xid, bool) {
	switch kind {
	case "f":
		id, ok := s.DecodeFunc(a)
		return xid{"f", id.URN, id.Name}, ok
	case "t":
		id, ok := s.DecodeType(a)
		return xid{"t", id.URN, id.Name}, ok
	}
	id, ok := s.DecodeTypeVariation(a)
	return xid{"v", id.URN, id.Name}, ok
}

func xDecl(kind string, urnRef, a uint32, name string) *pbext.SimpleExtensionDeclaration {
	d := &pbext.SimpleExtensionDeclaration{}
	switch kind {
	case "f":
		d.MappingType = &pbext.SimpleExtensionDeclaration_ExtensionFunction_{ExtensionFunction: &pbext.SimpleExtensionDeclaration_ExtensionFunction{ExtensionUrnReference: urnRef, FunctionAnchor: a, Name: name}}
	case "t":
		d.MappingType = &pbext.SimpleExtensionDeclaration_ExtensionType_{ExtensionType: &pbext.SimpleExtensionDeclaration_ExtensionType{ExtensionUrnReference: urnRef, TypeAnchor: a, Name: name}}
	case "v":
		d.MappingType = &pbext.SimpleExtensionDeclaration_ExtensionTypeVariation_{ExtensionTypeVariation: &pbext.SimpleExtensionDeclaration_ExtensionTypeVariation{ExtensionUrnReference: urnRef, TypeVariationAnchor: a, Name: name}}
	}
	return d
}

// xRead reads a declaration back.
func xRead(d *pbext.SimpleExtensionDeclaration) (kind string, urnRef, a uint32, name string) {
	switch e := d.MappingType.(type) {
	case *pbext.SimpleExtensionDeclaration_ExtensionFunction_:
		return "f", e.ExtensionFunction.ExtensionUrnReference, e.ExtensionFunction.FunctionAnchor, e.ExtensionFunction.Name
	case *pbext.SimpleExtensionDeclaration_ExtensionType_:
		return "t", e.ExtensionType.ExtensionUrnReference, e.ExtensionType.TypeAnchor, e.ExtensionType.Name
	case *pbext.SimpleExtensionDeclaration_ExtensionTypeVariation_:
		return "v", e.ExtensionTypeVariation.ExtensionUrnReference, e.ExtensionTypeVariation.TypeVariationAnchor, e.ExtensionTypeVariation.Name
	}
	return "?", 0, 0, ""
}

// genXPlan makes the extension part of a plan. bad says why it must be refused, if it must.
func genXPlan(t *rapid.T, m *xmodel) (p *pb.Plan, bad string) {
	p = &pb.Plan{}
	nu := rapid.IntRange(0, 4).Draw(t, "nurn")
	var anchors []uint32
	for i := 0; i < nu; i++ {
		a, u := xAnchor.Draw(t, "ua"), rapid.SampledFrom(xURNs).Draw(t, "urn")
		if rapid.IntRange(0, 19).Draw(t, "unknown") == 19 {
			u = "extension:verif:unloaded"
		}
		if old, ok := m.urns[a]; ok && old != u {
			if rapid.IntRange(0, 3).Draw(t, "clash") > 0 {
				continue
			}
			bad = "one URN anchor for two URNs"
		}
		m.urns[a] = u
		anchors = append(anchors, a)
		p.ExtensionUrns = append(p.ExtensionUrns, &pbext.SimpleExtensionURN{ExtensionUrnAnchor: a, Urn: u})
	}
	nd := rapid.IntRange(0, 6).Draw(t, "ndecl")
	for i := 0; i < nd; i++ {
		var ref uint32
		if len(anchors) > 0 {
			ref = rapid.SampledFrom(anchors).Draw(t, "ref")
		}
		if rapid.IntRange(0, 29).Draw(t, "badref") == 29 {
			ref = 77
		}
		u, ok := m.urns[ref]
		why := ""
		if !ok {
			if len(anchors) == 0 && rapid.IntRange(0, 3).Draw(t, "skip") > 0 {
				continue
			}
			why = "undeclared URN reference"
		} else if u == "extension:verif:unloaded" {
			why = "URN not loaded"
		}
		id := genXID(t)
		id.urn = u
		a := xAnchor.Draw(t, "anchor")
		if old, ok := m.ids[id.kind][a]; ok && old != id {
			if rapid.IntRange(0, 3).Draw(t, "clash") > 0 {
				continue
			}
			why = "one anchor for two identifiers"
		}
		if why != "" {
			bad = why
		}
		m.ids[id.kind][a] = id
		if _, ok := m.anchor[id]; !ok {
			m.anchor[id] = a
		}
		p.Extensions = append(p.Extensions, xDecl(id.kind, ref, a, id.name))
	}
	return p, bad
}

func (m *xmodel) check(c *C, s extensions.Set, where string) {
	for k, as := range m.ids {
		for a, id := range as {
			got, ok := xDecode(s, k, a)
			c.Check(ok && got == id, "decode", "%s: anchor %d denotes %v (%v), want %v", where, a, got, ok, id)
		}
	}
	for id, a := range m.anchor {
		got, ok := xDecode(s, id.kind, a)
		c.Check(ok && got == id, "decode_first", "%s: %v is not found under %d", where, id, a)
	}
}

// checkProto checks a serialised set against the model.
func (m *xmodel) checkProto(c *C, urns []*pbext.SimpleExtensionURN, decls []*pbext.SimpleExtensionDeclaration) {
	byAnchor := map[uint32]string{}
	for _, u := range urns {
		_, dup := byAnchor[u.ExtensionUrnAnchor]
		c.Check(!dup, "urn_twice", "URN anchor %d is declared twice", u.ExtensionUrnAnchor)
		byAnchor[u.ExtensionUrnAnchor] = u.Urn
	}
	for a, u := range m.urns {
		c.Check(byAnchor[a] == u, "urn_lost", "URN anchor %d is %q, was loaded as %q", a, byAnchor[a], u)
	}
	n := map[string]int{}
	for _, d := range decls {
		k, ref, a, name := xRead(d)
		id := xid{k, byAnchor[ref], name}
		want, ok := m.ids[k][a]
		c.Check(ok && want == id, "declaration", "declared %v as %d, want %v", id, a, want)
		n[k]++
	}
	for k, as := range m.ids {
		c.Check(n[k] == len(as), "declaration_count", "%d declarations of kind %s, want %d", n[k], k, len(as))
	}
}

func xProto(s extensions.Set, col *extensions.Collection) *pb.Plan {
	u, d := s.ToProto(col)
	return &pb.Plan{ExtensionUrns: u, Extensions: d}
}

func TestX01(t *testing.T) {
	p := start(t, "X01", "histories of get-anchor, decode, find, lookup, serialise and reload operations over 4 URNs and 3 kinds of identifiers, starting empty or from a plan whose anchors are sparse, "+
		"zero, maximal, repeated or contradictory, against a two-way map model; non-trivial = at least 3 operations that register or load something")
	defer p.finish()
	col := xCollection()

	p.sub("history", 5000, func(c *C) {
		m := newXModel()
		var s extensions.Set
		desc := "empty"
		regs := 0
		if rapid.IntRange(0, 3).Draw(c.T, "load") > 0 {
			pl, bad := genXPlan(c.T, m)
			desc = fmt.Sprint(pl)
			c.Case(len(pl.Extensions) > 1, "load %s", desc)
			var err error
			c.NoPanic("GetExtensionSet", func() { s, err = extensions.GetExtensionSet(pl, col) })
			if bad != "" {
				c.Label("refused:" + bad)
				c.Check(err != nil, "accepts:"+bad, "loads although %s", bad)
				return
			}
			c.Check(err == nil, "load_error", "does not load: %v", err)
			regs = len(pl.Extensions)
		} else {
			s = extensions.NewSet()
		}
		var ops []string
		show := func(f string, a ...any) {
			ops = append(ops, fmt.Sprintf(f, a...))
			c.desc = desc + " then " + strings.Join(ops, "; ")
		}
		n := rapid.IntRange(0, 12).Draw(c.T, "nops")
		for i := 0; i < n; i++ {
			switch op := rapid.SampledFrom([]string{"get", "get", "get", "get", "decode", "find", "lookup", "proto", "reload", "bulk"}).Draw(c.T, "op"); op {
			case "bulk": // enough declarations for the order of sorting to matter
				if rapid.IntRange(0, 3).Draw(c.T, "skip") > 0 {
					ops = append(ops, "nothing")
					continue
				}
				k := rapid.IntRange(13, 40).Draw(c.T, "many")
				show("register %d of each kind", k)
				for i := 0; i < 3*k; i++ {
					id := xid{[]string{"f", "t", "v"}[i%3], xURNs[i%len(xURNs)], fmt.Sprintf("bulk%02d:i8", i*7%101)}
					a := xGet(s, id)
					if old, ok := m.anchor[id]; ok {
						c.Check(a == old, "anchor_moved", "anchor of %v is %d, was %d", id, a, old)
						continue
					}
					prev, taken := m.ids[id.kind][a]
					c.Check(!taken && a != 0, "anchor_collision", "anchor %d given to %v already denotes %v", a, id, prev)
					m.ids[id.kind][a] = id
					m.anchor[id] = a
				}
				regs += k
			case "get":
				id := genXID(c.T)
				show("anchor of %v", id)
				var a uint32
				c.NoPanic("GetAnchor", func() { a = xGet(s, id) })
				show("= %d", a)
				if old, ok := m.anchor[id]; ok {
					c.Check(a == old, "anchor_moved", "anchor of %v is %d, was %d", id, a, old)
				} else {
					prev, taken := m.ids[id.kind][a]
					c.Check(!taken, "anchor_collision", "anchor %d given to %v already denotes %v", a, id, prev)
					c.Check(a != 0, "anchor_zero", "%v is given anchor 0", id)
					m.ids[id.kind][a] = id
					m.anchor[id] = a
					regs++
				}
			case "decode":
				k, a := rapid.SampledFrom([]string{"f", "t", "v"}).Draw(c.T, "k"), xAnchor.Draw(c.T, "a")
				show("decode %s %d", k, a)
				want, known := m.ids[k][a]
				got, ok := xDecode(s, k, a)
				c.Check(ok == known && (!ok || got == want), "decode", "anchor %d decodes to %v (%v), want %v (%v)", a, got, ok, want, known)
			case "find":
				u := rapid.SampledFrom(append([]string{"extension:verif:none"}, xURNs...)).Draw(c.T, "u")
				show("find %s", u)
				a, ok := s.FindURN(u)
				want := false
				for id := range m.anchor {
					want = want || id.urn == u
				}
				for _, x := range m.urns {
					want = want || x == u
				}
				c.Check(ok == want, "find_urn", "FindURN(%s) is %d, %v", u, a, ok)
				if ok {
					b, _ := s.FindURN(u)
					c.Check(a == b, "find_urn_again", "FindURN(%s) is %d, then %d", u, a, b)
					found := false
					for _, x := range xProto(s, col).ExtensionUrns {
						found = found || x.ExtensionUrnAnchor == a && x.Urn == u
					}
					c.Check(found, "find_urn_anchor", "FindURN(%s) is %d, which is not declared so", u, a)
				}
			case "lookup":
				k, a := rapid.SampledFrom([]string{"f", "t", "v"}).Draw(c.T, "k"), xAnchor.Draw(c.T, "a")
				if len(m.ids[k]) > 0 && rapid.Bool().Draw(c.T, "known") {
					var as []uint32
					for x := range m.ids[k] {
						as = append(as, x)
					}
					sort.Slice(as, func(i, j int) bool { return as[i] < as[j] })
					a = rapid.SampledFrom(as).Draw(c.T, "ka")
				}
				show("lookup %s %d", k, a)
				id := m.ids[k][a]
				in := func(l ...string) bool { return id.kind != "" && contains(l, id.name) }
				er := expr.NewExtensionRegistry(s, col)
				switch k {
				case "f":
					sf, ok := s.LookupScalarFunction(a, col)
					c.Check(ok == in("add:i32_i32", "add:i64_i64") && (!ok || sf.URN() == id.urn && sf.CompoundName() == id.name), "lookup_scalar", "scalar lookup of %d (%v) gives %v %v", a, id, sf, ok)
					af, ok := s.LookupAggregateFunction(a, col)
					c.Check(ok == in("sub:i32_i32") && (!ok || af.URN() == id.urn && af.CompoundName() == id.name), "lookup_aggregate", "aggregate lookup of %d (%v) gives %v %v", a, id, af, ok)
					wf, ok := s.LookupWindowFunction(a, col)
					c.Check(ok == in("sub:i32_i32", "abs:i8") && (!ok || wf.URN() == id.urn && wf.CompoundName() == id.name), "lookup_window", "window lookup of %d (%v) gives %v %v", a, id, wf, ok)
				case "t":
					ty, ok := s.LookupType(a, col)
					c.Check(ok == in("point", "line") && (!ok || ty.Name == id.name), "lookup_type", "type lookup of %d (%v) gives %v %v", a, id, ty, ok)
					ry, rok := er.LookupType(a)
					c.Check(rok == ok && ry.Name == ty.Name, "registry_type", "the registry gives %v %v for %d (%v)", ry, rok, a, id)
				case "v":
					tv, ok := s.LookupTypeVariation(a, col)
					c.Check(ok == in("dict4", "big") && (!ok || tv.Name == id.name), "lookup_variation", "variation lookup of %d (%v) gives %v %v", a, id, tv, ok)
					rv, rok := er.LookupTypeVariation(a)
					c.Check(rok == ok && rv == tv, "registry_variation", "the registry gives %v %v for %d (%v)", rv, rok, a, id)
				}
			case "proto":
				show("serialise")
				pl := xProto(s, col)
				m.checkProto(c, pl.ExtensionUrns, pl.Extensions)
			case "reload":
				show("reload")
				pl := xProto(s, col)
				b, err := proto.Marshal(pl)
				c.Check(err == nil, "marshal", "%v", err)
				pl2 := &pb.Plan{}
				c.Check(proto.Unmarshal(b, pl2) == nil, "unmarshal", "serialised set does not parse")
				s, err = extensions.GetExtensionSet(pl2, col)
				c.Check(err == nil, "reload_error", "the serialised set does not load: %v", err)
				for k := range m.ids { // the first anchor of an identifier is now its first in the plan
					for a, id := range m.ids[k] {
						if got := xGet(s, id); got != m.anchor[id] {
							c.Check(m.ids[k][got] == id, "reload_anchor", "anchor of %v after reload is %d, loaded %d", id, got, a)
							m.anchor[id] = got
						}
					}
				}
			}
			m.check(c, s, "after "+ops[len(ops)-1])
		}
		c.Case(regs >= 3, "%s", c.desc)
		first := xProto(s, col)
		m.checkProto(c, first.ExtensionUrns, first.Extensions)
		for i := 0; i < 4; i++ {
			c.Check(proto.Equal(first, xProto(s, col)), "order", "serialising again gives another order:\n%v\n%v", first, xProto(s, col))
		}
		if len(first.Extensions) > 1 {
			c.Label("serialised")
		}
		again, err := extensions.GetExtensionSet(first, col)
		c.Check(err == nil, "reload_error", "the serialised set does not load: %v", err)
		c.Check(proto.Equal(first, xProto(again, col)), "reload_proto", "a reloaded set serialises differently:\n%v\n%v", first, xProto(again, col))
		m.check(c, again, "reloaded")
	})
}
