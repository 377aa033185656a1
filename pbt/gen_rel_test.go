package pbt

// RM is an independent model of a relation: its kind, inputs, settings, and the schema it has by the
// specification. From an RM the checks make the protobuf message and, for the kinds the builder has,
// the relation built by it.

import (
	"fmt"
	"strings"

	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/plan"
	"github.com/substrait-io/substrait-go/v8/types"
	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	pbext "github.com/substrait-io/substrait-protobuf/go/substraitpb/extensions"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/wrapperspb"
	"pgregory.net/rapid"
)

type RKey struct {
	L, R   *EX
	Simple int32
	Custom uint32 // when Simple is 0
}

type RMeas struct {
	Agg, Filter *EX
}

type RM struct {
	K  string
	In []*RM

	Mapped    bool
	Map       []int32
	Hint      *pb.RelCommon_Hint
	CAdv, Adv *pbext.AdvancedExtension
	NoCommon  bool // the message leaves the common part, or the kind of emit, out

	Direct []*TD // the schema before the mapping

	// reads and writes
	Names         []string
	Base          *ECols
	BaseNames     []string
	Filter, Best  *EX
	Mask          *EMask
	TAdv          *pbext.AdvancedExtension
	Rows          [][]*EX
	LitRows       bool
	Files         []*pb.ReadRel_LocalFiles_FileOrFiles
	Detail        *anypb.Any
	Decoded       bool
	URI, SnapK    string
	SnapID        string
	SnapTS        int64
	Op, OutMode   int32
	CreateMode    int32
	Cond, Post    *EX
	Exprs         []*EX
	Dirs          []int32
	Off, Cnt      int64
	JT, BuildSide int32
	Keys          []RKey
	LegacyKeys    bool
	Groups        [][]uint32
	LegacyGroups  bool
	Measures      []RMeas
}

// RCtx says what to draw.
type RCtx struct {
	msg    bool // only has to be expressible as a message (not by the builder)
	noExt  bool // no undecoded extension relations
	noSub  bool
	edepth int
	write  bool                 // allow a write at the top
	input  func(t *rapid.T) *RM // gives the inputs, if set
}

func (r *RM) cols() []*TD {
	if !r.Mapped {
		return r.Direct
	}
	out := make([]*TD, len(r.Map))
	for i, m := range r.Map {
		out[i] = r.Direct[m]
	}
	return out
}

func cat(a ...[]*TD) (out []*TD) {
	for _, x := range a {
		for _, d := range x {
			out = append(out, d.clone())
		}
	}
	return out
}

func nullable(a []*TD) (out []*TD) {
	for _, d := range a {
		out = append(out, d.withNull(1))
	}
	return out
}

func frozen(cols []*TD) *ECols { return &ECols{T: cat(cols), Frozen: true} }

// logicalJoin gives the specification's name of a join type of the relation kind.
func (r *RM) logicalJoin() string {
	names := []string{"", "inner", "outer", "left", "right", "lsemi", "lanti", "lsingle", "rsemi", "ranti", "rsingle", "lmark", "rmark"}
	if r.K != "join" {
		names = []string{"", "inner", "outer", "left", "right", "lsemi", "rsemi", "lanti", "ranti", "lsingle", "rsingle", "lmark", "rmark"}
	}
	return names[r.JT]
}

func joinSchema(k string, l, r []*TD) []*TD {
	switch k {
	case "inner":
		return cat(l, r)
	case "outer":
		return cat(nullable(l), nullable(r))
	case "left", "lsingle":
		return cat(l, nullable(r))
	case "right", "rsingle":
		return cat(nullable(l), r)
	case "lsemi", "lanti":
		return cat(l)
	case "rsemi", "ranti":
		return cat(r)
	case "lmark":
		return cat(l, []*TD{boolTD(1)})
	case "rmark":
		return cat(r, []*TD{boolTD(1)})
	}
	panic(k)
}

// direct computes the schema the specification gives before the emit mapping.
func (r *RM) direct() []*TD {
	switch r.K {
	case "named", "virtual", "files", "ext", "iceberg":
		return cat(r.Base.T)
	case "filter", "fetch", "sort", "set":
		return cat(r.In[0].cols())
	case "project":
		out := cat(r.In[0].cols())
		for _, e := range r.Exprs {
			out = append(out, e.T.clone())
		}
		return out
	case "cross":
		return cat(r.In[0].cols(), r.In[1].cols())
	case "join", "hash", "merge":
		return joinSchema(r.logicalJoin(), r.In[0].cols(), r.In[1].cols())
	case "agg":
		var out []*TD
		var order []uint32
		count := map[uint32]int{}
		for _, g := range r.Groups {
			seen := map[uint32]bool{}
			for _, x := range g {
				if count[x] == 0 && !seen[x] {
					order = append(order, x)
				}
				seen[x] = true
			}
			for x := range seen {
				count[x]++
			}
		}
		for _, x := range order {
			d := r.Exprs[x].T.clone()
			if count[x] < len(r.Groups) {
				d = d.withNull(1)
			}
			out = append(out, d)
		}
		for _, m := range r.Measures {
			out = append(out, m.Agg.T.clone())
		}
		if len(r.Groups) > 1 {
			out = append(out, &TD{Kind: "i32", Null: 2})
		}
		return out
	case "extsingle", "extmulti", "extleaf":
		if r.Decoded {
			return cat(r.Base.T)
		}
		if len(r.In) == 1 {
			return cat(r.In[0].cols())
		}
		return nil
	case "write":
		if r.OutMode == 2 || r.OutMode == 0 && r.Op == 4 {
			return cat(r.Base.T)
		}
		return nil
	}
	panic(r.K)
}

func genAny(t *rapid.T) *anypb.Any {
	a, err := anypb.New(wrapperspb.String(rapid.SampledFrom([]string{"", "x", "yy"}).Draw(t, "any")))
	if err != nil {
		panic(err)
	}
	return a
}

func genAdv(t *rapid.T, n int) *pbext.AdvancedExtension {
	if !pct(t, n) {
		return nil
	}
	a := &pbext.AdvancedExtension{}
	for i := rapid.IntRange(0, 2).Draw(t, "nopt"); i > 0; i-- {
		a.Optimization = append(a.Optimization, genAny(t))
	}
	if rapid.Bool().Draw(t, "enh") {
		a.Enhancement = genAny(t)
	}
	return a
}

func genHint(t *rapid.T) *pb.RelCommon_Hint {
	if !pct(t, 15) {
		return nil
	}
	h := &pb.RelCommon_Hint{}
	if rapid.Bool().Draw(t, "stats") {
		h.Stats = &pb.RelCommon_Hint_Stats{RowCount: rapid.SampledFrom([]float64{0, 1, 1e9}).Draw(t, "rows"), RecordSize: 8, AdvancedExtension: genAdv(t, 30)}
	}
	if rapid.Bool().Draw(t, "constraint") {
		h.Constraint = &pb.RelCommon_Hint_RuntimeConstraint{AdvancedExtension: genAdv(t, 50)}
	}
	if rapid.Bool().Draw(t, "alias") {
		h.Alias = "al"
		h.OutputNames = []string{"a", "", "b"}
	}
	if rapid.Bool().Draw(t, "comp") {
		h.SavedComputations = []*pb.RelCommon_Hint_SavedComputation{{ComputationId: 3, Type: 1}}
		h.LoadedComputations = []*pb.RelCommon_Hint_LoadedComputation{{ComputationIdReference: 3, Type: 1}}
	}
	h.AdvancedExtension = genAdv(t, 20)
	return h
}

func genMapping(t *rapid.T, n int) []int32 {
	if n == 0 || pct(t, 8) {
		return nil
	}
	if pct(t, 15) { // everything, in order or not
		out := make([]int32, n)
		for i := range out {
			out[i] = int32(i)
		}
		if rapid.Bool().Draw(t, "permuted") {
			out = rapid.Permutation(out).Draw(t, "perm")
		}
		return out
	}
	return rapid.SliceOfN(rapid.Int32Range(0, int32(n-1)), 1, n+2).Draw(t, "mapping")
}

// common draws what all relations have, and settles the schema.
func (r *RM) common(t *rapid.T, x RCtx) *RM {
	r.Direct = r.direct()
	if pct(t, 35) {
		r.Mapped, r.Map = true, genMapping(t, len(r.Direct))
	}
	if x.msg {
		r.Hint, r.CAdv, r.Adv = genHint(t), genAdv(t, 10), genAdv(t, 15)
		if strings.HasPrefix(r.K, "ext") && r.K != "ext" {
			r.Adv = nil
		}
		r.NoCommon = pct(t, 10)
	}
	return r
}

func (x RCtx) ex(t *rapid.T, cols []*TD, d *TD) *EX {
	return genEX(t, ECtx{cols: frozen(cols), msg: x.msg, noSub: x.noSub, noWin: false}, d, rapid.IntRange(0, x.edepth).Draw(t, "edepth"))
}

func (x RCtx) cond(t *rapid.T, cols []*TD) *EX {
	return x.ex(t, cols, boolTD(1+rapid.IntRange(0, 1).Draw(t, "null")))
}

func (x RCtx) agg(t *rapid.T, cols []*TD) *EX {
	return genAgg(t, ECtx{cols: frozen(cols), msg: x.msg, noSub: x.noSub, noWin: true}, rapid.IntRange(0, x.edepth).Draw(t, "edepth"))
}

func genTableNames(t *rapid.T) []string {
	return rapid.SliceOfN(rapid.SampledFrom([]string{"db", "t", "u", ""}), 1, 3).Draw(t, "tnames")
}

// genColNames draws depth-first names for a schema.
func genColNames(t *rapid.T, cols []*TD) []string {
	n := (&ECols{T: cols}).td().nameCount()
	out := make([]string, n)
	for i := range out {
		out[i] = rapid.SampledFrom([]string{"a", "b", "c", "d", "", "x y"}).Draw(t, "name")
	}
	return out
}

// genSameLeaf draws a relation without inputs that has the columns given.
func genSameLeaf(t *rapid.T, x RCtx, cols []*TD) *RM {
	cols = append([]*TD{}, cat(cols)...)
	if !pct(t, 40) {
		return genLeaf(t, x, cols)
	}
	// by a mapping of more columns, in another order
	n := rapid.IntRange(0, 2).Draw(t, "nextra")
	all := append([]*TD{}, cols...)
	for ; n > 0; n-- {
		all = append(all, genETD(t))
	}
	at := make([]int, len(all))
	for i := range at {
		at[i] = i
	}
	if len(at) > 1 {
		at = rapid.Permutation(at).Draw(t, "places")
	}
	perm, mapping := make([]*TD, len(all)), []int32{}
	for i, d := range all {
		perm[at[i]] = d
	}
	for i := range cols {
		mapping = append(mapping, int32(at[i]))
	}
	r := genLeaf(t, x, perm)
	r.Mapped, r.Map = true, mapping
	return r
}

// genLeaf draws a relation without inputs; cols, if not nil, is its schema.
func genLeaf(t *rapid.T, x RCtx, cols []*TD) *RM {
	ks := []string{"named", "named", "named", "virtual", "virtual", "ext", "iceberg"}
	if x.msg {
		ks = append(ks, "files", "files")
	}
	if !x.noExt && cols == nil {
		ks = append(ks, "extleaf")
	}
	r := &RM{K: rapid.SampledFrom(ks).Draw(t, "leaf")}
	if r.K == "extleaf" {
		r.Decoded = !x.msg || rapid.Bool().Draw(t, "decoded")
		r.genDetail(t)
		return r.common(t, x)
	}
	fixed := cols != nil
	if cols == nil {
		for i := rapid.IntRange(1, 4).Draw(t, "ncols"); i > 0; i-- {
			switch {
			case r.K == "virtual":
				cols = append(cols, genLitTD(t, typeGenOpts{depth: 1, noFunc: true, noUnspec: true, decimalOK: true, noEmpty: true}))
			case pct(t, 5):
				cols = append(cols, genWrapTD(t))
			case pct(t, 30):
				cols = append(cols, &TD{Kind: rapid.SampledFrom([]string{"boolean", "i32", "i64", "string", "date"}).Draw(t, "simple"), Null: 1 + rapid.IntRange(0, 1).Draw(t, "null")})
			default:
				cols = append(cols, genETD(t))
			}
			if x.msg && r.K != "virtual" && pct(t, 6) { // a message may leave nullability out
				cols[len(cols)-1].Null = 0
			}
		}
	}
	if r.K == "virtual" {
		for _, c := range cols {
			if !c.litable() {
				r.K = "named"
			}
		}
	}
	r.Base = frozen(cols)
	r.BaseNames = genColNames(t, cols)
	switch r.K {
	case "named":
		r.Names = genTableNames(t)
		if x.msg {
			r.TAdv = genAdv(t, 15)
		}
	case "virtual":
		if x.msg {
			r.LitRows = pct(t, 30)
		}
		for i := rapid.IntRange(0, 3).Draw(t, "nrows"); i > 0; i-- {
			var row []*EX
			for _, c := range cols {
				if r.LitRows || pct(t, 50) {
					row = append(row, &EX{K: "lit", T: c.clone(), LV: genLV(t, c.clone())})
				} else {
					row = append(row, genEX(t, ECtx{cols: &ECols{Frozen: true}, msg: x.msg, noSub: true, noLam: true, noWin: true}, c, rapid.IntRange(0, x.edepth).Draw(t, "edepth")))
				}
			}
			r.Rows = append(r.Rows, row)
		}
	case "files":
		for i := rapid.IntRange(0, 3).Draw(t, "nfiles"); i > 0; i-- {
			r.Files = append(r.Files, genFile(t))
		}
		r.TAdv = genAdv(t, 20)
	case "ext":
		r.Detail = genAny(t)
	case "iceberg":
		r.URI = rapid.SampledFrom([]string{"", "s3://a/b", "x"}).Draw(t, "uri")
		r.SnapK = rapid.SampledFrom([]string{"", "id", "ts"}).Draw(t, "snap")
		switch r.SnapK {
		case "id":
			r.SnapID = rapid.SampledFrom([]string{"s1", "0", ""}).Draw(t, "snapid")
		case "ts":
			r.SnapTS = rapid.SampledFrom([]int64{1, -5, 1700000000000, 0}).Draw(t, "snapts")
		}
	}
	if x.msg {
		if pct(t, 25) {
			r.Filter = x.cond(t, cols)
		}
		if pct(t, 20) {
			r.Best = x.cond(t, cols)
		}
		if pct(t, 12) {
			m := &EMask{K: "struct", Maintain: rapid.Bool().Draw(t, "maintain")}
			for i := range cols {
				if rapid.Bool().Draw(t, "sel") {
					m.Items = append(m.Items, EMaskItem{F: int32(i)})
				}
			}
			if len(m.Items) > 0 {
				r.Mask = m
			}
		}
	}
	if fixed {
		r.Direct = r.direct()
		return r
	}
	return r.common(t, x)
}

const defURL = "type.verif/def"

// genDetail draws the detail of an extension relation; a decoded one carries its schema.
func (r *RM) genDetail(t *rapid.T) {
	r.Detail = genAny(t)
	if !r.Decoded {
		return
	}
	r.Base = &ECols{Frozen: true}
	for i := rapid.IntRange(0, 3).Draw(t, "ncols"); i > 0; i-- {
		r.Base.T = append(r.Base.T, genETD(t))
	}
	b, err := proto.MarshalOptions{Deterministic: true}.Marshal(r.Base.td().proto())
	if err != nil {
		panic(err)
	}
	r.Detail = &anypb.Any{TypeUrl: defURL, Value: b}
}

// vdef is an extension relation that knows its schema, and may hold expressions.
type vdef struct {
	detail *anypb.Any
	schema types.RecordType
	exprs  []expr.Expression
}

func (d *vdef) Schema([]plan.Rel) types.RecordType             { return d.schema }
func (d *vdef) Build([]plan.Rel) *anypb.Any                    { return d.detail }
func (d *vdef) Expressions([]plan.Rel) []expr.Expression       { return d.exprs }
func (vdec) DecodeExtensionRel(detail *anypb.Any) (any, error) { return newVdef(detail) }

type vdec struct{}

func newVdef(detail *anypb.Any) (*vdef, error) {
	var p pb.Type
	if err := proto.Unmarshal(detail.Value, &p); err != nil {
		return nil, err
	}
	st, ok := types.TypeFromProto(&p).(*types.StructType)
	if !ok {
		return nil, fmt.Errorf("not a struct")
	}
	return &vdef{detail: detail, schema: *types.NewRecordTypeFromStruct(*st)}, nil
}

func genFile(t *rapid.T) *pb.ReadRel_LocalFiles_FileOrFiles {
	f := &pb.ReadRel_LocalFiles_FileOrFiles{PartitionIndex: uint64(rapid.IntRange(0, 2).Draw(t, "part")), Start: uint64(rapid.IntRange(0, 2).Draw(t, "start")),
		Length: uint64(rapid.IntRange(0, 2).Draw(t, "len"))}
	p := rapid.SampledFrom([]string{"/a", "s3://x/*.parquet", ""}).Draw(t, "path")
	switch rapid.IntRange(0, 3).Draw(t, "pathkind") {
	case 0:
		f.PathType = &pb.ReadRel_LocalFiles_FileOrFiles_UriPath{UriPath: p}
	case 1:
		f.PathType = &pb.ReadRel_LocalFiles_FileOrFiles_UriPathGlob{UriPathGlob: p}
	case 2:
		f.PathType = &pb.ReadRel_LocalFiles_FileOrFiles_UriFile{UriFile: p}
	case 3:
		f.PathType = &pb.ReadRel_LocalFiles_FileOrFiles_UriFolder{UriFolder: p}
	}
	switch rapid.IntRange(0, 5).Draw(t, "format") {
	case 0:
		f.FileFormat = &pb.ReadRel_LocalFiles_FileOrFiles_Parquet{Parquet: &pb.ReadRel_LocalFiles_FileOrFiles_ParquetReadOptions{}}
	case 1:
		f.FileFormat = &pb.ReadRel_LocalFiles_FileOrFiles_Arrow{Arrow: &pb.ReadRel_LocalFiles_FileOrFiles_ArrowReadOptions{}}
	case 2:
		f.FileFormat = &pb.ReadRel_LocalFiles_FileOrFiles_Orc{Orc: &pb.ReadRel_LocalFiles_FileOrFiles_OrcReadOptions{}}
	case 3:
		f.FileFormat = &pb.ReadRel_LocalFiles_FileOrFiles_Dwrf{Dwrf: &pb.ReadRel_LocalFiles_FileOrFiles_DwrfReadOptions{}}
	case 4:
		f.FileFormat = &pb.ReadRel_LocalFiles_FileOrFiles_Extension{Extension: genAny(t)}
	}
	return f
}

var relKinds = []string{"filter", "project", "project", "fetch", "sort", "agg", "agg", "join", "join", "cross", "set"}

// genRM draws a relation tree of at most the depth.
func genRM(t *rapid.T, x RCtx, depth int) *RM {
	if depth <= 0 {
		return genLeaf(t, x, nil)
	}
	ks := relKinds
	if x.msg {
		ks = append(append([]string{}, ks...), "hash", "merge", "hash", "merge")
		if !x.noExt {
			ks = append(ks, "extsingle", "extmulti")
		}
	} else if !x.noExt {
		ks = append(append([]string{}, ks...), "extsingle", "extmulti")
	}
	if x.write && pct(t, 15) {
		ks = []string{"write"}
	}
	x.write = false
	return genKind(t, x, rapid.SampledFrom(ks).Draw(t, "rkind"), depth)
}

func genKind(t *rapid.T, x RCtx, k string, depth int) *RM {
	r := &RM{K: k}
	in := func() []*TD {
		if x.input != nil {
			r.In = append(r.In, x.input(t))
			return r.In[len(r.In)-1].cols()
		}
		r.In = append(r.In, genRM(t, x, rapid.IntRange(0, depth-1).Draw(t, "rdepth")))
		return r.In[len(r.In)-1].cols()
	}
	switch k {
	case "filter":
		r.Cond = x.cond(t, in())
	case "project":
		c := in()
		for i := rapid.IntRange(1, 3).Draw(t, "nexprs"); i > 0; i-- {
			r.Exprs = append(r.Exprs, x.ex(t, c, ECtx{cols: frozen(c)}.etd(t)))
		}
	case "fetch":
		in()
		r.Off = rapid.SampledFrom([]int64{0, 1, 100, 1 << 62}).Draw(t, "off")
		r.Cnt = rapid.SampledFrom([]int64{0, 1, -1, 100, 1 << 62}).Draw(t, "count")
	case "sort":
		c := in()
		for i := rapid.IntRange(1, 3).Draw(t, "nsorts"); i > 0; i-- {
			r.Exprs = append(r.Exprs, x.ex(t, c, ECtx{cols: frozen(c)}.etd(t)))
			r.Dirs = append(r.Dirs, rapid.SampledFrom([]int32{1, 2, 3, 4, 5, 0, -3}).Draw(t, "dir"))
		}
	case "cross":
		in()
		in()
	case "join":
		both := cat(in(), in())
		r.JT = int32(rapid.IntRange(1, 12).Draw(t, "jt"))
		r.Cond = x.cond(t, both)
		if pct(t, 35) {
			r.Post = x.cond(t, both)
		}
	case "hash", "merge":
		l, rr := in(), in()
		r.JT = int32(rapid.IntRange(1, 12).Draw(t, "jt"))
		custom := false
		if len(l) > 0 && len(rr) > 0 {
			for i := rapid.IntRange(0, 3).Draw(t, "nkeys"); i > 0; i-- {
				k := RKey{L: genKey(t, l), R: genKey(t, rr), Simple: rapid.SampledFrom([]int32{1, 1, 1, 2, 3, 0}).Draw(t, "cmp")}
				if k.Simple == 0 {
					k.Custom = uint32(rapid.IntRange(0, 9).Draw(t, "cmpfn"))
				}
				custom = custom || k.Simple != 1
				r.Keys = append(r.Keys, k)
			}
		}
		r.LegacyKeys = !custom && rapid.Bool().Draw(t, "legacy")
		if pct(t, 35) {
			r.Post = x.cond(t, cat(l, rr))
		}
		if k == "hash" {
			r.BuildSide = int32(rapid.IntRange(0, 2).Draw(t, "build"))
		}
	case "set":
		c := in()
		for i := rapid.IntRange(1, 2).Draw(t, "nmore"); i > 0; i-- {
			m := genSameLeaf(t, x, c)
			if pct(t, 40) {
				m = &RM{K: "filter", In: []*RM{m}, Cond: x.cond(t, c)}
				m.Direct = m.direct()
			}
			r.In = append(r.In, m)
		}
		r.Op = int32(rapid.IntRange(1, 8).Draw(t, "op"))
	case "agg":
		r.genAgg(t, x, in())
	case "extsingle", "extmulti":
		n := 1
		if k == "extmulti" {
			n = rapid.IntRange(0, 3).Draw(t, "ninputs")
			if !x.msg && n == 0 {
				n = 1
			}
		}
		for i := 0; i < n; i++ {
			in()
		}
		r.Decoded = !x.msg || rapid.Bool().Draw(t, "decoded")
		r.genDetail(t)
	case "write":
		in()
		r.Names = genTableNames(t)
		r.Op = rapid.SampledFrom([]int32{1, 2, 4}).Draw(t, "wop")
		if x.msg {
			r.OutMode = int32(rapid.IntRange(0, 2).Draw(t, "outmode"))
			r.CreateMode = int32(rapid.IntRange(0, 4).Draw(t, "createmode"))
		}
		r.Base = frozen(r.In[0].cols())
		if pct(t, 30) || len(r.Base.T) == 0 {
			r.Base = frozen([]*TD{genETD(t), genETD(t)})
		}
		r.BaseNames = genColNames(t, r.Base.T)
		if x.msg {
			r.TAdv = genAdv(t, 20)
		}
	default:
		panic(k)
	}
	return r.common(t, x)
}

func genKey(t *rapid.T, cols []*TD) *EX {
	i := rapid.IntRange(0, len(cols)-1).Draw(t, "keycol")
	return &EX{K: "ref", Root: "root", T: cols[i].clone(), Path: []ESeg{{K: "field", I: int32(i)}}}
}

func (r *RM) genAgg(t *rapid.T, x RCtx, c []*TD) {
	y := x
	n := rapid.IntRange(0, 3).Draw(t, "nkeys")
	if r.LegacyGroups = x.msg && pct(t, 35); r.LegacyGroups || !x.msg {
		y.noSub = true
	}
	for i := 0; i < n; i++ {
		r.Exprs = append(r.Exprs, y.ex(t, c, ECtx{cols: frozen(c)}.etd(t)))
	}
	w := genWorldPlain()
	if r.LegacyGroups || !x.msg {
		// equal keys are one key
		seen := map[string]bool{}
		var out []*EX
		for _, e := range r.Exprs {
			if k := e.key(w); !seen[k] {
				seen[k] = true
				out = append(out, e)
			}
		}
		r.Exprs = out
		n = len(out)
	}
	nm := rapid.IntRange(0, 3).Draw(t, "nmeas")
	ng := rapid.SampledFrom([]int{1, 1, 1, 2, 3, 0}).Draw(t, "nsets")
	if n == 0 && nm == 0 {
		nm = 1
	}
	if n > 0 && ng == 0 {
		ng = 1
	}
	for g := 0; g < ng; g++ {
		var refs []uint32
		for i := 0; i < n; i++ {
			if ng == 1 || pct(t, 60) {
				refs = append(refs, uint32(i))
			}
		}
		if ng > 1 && len(refs) > 1 && pct(t, 40) {
			refs = rapid.Permutation(refs).Draw(t, "refs")
		}
		r.Groups = append(r.Groups, refs)
	}
	// every key is in some set; in the older form they are numbered by first appearance
	used := map[uint32]bool{}
	for _, g := range r.Groups {
		for _, i := range g {
			used[i] = true
		}
	}
	for i := 0; i < n; i++ {
		if !used[uint32(i)] {
			r.Groups[len(r.Groups)-1] = append(r.Groups[len(r.Groups)-1], uint32(i))
		}
	}
	if r.LegacyGroups || !x.msg {
		num := map[uint32]uint32{}
		var es []*EX
		for _, g := range r.Groups {
			for j, i := range g {
				if _, ok := num[i]; !ok {
					num[i] = uint32(len(es))
					es = append(es, r.Exprs[i])
				}
				g[j] = num[i]
			}
		}
		r.Exprs = es
	}
	for i := 0; i < nm; i++ {
		m := RMeas{Agg: x.agg(t, c)}
		if pct(t, 35) {
			m.Filter = x.cond(t, c)
		}
		r.Measures = append(r.Measures, m)
	}
}

// genWorldPlain gives anchors to compare expressions by.
func genWorldPlain() *EWorld {
	w := &EWorld{Anchor: map[string]uint32{}}
	for i, k := range eAll {
		w.Anchor[k] = uint32(i + 1)
	}
	return w
}

func (r *RM) each(f func(*RM)) {
	f(r)
	for _, i := range r.In {
		i.each(f)
	}
}

// exprs are the top-level expressions of this relation, without those of its inputs.
func (r *RM) ownExprs() (out []*EX) {
	for _, e := range r.exprSlots() {
		if e != nil {
			out = append(out, e)
		}
	}
	return out
}

// exprSlots has nil for the filters that are true when missing.
func (r *RM) exprSlots() (out []*EX) {
	add := func(es ...*EX) {
		for _, e := range es {
			if e != nil {
				out = append(out, e)
			}
		}
	}
	add(r.Filter, r.Best)
	for _, row := range r.Rows {
		add(row...)
	}
	add(r.Cond)
	add(r.Exprs...)
	for _, k := range r.Keys {
		add(k.L, k.R)
	}
	for _, m := range r.Measures {
		out = append(out, m.Agg, m.Filter)
	}
	if r.K == "join" || r.K == "hash" || r.K == "merge" {
		out = append(out, r.Post)
	}
	return out
}

func (r *RM) size() (n int) {
	r.each(func(*RM) { n++ })
	return n
}

func (r *RM) label(c *C) {
	r.each(func(k *RM) {
		l := k.K
		if k.JT > 0 {
			l += ":" + k.logicalJoin()
		}
		c.Label(l)
		if k.Mapped {
			c.Label("mapped")
		}
		if k.K == "agg" {
			c.Label(fmt.Sprintf("agg:sets%d", len(k.Groups)))
		}
		for _, e := range k.ownExprs() {
			e.each(func(k *EX) { c.Label("expr:" + k.K) })
		}
	})
}

func (r *RM) String() string {
	var b strings.Builder
	b.WriteString(r.K)
	if r.JT > 0 {
		b.WriteString(":" + r.logicalJoin())
	}
	b.WriteString("{")
	if r.Base != nil {
		fmt.Fprintf(&b, "%v", r.Base.T)
	}
	for _, e := range r.ownExprs() {
		fmt.Fprintf(&b, " %s;", e)
	}
	if r.K == "agg" {
		fmt.Fprintf(&b, " sets%v legacy %v", r.Groups, r.LegacyGroups)
	}
	if r.K == "fetch" {
		fmt.Fprintf(&b, " %d %d", r.Off, r.Cnt)
	}
	if r.Op != 0 || r.OutMode != 0 {
		fmt.Fprintf(&b, " op%d mode%d", r.Op, r.OutMode)
	}
	if r.Dirs != nil {
		fmt.Fprintf(&b, " dirs%v", r.Dirs)
	}
	b.WriteString("}")
	if r.Mapped {
		fmt.Fprintf(&b, "%v", r.Map)
	}
	if len(r.In) > 0 {
		b.WriteString("(")
		for i, k := range r.In {
			if i > 0 {
				b.WriteString(", ")
			}
			b.WriteString(k.String())
		}
		b.WriteString(")")
	}
	return b.String()
}

func (r *RM) commonProto(canon bool) *pb.RelCommon {
	if r.NoCommon && !canon && !r.Mapped && r.Hint == nil && r.CAdv == nil {
		return nil
	}
	c := &pb.RelCommon{Hint: r.Hint, AdvancedExtension: r.CAdv}
	if r.Mapped {
		c.EmitKind = &pb.RelCommon_Emit_{Emit: &pb.RelCommon_Emit{OutputMapping: r.Map}}
	} else if !r.NoCommon || canon {
		c.EmitKind = &pb.RelCommon_Direct_{Direct: &pb.RelCommon_Direct{}}
	}
	return c
}

func exProtos(es []*EX, w *EWorld) (out []*pb.Expression) {
	for _, e := range es {
		out = append(out, e.proto(w))
	}
	return out
}

func optProto(e *EX, w *EWorld) *pb.Expression {
	if e == nil {
		return nil
	}
	return e.proto(w)
}

func schemaProto(names []string, cols *ECols) *pb.NamedStruct {
	return &pb.NamedStruct{Names: names, Struct: cols.td().proto().GetStruct()}
}

// proto is the message of the relation: as drawn, or as it is to be written (canon), which is the same
// except that what may be left out is there and deprecated forms are replaced.
func (r *RM) proto(w *EWorld, canon bool) *pb.Rel {
	com := r.commonProto(canon)
	var in []*pb.Rel
	for _, i := range r.In {
		in = append(in, i.proto(w, canon))
	}
	switch r.K {
	case "named", "virtual", "files", "ext", "iceberg":
		m := &pb.ReadRel{Common: com, BaseSchema: schemaProto(r.BaseNames, r.Base), Filter: optProto(r.Filter, w), BestEffortFilter: optProto(r.Best, w), AdvancedExtension: r.Adv}
		if r.Mask != nil {
			m.Projection = r.Mask.proto()
		}
		switch r.K {
		case "named":
			m.ReadType = &pb.ReadRel_NamedTable_{NamedTable: &pb.ReadRel_NamedTable{Names: r.Names, AdvancedExtension: r.TAdv}}
		case "virtual":
			v := &pb.ReadRel_VirtualTable{}
			for _, row := range r.Rows {
				if r.LitRows && !canon {
					l := &pb.Expression_Literal_Struct{}
					for _, e := range row {
						l.Fields = append(l.Fields, e.LV.proto())
					}
					v.Values = append(v.Values, l)
					continue
				}
				v.Expressions = append(v.Expressions, &pb.Expression_Nested_Struct{Fields: exProtos(row, w)})
			}
			m.ReadType = &pb.ReadRel_VirtualTable_{VirtualTable: v}
		case "files":
			m.ReadType = &pb.ReadRel_LocalFiles_{LocalFiles: &pb.ReadRel_LocalFiles{Items: r.Files, AdvancedExtension: r.TAdv}}
		case "ext":
			m.ReadType = &pb.ReadRel_ExtensionTable_{ExtensionTable: &pb.ReadRel_ExtensionTable{Detail: r.Detail}}
		case "iceberg":
			d := &pb.ReadRel_IcebergTable_MetadataFileRead{MetadataUri: r.URI}
			switch r.SnapK {
			case "id":
				d.Snapshot = &pb.ReadRel_IcebergTable_MetadataFileRead_SnapshotId{SnapshotId: r.SnapID}
			case "ts":
				d.Snapshot = &pb.ReadRel_IcebergTable_MetadataFileRead_SnapshotTimestamp{SnapshotTimestamp: r.SnapTS}
			}
			m.ReadType = &pb.ReadRel_IcebergTable_{IcebergTable: &pb.ReadRel_IcebergTable{TableType: &pb.ReadRel_IcebergTable_Direct{Direct: d}}}
		}
		return &pb.Rel{RelType: &pb.Rel_Read{Read: m}}
	case "filter":
		return &pb.Rel{RelType: &pb.Rel_Filter{Filter: &pb.FilterRel{Common: com, Input: in[0], Condition: r.Cond.proto(w), AdvancedExtension: r.Adv}}}
	case "project":
		return &pb.Rel{RelType: &pb.Rel_Project{Project: &pb.ProjectRel{Common: com, Input: in[0], Expressions: exProtos(r.Exprs, w), AdvancedExtension: r.Adv}}}
	case "fetch":
		return &pb.Rel{RelType: &pb.Rel_Fetch{Fetch: &pb.FetchRel{Common: com, Input: in[0], OffsetMode: &pb.FetchRel_Offset{Offset: r.Off},
			CountMode: &pb.FetchRel_Count{Count: r.Cnt}, AdvancedExtension: r.Adv}}}
	case "sort":
		m := &pb.SortRel{Common: com, Input: in[0], AdvancedExtension: r.Adv}
		for i, e := range r.Exprs {
			m.Sorts = append(m.Sorts, sortProto(e, r.Dirs[i], w))
		}
		return &pb.Rel{RelType: &pb.Rel_Sort{Sort: m}}
	case "cross":
		return &pb.Rel{RelType: &pb.Rel_Cross{Cross: &pb.CrossRel{Common: com, Left: in[0], Right: in[1], AdvancedExtension: r.Adv}}}
	case "join":
		return &pb.Rel{RelType: &pb.Rel_Join{Join: &pb.JoinRel{Common: com, Left: in[0], Right: in[1], Expression: r.Cond.proto(w), PostJoinFilter: optProto(r.Post, w),
			Type: pb.JoinRel_JoinType(r.JT), AdvancedExtension: r.Adv}}}
	case "set":
		return &pb.Rel{RelType: &pb.Rel_Set{Set: &pb.SetRel{Common: com, Inputs: in, Op: pb.SetRel_SetOp(r.Op), AdvancedExtension: r.Adv}}}
	case "hash", "merge":
		var keys []*pb.ComparisonJoinKey
		var lk, rk []*pb.Expression_FieldReference
		plain := true
		for _, k := range r.Keys {
			ct := &pb.ComparisonJoinKey_ComparisonType{InnerType: &pb.ComparisonJoinKey_ComparisonType_Simple{Simple: pb.ComparisonJoinKey_SimpleComparisonType(k.Simple)}}
			if k.Simple == 0 {
				ct.InnerType = &pb.ComparisonJoinKey_ComparisonType_CustomFunctionReference{CustomFunctionReference: k.Custom}
			}
			plain = plain && k.Simple == 1
			if canon || !r.LegacyKeys {
				keys = append(keys, &pb.ComparisonJoinKey{Left: k.L.refProto(w), Right: k.R.refProto(w), Comparison: ct})
			}
			if canon || r.LegacyKeys {
				lk, rk = append(lk, k.L.refProto(w)), append(rk, k.R.refProto(w))
			}
		}
		if !plain {
			lk, rk = nil, nil
		}
		if r.K == "hash" {
			return &pb.Rel{RelType: &pb.Rel_HashJoin{HashJoin: &pb.HashJoinRel{Common: com, Left: in[0], Right: in[1], Keys: keys, LeftKeys: lk, RightKeys: rk,
				PostJoinFilter: optProto(r.Post, w), Type: pb.HashJoinRel_JoinType(r.JT), BuildInput: pb.HashJoinRel_BuildInput(r.BuildSide), AdvancedExtension: r.Adv}}}
		}
		return &pb.Rel{RelType: &pb.Rel_MergeJoin{MergeJoin: &pb.MergeJoinRel{Common: com, Left: in[0], Right: in[1], Keys: keys, LeftKeys: lk, RightKeys: rk,
			PostJoinFilter: optProto(r.Post, w), Type: pb.MergeJoinRel_JoinType(r.JT), AdvancedExtension: r.Adv}}}
	case "agg":
		m := &pb.AggregateRel{Common: com, Input: in[0], AdvancedExtension: r.Adv}
		if canon || !r.LegacyGroups {
			m.GroupingExpressions = exProtos(r.Exprs, w)
		}
		for _, g := range r.Groups {
			pg := &pb.AggregateRel_Grouping{}
			if canon || !r.LegacyGroups {
				pg.ExpressionReferences = g
			} else {
				for _, i := range g {
					pg.GroupingExpressions = append(pg.GroupingExpressions, r.Exprs[i].proto(w))
				}
			}
			m.Groupings = append(m.Groupings, pg)
		}
		for _, x := range r.Measures {
			m.Measures = append(m.Measures, &pb.AggregateRel_Measure{Measure: x.Agg.aggProto(w), Filter: optProto(x.Filter, w)})
		}
		return &pb.Rel{RelType: &pb.Rel_Aggregate{Aggregate: m}}
	case "extsingle":
		return &pb.Rel{RelType: &pb.Rel_ExtensionSingle{ExtensionSingle: &pb.ExtensionSingleRel{Common: com, Input: in[0], Detail: r.Detail}}}
	case "extmulti":
		return &pb.Rel{RelType: &pb.Rel_ExtensionMulti{ExtensionMulti: &pb.ExtensionMultiRel{Common: com, Inputs: in, Detail: r.Detail}}}
	case "extleaf":
		return &pb.Rel{RelType: &pb.Rel_ExtensionLeaf{ExtensionLeaf: &pb.ExtensionLeafRel{Common: com, Detail: r.Detail}}}
	case "write":
		return &pb.Rel{RelType: &pb.Rel_Write{Write: &pb.WriteRel{Common: com, WriteType: &pb.WriteRel_NamedTable{NamedTable: &pb.NamedObjectWrite{Names: r.Names, AdvancedExtension: r.TAdv}},
			TableSchema: schemaProto(r.BaseNames, r.Base), Op: pb.WriteRel_WriteOp(r.Op), Input: in[0], CreateMode: pb.WriteRel_CreateMode(r.CreateMode),
			Output: pb.WriteRel_OutputMode(r.OutMode), AdvancedExtension: r.Adv}}}
	}
	panic(r.K)
}

// schemaErr says how a schema differs from the one of the model.
func schemaErr(got types.RecordType, want []*TD) string {
	if int(got.FieldCount()) != len(want) {
		return fmt.Sprintf("%d columns, want %d: %v, want %v", got.FieldCount(), len(want), got.Types(), want)
	}
	for i, g := range got.Types() {
		if g == nil {
			return fmt.Sprintf("column %d has no type", i)
		}
		if !tdOf(g).equal(want[i]) {
			return fmt.Sprintf("column %d is %v, want %v (%v, want %v)", i, g, want[i], got.Types(), want)
		}
	}
	return ""
}

// checkSchemas compares the schema of a relation and all below with the model's.
func (r *RM) checkSchemas(c *C, got plan.Rel, sig string) {
	ins := got.GetInputs()
	c.Check(len(ins) == len(r.In), "inputs:"+r.K+sig, "%d inputs, want %d", len(ins), len(r.In))
	for i, k := range r.In {
		k.checkSchemas(c, ins[i], sig)
	}
	k := r.K
	if r.JT > 0 {
		k += ":" + r.logicalJoin()
	}
	e := schemaErr(got.RecordType(), r.cols())
	c.Check(e == "", "schema:"+k+sig, "%s: %s", r, e)
	m := got.OutputMapping()
	c.Check((m != nil) == r.Mapped && len(m) == len(r.Map), "mapping:"+k+sig, "mapping %v, want %v (mapped %v)", m, r.Map, r.Mapped)
	for i := range m {
		c.Check(m[i] == r.Map[i], "mapping:"+k+sig, "mapping %v, want %v", m, r.Map)
	}
}
