package pbt

import (
	"encoding/hex"
	"fmt"
	"math"
	"math/big"
	"regexp"
	"strconv"
	"strings"
	"testing"

	"github.com/substrait-io/substrait-go/v8/expr"
	"pgregory.net/rapid"
)

type isoPrinter interface{ IsoValueString() string }

// denotes tells whether the text is one of the value, by an own reading of the standard formats;
// iso selects the ISO forms of intervals and timestamps. ok is false when the kind is not judged.
func (v *LV) denotes(s string, iso bool) (match, ok bool) {
	d := v.T
	if v.Null {
		return s == "null", true
	}
	switch d.Kind {
	case "boolean":
		return s == strconv.FormatBool(v.I != 0), true
	case "i8", "i16", "i32", "i64":
		return s == strconv.FormatInt(v.I, 10), true
	case "fp32":
		f, err := strconv.ParseFloat(s, 32)
		return err == nil && (float32(f) == float32(v.F) || f != f && v.F != v.F), true
	case "fp64":
		f, err := strconv.ParseFloat(s, 64)
		return err == nil && (f == v.F || f != f && v.F != v.F), true
	case "string", "fixedchar", "varchar":
		return s == v.S, true
	case "binary":
		parts := make([]string, len(v.B))
		for i, b := range v.B {
			parts[i] = strconv.Itoa(int(b))
		}
		return s == "["+strings.Join(parts, " ")+"]", true
	case "fixedbinary":
		return s == "0x"+hex.EncodeToString(v.B), true
	case "uuid":
		h := strings.ReplaceAll(s, "-", "")
		return strings.EqualFold(h, hex.EncodeToString(v.B)) && len(s) == 36 && s[8] == '-' && s[13] == '-' && s[18] == '-' && s[23] == '-', true
	case "date":
		n, ok := readDate(s)
		return ok && n == v.I, true
	case "time":
		n, ok := readClock(s)
		return ok && n.Cmp(new(big.Int).Mul(big.NewInt(v.I), pow10(3))) == 0, true
	case "precision_time":
		n, ok := readClock(s)
		return ok && n.Cmp(new(big.Int).Mul(big.NewInt(v.I), pow10(9-int(d.P)))) == 0, true
	case "timestamp", "timestamp_tz", "precision_timestamp", "precision_timestamp_tz":
		p := 6
		if strings.HasPrefix(d.Kind, "precision") {
			p = int(d.P)
		}
		if p == 0 && (v.I > math.MaxInt64-200000000000 || v.I < math.MinInt64+200000000000) {
			return true, false // beyond the years that Go's time package can hold
		}
		n, ok := readTimestamp(s)
		hasZone := strings.HasSuffix(s, "Z") || regexp.MustCompile(`[+-]\d\d:\d\d$`).MatchString(s)
		return ok && n.Cmp(new(big.Int).Mul(big.NewInt(v.I), pow10(9-p))) == 0 && (hasZone == strings.HasSuffix(d.Kind, "_tz") || iso && d.Kind == "timestamp_tz") &&
			(!iso || strings.Contains(s, "T")), true
	case "decimal":
		u, sc, ok := readDecimal(s)
		return ok && sameNumber(u, sc, v.D, int(d.S)), true
	case "interval_year":
		if iso {
			var y, m int32
			n, err := fmt.Sscanf(s, "P%dY%dM", &y, &m)
			return err == nil && n == 2 && y == v.Y && m == v.M && s == fmt.Sprintf("P%dY%dM", y, m), true
		}
		return s == fmt.Sprintf("%d years, %d months", v.Y, v.M), true
	case "interval_day":
		if iso {
			days, nanos, ok := readIsoDay(s)
			want := new(big.Int).Mul(big.NewInt(int64(v.Sec)), pow10(9))
			want.Add(want, new(big.Int).Mul(big.NewInt(v.Sub), pow10(9-int(d.P))))
			return ok && days.Cmp(big.NewInt(int64(v.Dy))) == 0 && nanos.Cmp(want) == 0, true
		}
		return s == fmt.Sprintf("%d days, %d seconds, %d subseconds", v.Dy, v.Sec, v.Sub), true
	case "interval_compound":
		return s == fmt.Sprintf("%d years, %d months, %d days, %d seconds, %d subseconds", v.Y, v.M, v.Dy, v.Sec, v.Sub), true
	}
	return false, false
}

// delimited tells whether the text of the value cannot run into its neighbours.
func (v *LV) delimited() bool {
	switch v.T.Kind {
	case "string", "fixedchar", "varchar", "udt":
		return v.Null
	}
	for _, k := range v.Kids {
		if !k.delimited() {
			return false
		}
	}
	return true
}

func TestL03(t *testing.T) {
	p := start(t, "L03", "literals of every kind with edge and random values (every precision, before the epoch, far years, negative intervals, specials of floats, nested); "+
		"texts read back by own parsers of the standard formats, and pairs of different values of one type; non-trivial = not null")
	defer p.finish()

	check := func(c *C, v *LV, l expr.Literal) {
		k := v.T.Kind
		s := l.ValueString()
		if m, ok := v.denotes(s, false); ok {
			c.Check(m, "value_text:"+k, "%s prints %q", v, s)
		}
		if ip, ok := l.(isoPrinter); ok {
			s := ip.IsoValueString()
			if m, ok := v.denotes(s, true); ok && !m {
				if k == "precision_timestamp_tz" {
					// the listed finding cuts the text to milliseconds, and nothing else
					ms := units(new(big.Int).Mul(big.NewInt(v.I), pow10(9-int(v.T.P))), 3)
					if n, ok := readTimestamp(s); ok && n.Cmp(ms.Mul(ms, pow10(6))) == 0 {
						c.Soft("iso_text_milliseconds:precision_timestamp_tz", "%s prints %q", v, s)
						return
					}
				}
				c.Fail("iso_text:"+k, "%s prints ISO %q", v, s)
			}
		}
		full := l.String()
		if k != "struct" && k != "list" && k != "udt" && !v.Null {
			c.Check(strings.HasSuffix(full, "("+s+")"), "string:"+k, "%s prints %q, its value prints %q", v, full, s)
			c.Check(full == l.GetType().String()+"("+s+")", "string:"+k, "%s prints %q, its type %q", v, full, l.GetType())
		}
	}

	p.sub("scalars", 10000, func(c *C) {
		v := genLV(c.T, genLitTD(c.T, typeGenOpts{noFunc: true, noUDT: true, noUnspec: true, decimalOK: true}))
		c.Case(!v.Null, "%s", v)
		c.Label(v.T.Kind)
		check(c, v, v.lit())
		check(c, v, expr.LiteralFromProto(wire(v.proto())))
		if l, ok, err := v.ctor(); ok && err == nil {
			check(c, v, l)
		}
	})

	p.sub("temporal_sweep", 4000, func(c *C) {
		kind := rapid.SampledFrom([]string{"date", "time", "timestamp", "timestamp_tz", "precision_time", "precision_timestamp", "precision_timestamp_tz", "interval_day", "interval_year", "decimal"}).Draw(c.T, "kind")
		d := &TD{Kind: kind, Null: 2}
		switch {
		case isPrecKind(kind):
			d.P = rapid.Int32Range(0, 9).Draw(c.T, "p")
		case kind == "decimal":
			d.P = rapid.Int32Range(1, 38).Draw(c.T, "p")
			d.S = rapid.Int32Range(0, d.P).Draw(c.T, "s")
		}
		v := genLV(c.T, d)
		c.Case(true, "%s", v)
		check(c, v, v.lit())
	})

	p.sub("nested", 4000, func(c *C) {
		d := genLitTD(c.T, typeGenOpts{depth: 2, noFunc: true, noUDT: true, noUnspec: true, decimalOK: true})
		for !d.isNested() {
			d = &TD{Kind: rapid.SampledFrom([]string{"list", "struct"}).Draw(c.T, "wrap"), Null: 2, Kids: []*TD{d}}
		}
		v := genLV(c.T, d)
		c.Case(!v.Null && len(v.Kids) > 0, "%s", v)
		l := v.lit()
		for _, s := range []string{l.ValueString(), l.String()} {
			// the texts of the elements appear, in order
			rest := s
			for i, k := range v.Kids {
				a, b := k.lit().ValueString(), k.lit().String()
				ia, ib := strings.Index(rest, a), strings.Index(rest, b)
				c.Check(ia >= 0 || ib >= 0, "elements:"+v.T.Kind, "%q does not show element %d (%s) in order", s, i, b)
				if ib >= 0 && (ia < 0 || ib <= ia) {
					rest = rest[ib+len(b):]
				} else {
					rest = rest[ia+len(a):]
				}
			}
		}
	})

	p.sub("distinct", 8000, func(c *C) {
		o := litTypeOpts
		v := genLV(c.T, genLitTD(c.T, o))
		w, what := mutateLV(c.T, v, true)
		if rapid.IntRange(0, 3).Draw(c.T, "fresh") == 0 {
			w, what = genLV(c.T, v.T), "fresh"
		}
		c.Case(!v.Null, "%s / %s (%s)", v, w, what)
		if what == "" || v.key() == w.key() || !v.T.equal(w.T) {
			c.Label("same")
			return
		}
		k := v.T.Kind
		if (v.T.isNested() || k == "udt") && !(v.delimited() && w.delimited()) {
			c.Label("not self-delimiting")
			return
		}
		// a string may spell null
		if v.Null != w.Null && (v.S == "null" || w.S == "null") {
			return
		}
		if k == "interval_day" && v.Mode != w.Mode && v.Dy == w.Dy && v.Sec == w.Sec && v.Sub == w.Sub {
			return
		}
		if sameDayValues(v, w) {
			return
		}
		a, b := v.lit(), w.lit()
		c.Check(a.ValueString() != b.ValueString(), "same_value_text:"+k, "%s and %s both print %q", v, w, a.ValueString())
		c.Check(a.String() != b.String(), "same_text:"+k, "%s and %s both print %q", v, w, a.String())
		pa, ok1 := a.(isoPrinter)
		pb, ok2 := b.(isoPrinter)
		if ok1 && ok2 && k != "interval_day" && pa.IsoValueString() == pb.IsoValueString() {
			if k == "precision_timestamp_tz" && v.T.P > 3 && !v.Null && !w.Null {
				p := int(v.T.P)
				if units(new(big.Int).Mul(big.NewInt(v.I), pow10(9-p)), 3).Cmp(units(new(big.Int).Mul(big.NewInt(w.I), pow10(9-p)), 3)) == 0 {
					c.Soft("iso_text_milliseconds:precision_timestamp_tz", "%s and %s", v, w)
					return
				}
			}
			c.Fail("same_iso_text:"+k, "%s and %s both print ISO %q", v, w, pa.IsoValueString())
		}
	})
}

// sameDayValues: the same intervals up to the form in which the subseconds are given.
func sameDayValues(v, w *LV) bool {
	a, b := v.clone(), w.clone()
	var strip func(x *LV)
	strip = func(x *LV) {
		x.Mode = 0
		if x.T.Kind == "udt" {
			x.Mode = 7
		}
		for _, k := range x.Kids {
			strip(k)
		}
	}
	strip(a)
	strip(b)
	return a.key() == b.key()
}
