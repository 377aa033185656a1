package pbt

import (
	"bytes"
	"fmt"
	"math"
	"math/big"
	"regexp"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/cockroachdb/apd/v3"
	"github.com/google/uuid"
	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/literal"
	"github.com/substrait-io/substrait-go/v8/types"
	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	"pgregory.net/rapid"
)

// --- an own calendar -------------------------------------------------------------------------

// daysFromCivil counts days from 1970-01-01 in the proleptic Gregorian calendar.
func daysFromCivil(y int64, m, d int) int64 {
	if m <= 2 {
		y--
	}
	era := y / 400
	if y < 0 {
		era = (y - 399) / 400
	}
	yoe := y - era*400
	mp := int64((m + 9) % 12)
	doy := (153*mp+2)/5 + int64(d) - 1
	doe := yoe*365 + yoe/4 - yoe/100 + doy
	return era*146097 + doe - 719468
}

func isLeap(y int64) bool { return y%4 == 0 && (y%100 != 0 || y%400 == 0) }

func monthDays(y int64, m int) int {
	switch m {
	case 2:
		if isLeap(y) {
			return 29
		}
		return 28
	case 4, 6, 9, 11:
		return 30
	}
	return 31
}

type civil struct {
	Y       int64
	Mo, D   int
	H, Mi   int
	S       int
	Frac    string // digits after the point as written
	Off     int    // minutes east of UTC
	HasOff  bool
	DateSep string
}

func genCivil(t *rapid.T) civil {
	c := civil{Y: rapid.OneOf(rapid.Int64Range(1900, 2100), rapid.Int64Range(0, 9999), rapid.SampledFrom([]int64{0, 1, 1969, 1970, 2000, 1600, 1700, 9999})).Draw(t, "y")}
	c.Mo = rapid.IntRange(1, 12).Draw(t, "mo")
	c.D = rapid.OneOf(rapid.IntRange(1, monthDays(c.Y, c.Mo)), rapid.Just(monthDays(c.Y, c.Mo))).Draw(t, "d")
	c.H = rapid.IntRange(0, 23).Draw(t, "h")
	c.Mi = rapid.IntRange(0, 59).Draw(t, "mi")
	c.S = rapid.IntRange(0, 59).Draw(t, "s")
	if n := rapid.IntRange(0, 9).Draw(t, "nfrac"); n > 0 {
		c.Frac = rapid.StringMatching(fmt.Sprintf(`[0-9]{%d}`, n)).Draw(t, "frac")
	}
	if rapid.Bool().Draw(t, "hasoff") {
		c.HasOff = true
		c.Off = rapid.SampledFrom([]int{0, 60, -60, 330, -480, 765, -1, 839}).Draw(t, "off")
	}
	return c
}

func (c civil) date() string { return fmt.Sprintf("%04d-%02d-%02d", c.Y, c.Mo, c.D) }
func (c civil) clock() string {
	s := fmt.Sprintf("%02d:%02d:%02d", c.H, c.Mi, c.S)
	if c.Frac != "" {
		s += "." + c.Frac
	}
	return s
}
func (c civil) zone() string {
	if !c.HasOff {
		return ""
	}
	if c.Off == 0 {
		return "Z"
	}
	o, sg := c.Off, "+"
	if o < 0 {
		o, sg = -o, "-"
	}
	return fmt.Sprintf("%s%02d:%02d", sg, o/60, o%60)
}
func (c civil) text() string { return c.date() + "T" + c.clock() + c.zone() }

// nanosOfDay and nanos give the exact instant in nanoseconds.
func (c civil) nanosOfDay() *big.Int {
	n := big.NewInt(int64(c.H)*3600 + int64(c.Mi)*60 + int64(c.S))
	n.Mul(n, pow10(9))
	if c.Frac != "" {
		f, _ := new(big.Int).SetString(c.Frac, 10)
		n.Add(n, f.Mul(f, pow10(9-len(c.Frac))))
	}
	return n
}

func (c civil) nanos() *big.Int {
	n := big.NewInt(daysFromCivil(c.Y, c.Mo, c.D)*86400 - int64(c.Off)*60)
	n.Mul(n, pow10(9))
	return n.Add(n, c.nanosOfDay())
}

// units gives floor(nanos / 10^(9-p)).
func units(nanos *big.Int, p int32) *big.Int {
	q, m := new(big.Int).DivMod(nanos, pow10(9-int(p)), new(big.Int))
	_ = m
	return q
}

func fitsInt64(v *big.Int) bool { return v.IsInt64() }

// --- parse the printed forms -----------------------------------------------------------------

var (
	dateRe = regexp.MustCompile(`^([+-]?\d+)-(\d\d)-(\d\d)$`)
	timeRe = regexp.MustCompile(`^(\d\d):(\d\d):(\d\d)(?:\.(\d{1,9}))?$`)
	tsRe   = regexp.MustCompile(`^([+-]?\d+-\d\d-\d\d)[T ](\d\d:\d\d:\d\d(?:\.\d{1,9})?)(Z|[+-]\d\d:\d\d)?$`)
)

func readDate(s string) (int64, bool) {
	m := dateRe.FindStringSubmatch(s)
	if m == nil {
		return 0, false
	}
	y, err := strconv.ParseInt(m[1], 10, 64)
	mo, _ := strconv.Atoi(m[2])
	d, _ := strconv.Atoi(m[3])
	if err != nil || mo < 1 || mo > 12 || d < 1 || d > monthDays(y, mo) {
		return 0, false
	}
	return daysFromCivil(y, mo, d), true
}

func readClock(s string) (*big.Int, bool) {
	m := timeRe.FindStringSubmatch(s)
	if m == nil {
		return nil, false
	}
	h, _ := strconv.Atoi(m[1])
	mi, _ := strconv.Atoi(m[2])
	sec, _ := strconv.Atoi(m[3])
	if h > 23 || mi > 59 || sec > 59 {
		return nil, false
	}
	return civil{H: h, Mi: mi, S: sec, Frac: m[4]}.nanosOfDay(), true
}

func readTimestamp(s string) (*big.Int, bool) {
	m := tsRe.FindStringSubmatch(s)
	if m == nil {
		return nil, false
	}
	d, ok1 := readDate(m[1])
	n, ok2 := readClock(m[2])
	if !ok1 || !ok2 {
		return nil, false
	}
	off := 0
	if m[3] != "" && m[3] != "Z" {
		h, _ := strconv.Atoi(m[3][1:3])
		mi, _ := strconv.Atoi(m[3][4:6])
		off = h*60 + mi
		if m[3][0] == '-' {
			off = -off
		}
	}
	x := big.NewInt(d*86400 - int64(off)*60)
	x.Mul(x, pow10(9))
	return x.Add(x, n), true
}

var decRe = regexp.MustCompile(`^([+-]?)(\d+)(?:\.(\d*))?(?:[eE]([+-]?\d+))?$`)

// readDecimal gives the number as unscaled * 10^-scale.
func readDecimal(s string) (unscaled *big.Int, scale int, ok bool) {
	m := decRe.FindStringSubmatch(s)
	if m == nil {
		return nil, 0, false
	}
	u, _ := new(big.Int).SetString(m[2]+m[3], 10)
	if m[1] == "-" {
		u.Neg(u)
	}
	e := 0
	if m[4] != "" {
		var err error
		if e, err = strconv.Atoi(m[4]); err != nil {
			return nil, 0, false
		}
	}
	return u, len(m[3]) - e, true
}

// sameNumber compares u1*10^-s1 with u2*10^-s2.
func sameNumber(u1 *big.Int, s1 int, u2 *big.Int, s2 int) bool {
	a, b := new(big.Int).Set(u1), new(big.Int).Set(u2)
	if a.Sign() == 0 || b.Sign() == 0 {
		return a.Sign() == b.Sign()
	}
	if s1 < s2 {
		a.Mul(a, pow10(s2-s1))
	} else {
		b.Mul(b, pow10(s1-s2))
	}
	return a.Cmp(b) == 0
}

func digitsOf(v *big.Int) int {
	if v.Sign() == 0 {
		return 1
	}
	return len(new(big.Int).Abs(v).String())
}

var isoDayRe = regexp.MustCompile(`^P(?:(-?\d+)D)?(?:T(?:(-?\d+)H)?(?:(-?\d+)M)?(?:(-?)(\d+)(?:\.(\d+))?S)?)?$`)

// readIsoDay gives days and the rest in nanoseconds.
func readIsoDay(s string) (days, nanos *big.Int, ok bool) {
	m := isoDayRe.FindStringSubmatch(s)
	if m == nil || s == "P" || strings.HasSuffix(s, "T") {
		return nil, nil, false
	}
	num := func(x string) *big.Int {
		n := new(big.Int)
		if x != "" {
			n.SetString(x, 10)
		}
		return n
	}
	days = num(m[1])
	sec := new(big.Int).Add(new(big.Int).Mul(num(m[2]), big.NewInt(3600)), new(big.Int).Mul(num(m[3]), big.NewInt(60)))
	nanos = new(big.Int).Mul(sec, pow10(9))
	part := new(big.Int).Mul(num(m[5]), pow10(9))
	if m[6] != "" {
		if len(m[6]) > 9 {
			return nil, nil, false
		}
		part.Add(part, new(big.Int).Mul(num(m[6]), pow10(9-len(m[6]))))
	}
	if m[4] == "-" {
		part.Neg(part)
	}
	return days, nanos.Add(nanos, part), true
}

// --- L02 ---------------------------------------------------------------------------------------

// lvFrom reads a literal back through its message, which L01 ties to the value.
func litOf(c *C, l expr.Literal, err error, wantNull bool, kind string) *pb.Expression_Literal {
	c.Check(err == nil && l != nil, "refused:"+kind, "refused: %v", err)
	m := l.ToProtoLiteral()
	c.Check(m.Nullable == wantNull, "nullable:"+kind, "nullable %v want %v", m.Nullable, wantNull)
	c.Check(m.TypeVariationReference == 0, "variation:"+kind, "variation %d", m.TypeVariationReference)
	return m
}

func refused(c *C, l expr.Literal, err error, sig string) {
	c.Check(err != nil, "accepted:"+sig, "accepted as %v", l)
	c.Check(l == nil, "error_and_value:"+sig, "an error (%v) and a literal %v", err, l)
}

func checkDecimal(c *C, l expr.Literal, u *big.Int, scale int, sig string) {
	dt, ok := l.GetType().(*types.DecimalType)
	c.Check(ok, "decimal_type:"+sig, "type %s", l.GetType())
	m := l.ToProtoLiteral().GetDecimal()
	c.Check(m != nil && len(m.Value) == 16 && m.Precision == dt.Precision && m.Scale == dt.Scale, "decimal_message:"+sig, "message %v for type %s", m, dt)
	got := fromLE16(m.Value)
	c.Check(sameNumber(got, int(dt.Scale), u, scale), "decimal_value:"+sig, "holds %s * 10^-%d, want %s * 10^-%d", got, dt.Scale, u, scale)
	c.Check(dt.Precision >= 1 && dt.Precision <= 38 && dt.Scale >= 0 && dt.Scale <= dt.Precision, "decimal_bounds:"+sig, "type %s", dt)
	c.Check(digitsOf(got) <= int(dt.Precision), "decimal_digits:"+sig, "%s has more digits than %s", got, dt)
	v, s, ok := readDecimal(l.ValueString())
	c.Check(ok && sameNumber(v, s, u, scale), "decimal_text:"+sig, "prints %q, want %s * 10^-%d", l.ValueString(), u, scale)
}

// fitDecimal tells whether u*10^-scale has a decimal(38,s): sure yes / sure no.
func fitDecimal(u *big.Int, scale int) (yes, no bool) {
	a, s := new(big.Int).Set(u), scale
	if s < 0 {
		if a.Sign() == 0 {
			return false, false
		}
		if s < -100 {
			return false, true
		}
		a.Mul(a, pow10(-s))
		s = 0
	}
	yes = digitsOf(a) <= 38 && s <= 38
	if a.Sign() == 0 {
		return yes, false
	}
	ten, r := big.NewInt(10), new(big.Int)
	for s > 0 {
		q, _ := new(big.Int).QuoRem(a, ten, r)
		if r.Sign() != 0 {
			break
		}
		a, s = q, s-1
	}
	return yes, digitsOf(a) > 38 || s > 38
}

func TestL02(t *testing.T) {
	p := start(t, "L02", "values given to every literal constructor (decimal texts and numbers at every precision and scale with exponents, own-calendar dates and "+
		"timestamps with offsets and fractions at every precision, times, interval texts, bytes, multi-byte strings) and values that must be refused; "+
		"oracle: big-integer arithmetic and an own calendar; non-trivial = not a plain zero or empty value")
	defer p.finish()

	p.sub("decimal_text", 5000, func(c *C) {
		nInt := rapid.IntRange(0, 40).Draw(c.T, "nint")
		nFrac := rapid.IntRange(-1, 40).Draw(c.T, "nfrac")
		if nInt <= 0 && nFrac <= 0 {
			nInt = 1
		}
		digit := rapid.StringMatching
		sign := rapid.SampledFrom([]string{"", "-", "+"}).Draw(c.T, "sign")
		is := digit(fmt.Sprintf(`[0-9]{%d}`, nInt)).Draw(c.T, "int")
		if rapid.Bool().Draw(c.T, "nines") {
			is = strings.Repeat("9", nInt)
		}
		text := sign + is
		fs := ""
		if nFrac >= 0 {
			fs = digit(fmt.Sprintf(`[0-9]{%d}`, nFrac)).Draw(c.T, "fracd")
			text += "." + fs
		}
		e := 0
		if rapid.IntRange(0, 2).Draw(c.T, "hasexp") == 0 {
			e = rapid.OneOf(rapid.IntRange(-45, 45), rapid.IntRange(-3, 3), rapid.SampledFrom([]int{-1000, 1000, 99999})).Draw(c.T, "exp")
			text += rapid.SampledFrom([]string{"e", "E"}).Draw(c.T, "e") + rapid.SampledFrom([]string{"", "+"}).Draw(c.T, "plus")
			if e < 0 {
				text = strings.TrimSuffix(text, "+")
			}
			text += strconv.Itoa(e)
		}
		u, _ := new(big.Int).SetString("0"+is+fs, 10)
		if sign == "-" {
			u.Neg(u)
		}
		scale := len(fs) - e
		null := rapid.Bool().Draw(c.T, "null")
		c.Case(u.Sign() != 0, "%q null=%v", text, null)
		yes, no := fitDecimal(u, scale)
		l, err := literal.NewDecimalFromString(text, null)
		switch {
		case no:
			c.Label("too large")
			refused(c, l, err, "decimal_text")
			return
		case yes:
			c.Label("fits")
			c.Check(err == nil, "refused:decimal_text", "%q refused: %v", text, err)
		case err != nil:
			return
		}
		checkDecimal(c, l, u, scale, "text")
		c.Check(l.GetType().GetNullability() == types.Nullability(2-b2i(null)), "nullability", "%s", l.GetType())
		if scale >= 0 && yes {
			c.Check(int(l.GetType().(*types.DecimalType).Scale) == scale, "decimal_scale", "%q has type %s, want scale %d", text, l.GetType(), scale)
		}
		b, pr, sc, err := expr.DecimalStringToBytes(text)
		m := l.ToProtoLiteral().GetDecimal()
		c.Check(err == nil && bytes.Equal(b[:], m.Value) && pr == m.Precision && sc == m.Scale, "decimal_bytes", "DecimalStringToBytes %v %d %d %v, literal %v", b, pr, sc, err, m)
	})

	p.sub("decimal_bad_text", 600, func(c *C) {
		good := rapid.SampledFrom([]string{"1", "1.5", "-2.25", "1e5", "100", "0.001"}).Draw(c.T, "good")
		bad := rapid.SampledFrom([]string{"", "abc", ".", "+", "-", "e5", "1e", "1e+", "NaN", "Infinity", "inf", "-Inf", "0x10", "1_000", "1,5", "--1", "+-1", "1.2.3", "1 2", "1e5.5", "1e5e5", "١"}).Draw(c.T, "bad")
		if rapid.IntRange(0, 3).Draw(c.T, "mix") == 0 && bad != "" {
			bad = rapid.SampledFrom([]string{good + "x", good + " " + good, "x" + good, good + "-", good + ".." + good}).Draw(c.T, "m")
		}
		c.Case(true, "%q", bad)
		l, err := literal.NewDecimalFromString(bad, true)
		refused(c, l, err, "decimal_bad_text")
	})

	p.sub("decimal_number", 3000, func(c *C) {
		u := genDecimalUnscaled(c.T, rapid.IntRange(1, 42).Draw(c.T, "p"))
		scale := rapid.IntRange(-42, 42).Draw(c.T, "s")
		c.Case(u.Sign() != 0, "apd %s * 10^-%d", u, scale)
		d := apd.NewWithBigInt(new(apd.BigInt).SetMathBigInt(u), int32(-scale))
		if u.Sign() == 0 && rapid.Bool().Draw(c.T, "negzero") {
			d.Negative = true
		}
		before := d.Text('E')
		yes, no := fitDecimal(u, scale)
		l, err := literal.NewDecimalFromApdDecimal(d, false)
		c.Check(d.Text('E') == before, "argument_changed", "the decimal passed in changed from %s to %s", before, d.Text('E'))
		if no {
			refused(c, l, err, "decimal_number")
			return
		}
		if yes {
			c.Check(err == nil, "refused:decimal_number", "%s refused: %v", before, err)
		}
		if err == nil {
			checkDecimal(c, l, u, scale, "number")
		}
		for _, f := range []apd.Form{apd.Infinite, apd.NaN, apd.NaNSignaling} {
			x := &apd.Decimal{Form: f}
			l, err := literal.NewDecimalFromApdDecimal(x, false)
			refused(c, l, err, "decimal_not_finite")
		}
	})

	p.sub("decimal_bytes", 2000, func(c *C) {
		pr := rapid.OneOf(rapid.Int32Range(1, 38), rapid.SampledFrom([]int32{0, -1, 39, 2147483647})).Draw(c.T, "p")
		sc := rapid.OneOf(rapid.Int32Range(0, 38), rapid.SampledFrom([]int32{-1, 39})).Draw(c.T, "s")
		u := genDecimalUnscaled(c.T, int(min(max(pr, 1), 38)))
		n := rapid.SampledFrom([]int{16, 16, 16, 16, 16, 15, 17, 0, 8}).Draw(c.T, "n")
		b := le16(u)
		if n < 16 {
			b = b[:n]
		} else if n > 16 {
			b = append(b, 0)
		}
		c.Case(true, "%s %x decimal(%d,%d)", u, b, pr, sc)
		l, err := literal.NewDecimalFromTwosComplement(b, pr, sc, true)
		if n != 16 || pr < 1 || pr > 38 || sc < 0 || sc > pr {
			refused(c, l, err, "decimal_bytes")
			return
		}
		c.Check(err == nil, "refused:decimal_bytes", "refused: %v", err)
		dt := l.GetType().(*types.DecimalType)
		c.Check(dt.Precision == pr && dt.Scale == sc && dt.Nullability == 1, "decimal_bytes_type", "%s", dt)
		checkDecimal(c, l, u, int(sc), "bytes")
	})

	p.sub("decimal_with_type", 3000, func(c *C) {
		pr := rapid.Int32Range(1, 38).Draw(c.T, "p")
		sc := rapid.Int32Range(0, pr).Draw(c.T, "s")
		u := genDecimalUnscaled(c.T, int(pr))
		if z := rapid.IntRange(0, int(pr)).Draw(c.T, "zeros"); rapid.Bool().Draw(c.T, "trail") {
			u.Quo(u, pow10(z))
			u.Mul(u, pow10(z))
		}
		tp := rapid.Int32Range(1, 38).Draw(c.T, "tp")
		ts := rapid.Int32Range(0, tp).Draw(c.T, "ts")
		switch rapid.IntRange(0, 5).Draw(c.T, "edge") {
		case 0:
			u.SetInt64(0)
		case 1:
			u.SetInt64(0)
			ts = tp
		case 2:
			ts = tp
		}
		tn := types.Nullability(rapid.IntRange(1, 2).Draw(c.T, "n"))
		tv := uint32(rapid.IntRange(0, 2).Draw(c.T, "var"))
		c.Case(u.Sign() != 0, "%s decimal(%d,%d) with type decimal(%d,%d)", u, pr, sc, tp, ts)
		l, err := literal.NewDecimalFromTwosComplement(le16(u), pr, sc, false)
		c.Check(err == nil, "refused:decimal_bytes", "refused: %v", err)
		text := l.String()
		target := &types.DecimalType{Precision: tp, Scale: ts, Nullability: tn, TypeVariationRef: tv}
		w, err := l.(expr.WithTypeLiteral).WithType(target)
		c.Check(l.String() == text, "receiver_changed", "%s became %s", text, l)
		// the value at the target scale
		x, fits := new(big.Int).Set(u), true
		if ts >= sc {
			x.Mul(x, pow10(int(ts-sc)))
		} else {
			r := new(big.Int)
			x.QuoRem(x, pow10(int(sc-ts)), r)
			fits = r.Sign() == 0
		}
		fits = fits && (x.Sign() == 0 || digitsOf(x) <= int(tp))
		if !fits {
			c.Label("does not fit")
			refused(c, w, err, "decimal_with_type")
			return
		}
		c.Label("fits")
		c.Check(err == nil, "refused:decimal_with_type", "refused: %v", err)
		c.Check(w.GetType().Equals(target), "with_type_type", "type %s want %s", w.GetType(), target)
		checkDecimal(c, w, u, int(sc), "with_type")
	})

	p.sub("date", 3000, func(c *C) {
		null := rapid.Bool().Draw(c.T, "null")
		if rapid.Bool().Draw(c.T, "bydays") {
			n := int(genTD64(c.T, math.MinInt64/2, math.MaxInt64/2))
			if rapid.Bool().Draw(c.T, "small") {
				n = int(genTD64(c.T, math.MinInt32-3, math.MaxInt32+3))
			}
			c.Case(n != 0, "NewDate(%d)", n)
			l, err := literal.NewDate(n, null)
			if n < math.MinInt32 || n > math.MaxInt32 {
				refused(c, l, err, "date_range")
				return
			}
			m := litOf(c, l, err, null, "date")
			c.Check(int(m.GetDate()) == n, "date", "holds %d", m.GetDate())
			return
		}
		x := genCivil(c.T)
		text := x.date()
		if k := rapid.IntRange(0, 5).Draw(c.T, "break"); k == 0 {
			bad := rapid.SampledFrom([]string{
				fmt.Sprintf("%04d-%02d-%02d", x.Y, x.Mo, monthDays(x.Y, x.Mo)+1), fmt.Sprintf("%04d-13-01", x.Y), fmt.Sprintf("%04d-00-01", x.Y),
				fmt.Sprintf("%04d-%02d-00", x.Y, x.Mo), text + " ", text + "T00:00:00", " " + text, strings.ReplaceAll(text, "-", "/"), text[:7], "", x.clock(),
			}).Draw(c.T, "bad")
			c.Case(true, "NewDateFromString(%q)", bad)
			l, err := literal.NewDateFromString(bad, null)
			refused(c, l, err, "date_text")
			return
		}
		c.Case(true, "NewDateFromString(%q)", text)
		l, err := literal.NewDateFromString(text, null)
		m := litOf(c, l, err, null, "date_text")
		c.Check(int64(m.GetDate()) == daysFromCivil(x.Y, x.Mo, x.D), "date_text", "%s holds day %d want %d", text, m.GetDate(), daysFromCivil(x.Y, x.Mo, x.D))
	})

	p.sub("time", 3000, func(c *C) {
		null := rapid.Bool().Draw(c.T, "null")
		switch rapid.IntRange(0, 3).Draw(c.T, "route") {
		case 0:
			g := rapid.OneOf(rapid.Int32Range(-2, 61), rapid.Int32(), rapid.SampledFrom([]int32{0, 23, 24, 59, 60, math.MaxInt32, math.MinInt32}))
			h, mi, s := g.Draw(c.T, "h"), g.Draw(c.T, "m"), g.Draw(c.T, "s")
			us := rapid.OneOf(rapid.Int32Range(0, 999999), rapid.Int32()).Draw(c.T, "us")
			c.Case(true, "NewTime(%d, %d, %d, %d)", h, mi, s, us)
			want := big.NewInt(int64(h)*3600 + int64(mi)*60 + int64(s))
			want.Mul(want, big.NewInt(1000000)).Add(want, big.NewInt(int64(us)))
			l, err := literal.NewTime(h, mi, s, us, null)
			if want.Sign() < 0 || want.Cmp(big.NewInt(86400000000)) >= 0 {
				c.Label("outside the day")
				refused(c, l, err, "time_range")
				return
			}
			m := litOf(c, l, err, null, "time")
			c.Check(big.NewInt(m.GetTime()).Cmp(want) == 0, "time", "holds %d want %s", m.GetTime(), want)
		case 1:
			us := genTD64(c.T, math.MinInt64, math.MaxInt64)
			if rapid.Bool().Draw(c.T, "near") {
				us = rapid.SampledFrom([]int64{-1, 0, 1, 86399999999, 86400000000, 86400000001}).Draw(c.T, "us")
			}
			c.Case(true, "NewTimeFromMicros(%d)", us)
			l, err := literal.NewTimeFromMicros(us, null)
			if us < 0 || us >= 86400000000 {
				refused(c, l, err, "time_micros_range")
				return
			}
			m := litOf(c, l, err, null, "time")
			c.Check(m.GetTime() == us, "time_micros", "holds %d want %d", m.GetTime(), us)
		case 2:
			x := genCivil(c.T)
			c.Case(true, "NewTimeFromString(%q)", x.clock())
			l, err := literal.NewTimeFromString(x.clock(), null)
			m := litOf(c, l, err, null, "time_text")
			want := units(x.nanosOfDay(), 6)
			c.Check(big.NewInt(m.GetTime()).Cmp(want) == 0, "time_text", "%s holds %d want %s", x.clock(), m.GetTime(), want)
		case 3:
			bad := rapid.SampledFrom([]string{"", "12", "12:30", "24:00:00", "12:60:00", "12:00:60", "-1:00:00", "12:00:00x", "x", "12:00:00.", "1:2", "2020-01-01", "12.5"}).Draw(c.T, "bad")
			c.Case(true, "NewTimeFromString(%q)", bad)
			l, err := literal.NewTimeFromString(bad, null)
			refused(c, l, err, "time_text")
			l, err = literal.NewPrecisionTimeFromString(types.PrecisionMicroSeconds, bad, null)
			refused(c, l, err, "precision_time_text")
		}
	})

	p.sub("precision_time", 2500, func(c *C) {
		null := rapid.Bool().Draw(c.T, "null")
		pr := rapid.Int32Range(0, 9).Draw(c.T, "p")
		x := genCivil(c.T)
		want := units(x.nanosOfDay(), pr)
		var l expr.Literal
		var err error
		switch rapid.IntRange(0, 2).Draw(c.T, "route") {
		case 0:
			c.Case(true, "NewPrecisionTimeFromString(%d, %q)", pr, x.clock())
			l, err = literal.NewPrecisionTimeFromString(types.TimePrecision(pr), x.clock(), null)
		case 1:
			x.Off = 0
			tm := x.goTime(c.T)
			c.Case(true, "NewPrecisionTimeFromTime(%d, %s)", pr, tm)
			l, err = literal.NewPrecisionTimeFromTime(types.TimePrecision(pr), tm.UTC(), null)
		case 2:
			c.Case(true, "NewPrecisionTime(%d, %s)", pr, want)
			l, err = literal.NewPrecisionTime(types.TimePrecision(pr), want.Int64(), null)
		}
		m := litOf(c, l, err, null, "precision_time").GetPrecisionTime()
		c.Check(m != nil && m.Precision == pr && big.NewInt(m.Value).Cmp(want) == 0, "precision_time", "holds %v want %s at %d", m, want, pr)
	})

	p.sub("timestamp", 5000, func(c *C) {
		null := rapid.Bool().Draw(c.T, "null")
		pr := rapid.Int32Range(0, 9).Draw(c.T, "p")
		which := rapid.SampledFrom([]string{"timestamp", "timestamp_tz", "precision_timestamp", "precision_timestamp_tz"}).Draw(c.T, "kind")
		if which == "timestamp" || which == "timestamp_tz" {
			pr = 6
		}
		var nanos *big.Int
		var l expr.Literal
		var err error
		tp := types.TimePrecision(pr)
		route := rapid.IntRange(0, 2).Draw(c.T, "route")
		if route == 0 {
			x := genCivil(c.T)
			nanos = x.nanos()
			c.Case(true, "%s<%d> from %q", which, pr, x.text())
			switch which {
			case "timestamp":
				l, err = literal.NewTimestampFromString(x.text(), null)
			case "timestamp_tz":
				l, err = literal.NewTimestampTZFromString(x.text(), null)
			case "precision_timestamp":
				l, err = literal.NewPrecisionTimestampFromString(tp, x.text(), null)
			case "precision_timestamp_tz":
				l, err = literal.NewPrecisionTimestampTzFromString(tp, x.text(), null)
			}
		} else if route == 1 {
			sec := rapid.OneOf(rapid.Int64Range(-62135596800, 253402300799), rapid.Int64Range(-100, 100), rapid.Int64Range(-1e16, 1e16),
				rapid.SampledFrom([]int64{9223372036, -9223372037, 9223372037, 9223372036854, -9223372036855, 9223372036855})).Draw(c.T, "sec")
			ns := rapid.OneOf(rapid.Int64Range(0, 999999999), rapid.SampledFrom([]int64{0, 1, 999999999, 500000000, 854775807, 854775808})).Draw(c.T, "ns")
			nanos = new(big.Int).Add(new(big.Int).Mul(big.NewInt(sec), pow10(9)), big.NewInt(ns))
			tm := time.Unix(sec, ns).In(time.FixedZone("x", rapid.SampledFrom([]int{0, 3600, -7200, 45}).Draw(c.T, "zone")))
			c.Case(true, "%s<%d> from time %d.%09d", which, pr, sec, ns)
			switch which {
			case "timestamp":
				l, err = literal.NewTimestamp(tm, null)
			case "timestamp_tz":
				l, err = literal.NewTimestampTZ(tm, null)
			case "precision_timestamp":
				l, err = literal.NewPrecisionTimestampFromTime(tp, tm, null)
			case "precision_timestamp_tz":
				l, err = literal.NewPrecisionTimestampTzFromTime(tp, tm, null)
			}
		} else {
			n := genTD64(c.T, math.MinInt64, math.MaxInt64)
			nanos = new(big.Int).Mul(big.NewInt(n), pow10(9-int(pr)))
			c.Case(true, "%s<%d> from %d", which, pr, n)
			switch which {
			case "timestamp":
				l, err = literal.NewTimestampFromMicros(n, null)
			case "timestamp_tz":
				l, err = literal.NewTimestampTZFromMicros(n, null)
			case "precision_timestamp":
				l, err = literal.NewPrecisionTimestamp(tp, n, null)
			case "precision_timestamp_tz":
				l, err = literal.NewPrecisionTimestampTz(tp, n, null)
			}
		}
		want := units(nanos, pr)
		if !fitsInt64(want) {
			c.Label("out of range")
			refused(c, l, err, "timestamp_range:"+which)
			return
		}
		m := litOf(c, l, err, null, which)
		var got int64
		gp := pr
		switch which {
		case "timestamp":
			got = m.GetTimestamp()
		case "timestamp_tz":
			got = m.GetTimestampTz()
		case "precision_timestamp":
			got, gp = m.GetPrecisionTimestamp().GetValue(), m.GetPrecisionTimestamp().GetPrecision()
		case "precision_timestamp_tz":
			got, gp = m.GetPrecisionTimestampTz().GetValue(), m.GetPrecisionTimestampTz().GetPrecision()
		}
		c.Check(big.NewInt(got).Cmp(want) == 0 && gp == pr, "value:"+which, "holds %d at precision %d, want %s at %d", got, gp, want, pr)
	})

	p.sub("timestamp_bad", 600, func(c *C) {
		x := genCivil(c.T)
		d, k := x.date(), x.clock()
		bad := rapid.SampledFrom([]string{"", d, k, d + "T", d + "T24:00:00", d + "T12:61:00", d + "T" + k + "X", d + "T" + k + "+25:00", "x" + d + "T" + k,
			fmt.Sprintf("%04d-%02d-%02dT%s", x.Y, x.Mo, monthDays(x.Y, x.Mo)+1, k), fmt.Sprintf("%04d-13-01T%s", x.Y, k), d + " " + k, d + "T12", d + "T1x:00:00"}).Draw(c.T, "bad")
		c.Case(true, "%q", bad)
		l, err := literal.NewTimestampFromString(bad, true)
		refused(c, l, err, "timestamp_text")
		l, err = literal.NewTimestampTZFromString(bad, true)
		refused(c, l, err, "timestamp_tz_text")
		l, err = literal.NewPrecisionTimestampFromString(3, bad, true)
		refused(c, l, err, "precision_timestamp_text")
		l, err = literal.NewPrecisionTimestampTzFromString(3, bad, true)
		refused(c, l, err, "precision_timestamp_tz_text")
		pr := types.TimePrecision(rapid.SampledFrom([]int32{-1, 10, 11, 99, math.MaxInt32, math.MinInt32}).Draw(c.T, "prec"))
		v := rapid.Int64Range(0, 1000).Draw(c.T, "v")
		for i, f := range []func(types.TimePrecision, int64, bool) (expr.Literal, error){literal.NewPrecisionTime, literal.NewPrecisionTimestamp, literal.NewPrecisionTimestampTz} {
			l, err := f(pr, v, false)
			refused(c, l, err, fmt.Sprintf("precision_%d", i))
		}
		for i, f := range []func(types.TimePrecision, time.Time, bool) (expr.Literal, error){literal.NewPrecisionTimeFromTime, literal.NewPrecisionTimestampFromTime, literal.NewPrecisionTimestampTzFromTime} {
			c.NoPanic("from time", func() {
				l, err := f(pr, time.Unix(v, 0).UTC(), false)
				refused(c, l, err, fmt.Sprintf("precision_time_%d", i))
			})
		}
	})

	p.sub("precision_with_type", 2500, func(c *C) {
		kind := rapid.SampledFrom([]string{"precision_time", "precision_timestamp", "precision_timestamp_tz"}).Draw(c.T, "kind")
		d := &TD{Kind: kind, Null: 1 + rapid.IntRange(0, 1).Draw(c.T, "n"), P: rapid.Int32Range(0, 9).Draw(c.T, "p")}
		v := genLV(c.T, d)
		if v.Null {
			v = &LV{T: d, I: 5}
		}
		to := &TD{Kind: kind, Null: 1 + rapid.IntRange(0, 1).Draw(c.T, "tn"), P: rapid.Int32Range(0, 9).Draw(c.T, "tp"), Var: uint32(rapid.IntRange(0, 2).Draw(c.T, "tv"))}
		if rapid.IntRange(0, 8).Draw(c.T, "badp") == 0 {
			to.P = rapid.SampledFrom([]int32{-1, 10, 100}).Draw(c.T, "bp")
		}
		c.Case(v.I != 0, "%s with type %s", v, to)
		l := v.lit()
		text := l.String()
		var w expr.Literal
		var err error
		c.NoPanic("WithType", func() { w, err = l.(expr.WithTypeLiteral).WithType(to.build()) })
		c.Check(l.String() == text, "receiver_changed", "%s became %s", text, l)
		if to.P < 0 || to.P > 9 {
			refused(c, w, err, "precision_with_type")
			return
		}
		want := units(new(big.Int).Mul(big.NewInt(v.I), pow10(9-int(d.P))), to.P)
		if !fitsInt64(want) {
			refused(c, w, err, "precision_with_type_range")
			return
		}
		c.Check(err == nil, "refused:precision_with_type", "refused: %v", err)
		sameLit(c, w, (&LV{T: to, I: want.Int64()}).lit(), "precision_with_type")
	})

	p.sub("interval_year", 2500, func(c *C) {
		null := rapid.Bool().Draw(c.T, "null")
		y, m := genTD64(c.T, math.MinInt32-2, math.MaxInt32+2), genTD64(c.T, math.MinInt32-2, math.MaxInt32+2)
		hasY, hasM := rapid.Bool().Draw(c.T, "hasy"), rapid.Bool().Draw(c.T, "hasm")
		text := "P"
		plus := rapid.SampledFrom([]string{"", "", "+"}).Draw(c.T, "plus")
		num := func(v int64) string {
			if v >= 0 {
				return plus + itoa(v)
			}
			return itoa(v)
		}
		if hasY {
			text += num(y) + "Y"
		} else {
			y = 0
		}
		if hasM {
			text += num(m) + "M"
		} else {
			m = 0
		}
		bad := !hasY && !hasM || y != int64(int32(y)) || m != int64(int32(m))
		if rapid.IntRange(0, 6).Draw(c.T, "break") == 0 {
			bad = true
			text = rapid.SampledFrom([]string{text + "X", "X" + text, strings.TrimPrefix(text, "P"), text + "1", text + "T", "P1M2Y", "P1.5Y", "PY", "PM", "P1Y2", "", "P 1Y", "P1Y 2M", "p1y", "P1Y1D", "P--1Y"}).Draw(c.T, "bad")
		}
		c.Case(true, "NewIntervalYearsToMonthFromString(%q)", text)
		l, err := literal.NewIntervalYearsToMonthFromString(text, null)
		if bad {
			refused(c, l, err, "interval_year_text")
		} else {
			x := litOf(c, l, err, null, "interval_year_text").GetIntervalYearToMonth()
			c.Check(x != nil && int64(x.Years) == y && int64(x.Months) == m, "interval_year_text", "%q holds %v want %d %d", text, x, y, m)
			l, err = literal.NewIntervalYearsToMonth(int32(y), int32(m), null)
			x = litOf(c, l, err, null, "interval_year").GetIntervalYearToMonth()
			c.Check(x != nil && int64(x.Years) == y && int64(x.Months) == m, "interval_year", "holds %v want %d %d", x, y, m)
		}
	})

	p.sub("interval_day", 4000, func(c *C) {
		null := rapid.Bool().Draw(c.T, "null")
		if rapid.IntRange(0, 4).Draw(c.T, "direct") == 0 {
			d, s := int32(genTD64(c.T, math.MinInt32, math.MaxInt32)), int32(genTD64(c.T, math.MinInt32, math.MaxInt32))
			us := genTD64(c.T, math.MinInt64, math.MaxInt64)
			c.Case(true, "NewIntervalDaysToSecond(%d, %d, %d)", d, s, us)
			l, err := literal.NewIntervalDaysToSecond(d, s, us, null)
			x := litOf(c, l, err, null, "interval_day").GetIntervalDayToSecond()
			c.Check(x.GetDays() == d && x.GetSeconds() == s && x.GetSubseconds() == us && x.GetPrecision() == 6, "interval_day", "holds %v", x)
			c.Check(l.GetType().Equals((&TD{Kind: "interval_day", P: 6, Null: 2 - b2i(null)}).build()), "interval_day_type", "type %s", l.GetType())
			return
		}
		g := rapid.OneOf(rapid.Int64Range(0, 100), rapid.Int64Range(0, math.MaxInt32+2), rapid.SampledFrom([]int64{0, 1, 59, 60, math.MaxInt32, math.MaxInt32 + 1, 596523, 35791394}))
		text := "P"
		d, total := int64(0), int64(0)
		big1 := false
		num := func(n int64) string {
			if n > math.MaxInt32 {
				big1 = true
			}
			return rapid.SampledFrom([]string{"", "", "0", "00"}).Draw(c.T, "pad") + itoa(n)
		}
		hasD := rapid.Bool().Draw(c.T, "hasd")
		if hasD {
			d = g.Draw(c.T, "d")
			text += num(d) + "D"
		}
		var tt string
		if rapid.Bool().Draw(c.T, "hash") {
			h := g.Draw(c.T, "h")
			tt += num(h) + "H"
			total += h * 3600
		}
		if rapid.Bool().Draw(c.T, "hasm") {
			m := g.Draw(c.T, "m")
			tt += num(m) + "M"
			total += m * 60
		}
		frac := ""
		if rapid.Bool().Draw(c.T, "hass") {
			s := g.Draw(c.T, "s")
			total += s
			tt += num(s)
			if n := rapid.IntRange(0, 10).Draw(c.T, "nfrac"); n > 0 {
				frac = rapid.StringMatching(fmt.Sprintf(`[0-9]{%d}`, n)).Draw(c.T, "frac")
				tt += "." + frac
			}
			tt += "S"
		}
		if tt != "" {
			text += "T" + tt
		}
		none := text == "P"
		broken := false
		if rapid.IntRange(0, 7).Draw(c.T, "break") == 0 {
			broken = true
			text = rapid.SampledFrom([]string{text + "x", "x" + text, strings.TrimPrefix(text, "P"), text + "5", "P1DT", "PT", "PTS", "PT.S", "PD", "PT5", "P5", "PT5S5M", "PT1.5H", "P1YT5S", "", "PT5.S", "P1H", "PT1D"}).Draw(c.T, "bad")
		}
		c.Case(true, "NewIntervalDaysToSecondFromString(%q)", text)
		l, err := literal.NewIntervalDaysToSecondFromString(text, null)
		sig := strings.TrimRight(frac, "0")
		switch {
		case broken || none:
			refused(c, l, err, "interval_day_text")
			return
		case d > math.MaxInt32 || len(sig) > 9:
			refused(c, l, err, "interval_day_range")
			return
		case big1 || total > math.MaxInt32 || len(frac) > 9:
			if err != nil {
				c.Label("large")
				return
			}
		}
		x := litOf(c, l, err, null, "interval_day_text").GetIntervalDayToSecond()
		it, ok := l.GetType().(*types.IntervalDayType)
		c.Check(ok && int32(it.Precision) == x.GetPrecision() && x.GetPrecision() >= 0 && x.GetPrecision() <= 9, "interval_day_precision", "type %s value %v", l.GetType(), x)
		f := new(big.Int)
		if sig != "" {
			f.SetString(sig, 10)
			f.Mul(f, pow10(9-len(sig)))
		}
		want := new(big.Int).Add(new(big.Int).Mul(big.NewInt(total), pow10(9)), f)
		got := new(big.Int).Mul(big.NewInt(int64(x.GetSeconds())), pow10(9))
		got.Add(got, new(big.Int).Mul(big.NewInt(x.GetSubseconds()), pow10(9-int(x.GetPrecision()))))
		c.Check(int64(x.GetDays()) == d && got.Cmp(want) == 0, "interval_day_value", "%q holds %v, want %d days %s ns", text, x, d, want)
	})

	p.sub("interval_day_with_type", 2000, func(c *C) {
		d := &TD{Kind: "interval_day", Null: 1 + rapid.IntRange(0, 1).Draw(c.T, "n"), P: rapid.Int32Range(0, 9).Draw(c.T, "p")}
		v := &LV{T: d}
		v.genDay(c.T)
		if d.P == 6 {
			v.Mode = rapid.IntRange(0, 2).Draw(c.T, "mode")
			if v.Mode == 1 {
				v.Sub = int64(int32(v.Sub))
			}
		}
		to := &TD{Kind: "interval_day", Null: 1 + rapid.IntRange(0, 1).Draw(c.T, "tn"), P: rapid.Int32Range(0, 9).Draw(c.T, "tp"), Var: uint32(rapid.IntRange(0, 2).Draw(c.T, "tv"))}
		c.Case(true, "%s with type %s", v, to)
		l := v.lit()
		text := l.String()
		w, err := l.(expr.WithTypeLiteral).WithType(to.build())
		c.Check(l.String() == text, "receiver_changed", "%s became %s", text, l)
		sub := new(big.Int).Mul(big.NewInt(v.Sub), pow10(9))
		sub.Quo(sub, pow10(9+int(d.P)-int(to.P))) // toward zero
		if !fitsInt64(sub) {
			refused(c, w, err, "interval_day_with_type_range")
			return
		}
		c.Check(err == nil, "refused:interval_day_with_type", "refused: %v", err)
		sameLit(c, w, (&LV{T: to, Dy: v.Dy, Sec: v.Sec, Sub: sub.Int64()}).lit(), "interval_day_with_type")
	})

	p.sub("bytes_and_text", 3000, func(c *C) {
		null := rapid.Bool().Draw(c.T, "null")
		wn := types.Nullability(2 - b2i(null))
		s := genRunes(c.T, rapid.IntRange(0, 8).Draw(c.T, "n"))
		runes := int32(len([]rune(s)))
		b := rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(c.T, "b")
		if rapid.Bool().Draw(c.T, "sixteen") {
			b = append(b, make([]byte, 16)...)[:16]
		}
		c.Case(len(s) > 0 || len(b) > 0, "%q %x", s, b)
		l, err := literal.NewFixedChar(s, null)
		m := litOf(c, l, err, null, "fixedchar")
		c.Check(m.GetFixedChar() == s && l.GetType().Equals(&types.FixedCharType{Length: runes, Nullability: wn}), "fixedchar", "%v %s", m, l.GetType())
		l, err = literal.NewVarChar(s, null)
		m = litOf(c, l, err, null, "varchar")
		c.Check(m.GetVarChar().GetValue() == s && m.GetVarChar().GetLength() == uint32(runes) && l.GetType().Equals(&types.VarCharType{Length: runes, Nullability: wn}), "varchar", "%v %s", m, l.GetType())
		tl := rapid.Int32Range(0, 10).Draw(c.T, "target")
		w, err := l.(expr.WithTypeLiteral).WithType(&types.VarCharType{Length: tl, Nullability: wn, TypeVariationRef: 3})
		if tl < runes {
			refused(c, w, err, "varchar_with_type")
		} else {
			c.Check(err == nil, "varchar_with_type", "refused: %v", err)
			sameLit(c, w, (&LV{T: &TD{Kind: "varchar", Null: int(wn), Var: 3, P: tl}, S: s}).lit(), "varchar_with_type")
		}
		l, err = literal.NewFixedBinary(b, null)
		m = litOf(c, l, err, null, "fixedbinary")
		c.Check(bytes.Equal(m.GetFixedBinary(), b) && l.GetType().Equals(&types.FixedBinaryType{Length: int32(len(b)), Nullability: wn}), "fixedbinary", "%v %s", m, l.GetType())
		// a binary value asked to be a fixed binary or a uuid must have its length
		bin, err := expr.NewLiteral(b, null)
		c.Check(err == nil && bytes.Equal(bin.ToProtoLiteral().GetBinary(), b), "binary", "%v %v", bin, err)
		fl := rapid.SampledFrom([]int{len(b), len(b), len(b) + 1, len(b) - 1, 0}).Draw(c.T, "fl")
		w, err = bin.(expr.WithTypeLiteral).WithType(&types.FixedBinaryType{Length: int32(fl), Nullability: wn})
		if fl < len(b) {
			refused(c, w, err, "fixedbinary_with_type")
		} else if fl == len(b) {
			c.Check(err == nil, "refused:fixedbinary_with_type", "%v", err)
			sameLit(c, w, l, "fixedbinary_with_type")
		}
		w, err = bin.(expr.WithTypeLiteral).WithType(&types.UUIDType{Nullability: wn})
		l, err2 := literal.NewUUIDFromBytes(b, null)
		if len(b) != 16 {
			refused(c, w, err, "uuid_with_type")
			refused(c, l, err2, "uuid_bytes")
		} else {
			c.Check(err == nil, "refused:uuid_with_type", "%v", err)
			m = litOf(c, l, err2, null, "uuid")
			c.Check(bytes.Equal(m.GetUuid(), b), "uuid", "%v", m)
			sameLit(c, l, w, "uuid")
			l, err = literal.NewUUID(uuid.UUID(b), null)
			sameLit(c, l, w, "uuid2")
		}
		fc, err := literal.NewFixedChar(s, null)
		c.Check(err == nil, "fixedchar", "%v", err)
		cl := rapid.SampledFrom([]int32{runes, runes, runes + 1, max(runes-1, 0)}).Draw(c.T, "cl")
		w, err = fc.(expr.WithTypeLiteral).WithType(&types.FixedCharType{Length: cl, Nullability: wn})
		if cl < runes {
			refused(c, w, err, "fixedchar_with_type")
		} else if err == nil {
			c.Check(w.ToProtoLiteral().GetFixedChar() == s, "fixedchar_with_type_value", "%s", w)
		} else {
			c.Check(cl != runes, "refused:fixedchar_with_type", "%v", err)
		}
	})

	p.sub("plain", 2000, func(c *C) {
		null := rapid.Bool().Draw(c.T, "null")
		i := rapid.Int64().Draw(c.T, "i")
		f := rapid.Float64().Draw(c.T, "f")
		s := rapid.String().Draw(c.T, "s")
		c.Case(i != 0, "%d %g %q", i, f, s)
		n := 2 - b2i(null)
		for _, x := range []struct {
			l expr.Literal
			v *LV
		}{
			{literal.NewBool(i&1 == 1, null), &LV{T: &TD{Kind: "boolean", Null: n}, I: i & 1}},
			{literal.NewInt8(int8(i), null), &LV{T: &TD{Kind: "i8", Null: n}, I: int64(int8(i))}},
			{literal.NewInt16(int16(i), null), &LV{T: &TD{Kind: "i16", Null: n}, I: int64(int16(i))}},
			{literal.NewInt32(int32(i), null), &LV{T: &TD{Kind: "i32", Null: n}, I: int64(int32(i))}},
			{literal.NewInt64(i, null), &LV{T: &TD{Kind: "i64", Null: n}, I: i}},
			{literal.NewFloat32(float32(f), null), &LV{T: &TD{Kind: "fp32", Null: n}, F: float64(float32(f))}},
			{literal.NewFloat64(f, null), &LV{T: &TD{Kind: "fp64", Null: n}, F: f}},
			{literal.NewString(s, null), &LV{T: &TD{Kind: "string", Null: n}, S: s}},
		} {
			sameLit(c, x.l, x.v.lit(), "plain:"+x.v.T.Kind)
			c.Check(protoEq(x.l.ToProtoLiteral(), x.v.proto()), "plain_proto:"+x.v.T.Kind, "%v want %v", x.l.ToProtoLiteral(), x.v.proto())
		}
	})

	p.sub("nested", 2000, func(c *C) {
		null := rapid.Bool().Draw(c.T, "null")
		n := rapid.IntRange(0, 3).Draw(c.T, "n")
		et := genLitTD(c.T, typeGenOpts{depth: 1, noFunc: true, noUnspec: true, decimalOK: true})
		kt := genLitTD(c.T, typeGenOpts{depth: 0, noFunc: true, noUnspec: true, decimalOK: true})
		lv := &LV{T: &TD{Kind: "list", Null: 2 - b2i(null), Kids: []*TD{et}}}
		mv := &LV{T: &TD{Kind: "map", Null: 2 - b2i(null), Kids: []*TD{kt, et}}}
		for i := 0; i < n; i++ {
			lv.Kids = append(lv.Kids, genLV(c.T, et))
			mv.Kids = append(mv.Kids, genLV(c.T, kt), lv.Kids[i])
		}
		c.Case(n > 0, "%s %s", lv, mv)
		entries := mv.lit().(*expr.MapLiteral).Value
		l, err := literal.NewList(lvLits(lv.Kids), null)
		m, err2 := literal.NewMap(entries, null)
		if n == 0 {
			refused(c, l, err, "empty_list")
			refused(c, m, err2, "empty_map")
			l, err = literal.NewEmptyList(et.build(), null)
			m, err2 = literal.NewEmptyMap(kt.build(), et.build(), null)
		}
		c.Check(err == nil && err2 == nil, "refused:nested", "%v %v", err, err2)
		sameLit(c, l, lv.lit(), "list")
		sameLit(c, m, mv.lit(), "map")
		if n == 0 {
			l, err = literal.NewEmptyList(nil, null)
			refused(c, l, err, "empty_list_nil")
			return
		}
		// one odd element out
		other := et.clone()
		switch rapid.IntRange(0, 2).Draw(c.T, "odd") {
		case 0:
			other.Null = 3 - other.Null
		case 1:
			other.Var++
		case 2:
			other = &TD{Kind: "struct", Null: 2, Kids: []*TD{et}}
		}
		odd := genLV(c.T, other)
		at := rapid.IntRange(0, n).Draw(c.T, "at")
		els := lvLits(lv.Kids)
		els = append(els[:at:at], append([]expr.Literal{odd.lit()}, els[at:]...)...)
		l, err = literal.NewList(els, null)
		refused(c, l, err, "mixed_list")
		for k := rapid.IntRange(1, 24).Draw(c.T, "late"); len(els) < k; {
			els = append(lvLits(lv.Kids), els...)
		}
		l, err = literal.NewList(els, null)
		refused(c, l, err, "mixed_list")
		els = els[len(els)-n-1:]
		ents := append(expr.MapLiteralValue{}, entries...)
		for k := rapid.IntRange(1, 24).Draw(c.T, "mlate"); len(ents) < k; {
			ents = append(ents, entries...)
		}
		e := ents[0]
		e.Value = odd.lit()
		ents = append(ents, e)
		l, err = literal.NewMap(ents, null)
		refused(c, l, err, "mixed_map")
		els[at] = nil
		l, err = literal.NewList(els, null)
		refused(c, l, err, "nil_in_list")
	})

	p.sub("user_defined", 1500, func(c *C) {
		// a struct of any literals with any type parameters
		d := &TD{Kind: "udt", Null: 1 + rapid.IntRange(0, 1).Draw(c.T, "null"), Ref: rapid.SampledFrom([]uint32{0, 1, 2, 7, 1 << 20, 1<<32 - 1}).Draw(c.T, "ref")}
		for i := rapid.IntRange(0, 3).Draw(c.T, "params"); i > 0; i-- {
			d.Params = append(d.Params, genTPD(c.T, typeGenOpts{depth: 1, noUnspec: true}))
		}
		v := &LV{T: d, Mode: 1}
		for i := rapid.IntRange(0, 5).Draw(c.T, "fields"); i > 0; i-- {
			v.Kids = append(v.Kids, genLV(c.T, genLitTD(c.T, typeGenOpts{depth: 1, noFunc: true, noUnspec: true, decimalOK: true})))
		}
		c.Case(len(d.Params) > 0 && len(v.Kids) > 0, "%s", v)
		fields := expr.StructLiteralValue(lvLits(v.Kids))
		l, err := literal.NewUserDefinedLiteral(d.Ref, fields, d.Null == 1, d.build().(*types.UserDefinedType).TypeParameters)
		c.Check(err == nil && l != nil, "refused:user_defined", "%s: %v", v, err)
		sameLit(c, l, v.lit(), "user_defined")
		c.Check(protoEq(l.ToProtoLiteral(), v.proto()), "write:user_defined", "%s writes %v", v, l.ToProtoLiteral())
		c.Check(protoEq(fields.ToProto(), v.proto().GetUserDefined().GetStruct()), "fields:user_defined", "%s has fields %v", v, fields.ToProto())
		back := expr.StructLiteralFromProto(fields.ToProto())
		c.Check(len(back) == len(fields), "fields:user_defined", "%s has fields %v", v, back)
		for i := range back {
			sameLit(c, back[i], fields[i], "user_defined_field")
		}
	})
}

func (x civil) goTime(t *rapid.T) time.Time {
	n := x.nanos()
	q, r := new(big.Int).DivMod(n, pow10(9), new(big.Int))
	return time.Unix(q.Int64(), r.Int64())
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}
