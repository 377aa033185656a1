package pbt

import (
	"fmt"
	"math/big"
	"strings"

	"pgregory.net/rapid"
)

// Malformed files: pairs of texts of which one is well-formed and the other is not, differing in one place.

// sMisfit is a literal which is no value of the type: a spelling, and whether single-argument columns hold it all the same.
func sMisfit(t *rapid.T, d *TD, v *sVal) (string, bool) {
	big1 := func(bits uint) string {
		x := new(big.Int).Lsh(big.NewInt(1), bits)
		if pct(t, 50) {
			x.Add(x, big.NewInt(int64(pick(t, 1000))))
		} else {
			x.Lsh(x, uint(pick(t, 60)))
		}
		if pct(t, 50) {
			return "-" + x.Add(x, big.NewInt(1)).String()
		}
		return x.String()
	}
	badDate := func() string {
		y := []int{1900, 1999, 2000, 2023, 2024}[pick(t, 5)]
		feb := 30
		if y != 2000 && y != 2024 {
			feb = 29 + pick(t, 3)
		}
		return []string{fmt.Sprintf("%04d-13-01", y), fmt.Sprintf("%04d-00-10", y), fmt.Sprintf("%04d-02-%02d", y, feb), fmt.Sprintf("%04d-04-31", y),
			fmt.Sprintf("%04d-01-32", y), fmt.Sprintf("%04d-01-00", y), fmt.Sprintf("%04d-99-99", y)}[pick(t, 7)]
	}
	badClock := func() string {
		return []string{"24:00:00", "25:01:02", "12:60:00", "12:59:60", "99:00:00", "23:59:99", "24:00:00.1"}[pick(t, 7)]
	}
	badStamp := func() string {
		if pct(t, 50) {
			return badDate() + "T10:11:12"
		}
		return "2001-02-03T" + badClock()
	}
	switch d.Kind {
	case "i8":
		return big1(7), false
	case "i16":
		return big1(15), false
	case "i32":
		return big1(31), false
	case "i64":
		return big1(63), false
	case "fp32":
		return []string{"3.5e38", "-1e39", "1e400", "340282366920938463463374607431768211456"}[pick(t, 4)], false
	case "fp64":
		return []string{"1.8e308", "-1e309", "1e4000"}[pick(t, 3)], false
	case "decimal":
		if pct(t, 50) && d.S < 38 { // a digit beyond the scale
			s := sDecText(t, genDecimalUnscaled(t, int(d.P)), int(d.S))
			i := strings.IndexByte(s, '.')
			if i < 0 {
				s, i = s+".", len(s)
			}
			return s + strings.Repeat("0", max(0, int(d.S)-(len(s)-i-1))) + fmt.Sprint(1+pick(t, 9)), false
		}
		u := new(big.Int).Set(pow10(int(d.P))) // a digit beyond the precision
		if pct(t, 50) {
			u.Add(u, genDecimalUnscaled(t, int(d.P)).Abs(genDecimalUnscaled(t, int(d.P))))
		}
		if pct(t, 50) {
			u.Neg(u)
		}
		s := u.String()
		if d.S > 0 {
			s = sDecText(t, u, int(d.S))
		}
		return s, false
	case "fixedchar", "varchar", "fixedbinary":
		if d.P > 100 {
			return "", false
		}
		s := genRaw(t, int(d.P), false, d.Kind == "fixedbinary")
		for len([]rune(s)) <= int(d.P) {
			if d.Kind == "fixedbinary" && pct(t, 50) && len(s) <= int(d.P) {
				s += "é"
				if len(s) > int(d.P) {
					break
				}
				continue
			}
			s += []string{"x", "é", "😄", " "}[pick(t, 4)]
		}
		if sIsShaped(s) || strings.Count(s, `\`) > 0 {
			s = strings.Repeat("y", int(d.P)+1)
		}
		return "'" + s + "'", false
	case "date":
		return "'" + badDate() + "'", false
	case "time", "precision_time":
		return "'" + badClock() + "'", false
	case "timestamp":
		return "'" + badStamp() + "'", false
	case "timestamp_tz":
		return "'" + badStamp() + "+00:00'", false
	case "precision_timestamp", "precision_timestamp_tz":
		s, plain := badStamp(), false
		if d.P == 9 && pct(t, 30) {
			s, plain = []string{"2300-01-01T00:00:00", "1600-01-01T00:00:00", "9999-12-31T23:59:59"}[pick(t, 3)], true
		}
		if d.Kind == "precision_timestamp_tz" {
			s += "-05:00"
		}
		return "'" + s + "'", plain
	case "interval_year":
		return []string{"'P2147483648Y'", "'P1Y2147483648M'", "'P-2147483649M'", "'P99999999999999999999Y'"}[pick(t, 4)], false
	case "interval_day":
		return []string{"'P2147483648D'", "'PT2147483648S'", "'P1DT596524H'", "'PT99999999999999999999M'"}[pick(t, 4)], false
	}
	return "", false
}

// sMistoken is a literal of another kind than the type. cell: for table cells and list elements, where any text is text.
func sMistoken(t *rapid.T, d *TD, cell bool) string {
	class := map[string]string{"boolean": "bool", "i8": "int", "i16": "int", "i32": "int", "i64": "int", "fp32": "num", "fp64": "num", "decimal": "num",
		"string": "str", "fixedchar": "str", "varchar": "str", "fixedbinary": "str", "binary": "str", "date": "date", "time": "time", "precision_time": "time",
		"timestamp": "ts", "precision_timestamp": "ts", "timestamp_tz": "tstz", "precision_timestamp_tz": "tstz", "interval_year": "iy", "interval_day": "id"}[d.Kind]
	for {
		k := []string{"bool", "int", "num", "str", "date", "time", "ts", "tstz", "iy", "id"}[pick(t, 10)]
		if k == class || k == "int" && class == "num" || cell && class == "str" && k != "bool" && k != "int" && k != "num" {
			continue
		}
		return map[string]string{"bool": "true", "int": "1", "num": "1.5", "str": "'q'", "date": "'2001-02-03'", "time": "'01:02:03'", "ts": "'2001-02-03T04:05:06'",
			"tstz": "'2001-02-03T04:05:06+00:00'", "iy": "'P1Y'", "id": "'P1D'"}[k]
	}
}

// sPlace puts a value into a case. Places 2 to 6 are cells and elements.
func sPlace(i, place int, typ, val string, good []string) (agg bool, text string) {
	vals := append([]string{}, good...)
	vals = append(vals[:i], append([]string{val}, vals[i:]...)...)
	list := strings.Join(vals, ", ")
	rows := "(" + strings.Join(vals, "), (") + ")"
	switch place {
	case 0:
		return false, "fn(1::i8, " + val + "::" + typ + ") = true::bool"
	case 1:
		return false, "fn(1::i8) [o1:x] = " + val + "::" + typ
	case 2:
		return false, "fn([" + list + "]::list<" + typ + ">, 1::i8) = true::bool"
	case 3:
		return false, "fn(1::i8) = [[" + list + "], []]::list<list<" + typ + ">>"
	case 4:
		return true, "fn((" + list + ")::" + typ + ") = 1::i8"
	case 5:
		return true, "DEFINE t1(" + typ + ") = (" + rows + ")\nfn(t1.col0) = 1::i8"
	case 6:
		return true, "(" + rows + ") fn(col0::" + typ + ") = 1::i8"
	case 7:
		return true, "((1), (2)) fn(col0::i8, " + val + "::" + typ + ") = 1::i8"
	default:
		return true, "DEFINE t1(i8) = ((1), (2))\nfn(t1.col0, " + val + "::" + typ + ") = 1::i8"
	}
}

// sFault is a well-formed text and a malformed one which differs from it. whole: they are whole files.
func sFault(c *C) (what string, agg, whole bool, good, bad string) {
	t := c.T
	switch pick(t, 10) {
	case 0, 1, 2, 3:
		d := genSTD(t, false, 0)
		for d.Kind == "list" {
			d = genSTD(t, false, 0)
		}
		place := pick(t, 9)
		cell := place >= 2 && place <= 6
		v := genSVal(t, d, false)
		var others []string
		for i := pick(t, 3); i > 0; i-- {
			others = append(others, genSVal(t, d, false).Text)
		}
		wrong, plain := "", false
		if pct(t, 60) {
			wrong, plain = sMisfit(t, d, v)
			what = "misfit"
		}
		if wrong == "" || plain && place == 4 {
			wrong = sMistoken(t, d, cell)
			what = "kind"
		}
		if d.Null != 1 && pct(t, 8) && (place < 4 || place > 6) {
			wrong, what = "null", "null"
		}
		typ := d.sText(t)
		i := pick(t, len(others)+1)
		agg, good = sPlace(i, place, typ, v.Text, others)
		_, bad = sPlace(i, place, typ, wrong, others)
		what += fmt.Sprintf(" %s %d", d.Kind, place)
		return
	case 4: // type parameters
		goodT, badT := "", ""
		switch pick(t, 4) {
		case 0:
			goodT = "decimal?<38,38>"
			badT = "decimal?" + []string{"<39,0>", "<5,6>", "<0,0>", "<-1,0>", "<4294967334,0>", "<38,-1>", "<38>", "<1,2>", "<2,3>", "<37,38>", "<,>", "<38,4294967296>", "<1000,2>"}[pick(t, 13)]
		case 1:
			k := []string{"precision_time", "pts", "PTSTZ", "interval_day"}[pick(t, 4)]
			goodT = k + "?<9>"
			badT = k + "?" + []string{"<10>", "<-1>", "<4294967297>", "<3,4>", "<x>", "<2147483648>", "<99>"}[pick(t, 7)]
		case 2:
			k := []string{"varchar", "fchar", "FIXEDBINARY"}[pick(t, 3)]
			goodT = k + "?<1>"
			badT = k + "?" + []string{"<-1>", "<4294967297>", "<2147483648>", "<1,1>", "", "<1.0>", "<>"}[pick(t, 7)]
		default:
			goodT = "list?<i8>"
			badT = []string{"list?", "list?<>", "list?<i8,i8>", "i8?<3>", "boolean?<1>", "i128?", "lst?<i8>", "i8??", "map?<i8,i8>", "struct?<i8>", "list?<decimal<39,0>>"}[pick(t, 11)]
		}
		place := []int{0, 1, 2, 3, 5, 6, 7, 8}[pick(t, 8)]
		if place != 5 && place != 6 || strings.HasPrefix(goodT, "list") {
			place = []int{0, 1, 7, 8}[pick(t, 4)]
		}
		agg, good = sPlace(0, place, goodT, "null", nil)
		_, bad = sPlace(0, place, badT, "null", nil)
		what = "type " + badT
		return
	case 5: // shapes of tables
		agg = true
		n, rows := 1+pick(t, 3), 1+pick(t, 3)
		if pct(t, 20) {
			n = 9 + pick(t, 2)
		}
		row := func(n int) string { return "(" + strings.TrimSuffix(strings.Repeat("1, ", n), ", ") + ")" }
		var g, b []string
		odd := pick(t, rows)
		for i := 0; i < rows; i++ {
			k := n
			if i == odd {
				k = n + 1
				if n > 1 && pct(t, 50) {
					k = n - 1
				}
			}
			g, b = append(g, row(n)), append(b, row(k))
		}
		types := strings.TrimSuffix(strings.Repeat("i8, ", n), ", ")
		tab := func(r []string) string { return "(" + strings.Join(r, ", ") + ")" }
		ix := fmt.Sprint(n + pick(t, 3))
		if pct(t, 30) {
			ix = []string{"2147483647", "2147483648", "4294967296", "18446744073709551616", "010", "0100"}[pick(t, 6)]
		}
		k := pick(t, n)
		switch pick(t, 5) {
		case 0:
			what = "rows define"
			good = fmt.Sprintf("DEFINE t1(%s) = %s\nfn(t1.col%d) = 1::i8", types, tab(g), k)
			bad = fmt.Sprintf("DEFINE t1(%s) = %s\nfn(t1.col%d) = 1::i8", types, tab(b), k)
		case 1:
			if rows == 1 {
				b = append(b, row(n))
				g = append(g, row(n))
			}
			what = "rows compact"
			good = fmt.Sprintf("%s fn(col%d::i8) = 1::i8", tab(g), k)
			bad = fmt.Sprintf("%s fn(col%d::i8) = 1::i8", tab(b), k)
			if n > 1 { // the argument's column is in every row, all the same
				good, bad = strings.Replace(good, fmt.Sprintf("col%d", k), "col0", 1), strings.Replace(bad, fmt.Sprintf("col%d", k), "col0", 1)
			}
		case 2:
			what = "column define"
			good = fmt.Sprintf("DEFINE t1(%s) = %s\nfn(t1.col%d) = 1::i8", types, tab(g), n-1)
			bad = fmt.Sprintf("DEFINE t1(%s) = %s\nfn(t1.col%s) = 1::i8", types, tab(g), ix)
		case 3:
			what = "column compact"
			good = fmt.Sprintf("%s fn(col%d::i8) = 1::i8", tab(g), n-1)
			bad = fmt.Sprintf("%s fn(col%s::i8) = 1::i8", tab(g), ix)
		default:
			what = "table name"
			good = fmt.Sprintf("DEFINE t1(%s) = %s\nfn(t1.col0, t1.col%d) = 1::i8", types, tab(g), k)
			bad = fmt.Sprintf("DEFINE t1(%s) = %s\nfn(t1.col0, %s.col%d) = 1::i8", types, tab(g), []string{"t2", "T1", "t", "t11"}[pick(t, 4)], k)
		}
		return
	case 6: // a character which is no part of the language
		agg = pct(t, 50)
		good = "fn(1::i8, 2::varchar?<3>) [o1:p1] = true::bool"
		good = strings.Replace(good, "2::varchar?<3>", "null::varchar?<3>", 1)
		toks := []string{"fn", "(", "1", "::", "i8", ",", "null", "::", "varchar", "?", "<", "3", ">", ")", " ", "[", "o1", ":", "p1", "]", "=", "true", "::", "bool"}
		if agg {
			toks = strings.Fields("( ( 1 , 2 ) , ( 3 , 4 ) ) fn ( col0 :: i8 , col1 :: fp32 ) [ o1 : p1 ] = <!ERROR>")
		}
		i := pick(t, len(toks)+1)
		x := string("`;~@^|\x01\"\\é\uFEFF"[pick(t, 1):][0:1])
		x = []string{"`", ";", "~", "@", "^", "|", "\x01", "\"", "\\", "é", "\uFEFF", "\x00", "&", "{", "}", "\u00a0"}[pick(t, 16)]
		good = strings.Join(toks, " ")
		bad = strings.Join(toks[:i], " ") + " " + x + " " + strings.Join(toks[i:], " ")
		what = fmt.Sprintf("character %q", x)
		return
	case 7: // a token too few or too many
		agg = pct(t, 50)
		toks := strings.Fields("fn ( 1 :: i8 , 2 :: i16 ) [ o1 : p1 , o2 : p2 ] = true :: bool")
		if agg {
			toks = strings.Fields("( ( 1 , 2 ) , ( 3 , 4 ) ) fn ( col0 :: i8 , col1 :: fp32 ) [ o1 : p1 , o2 : p2 ] = 1 :: i8")
			if pct(t, 50) {
				toks = strings.Fields("DEFINE t1 ( i8 , fp32 ) = ( ( 1 , 2 ) , ( 3 , 4 ) ) fn ( t1.col0 , t1.col1 ) [ o1 : p1 , o2 : p2 ] = 1 :: i8")
			}
		}
		i := pick(t, len(toks))
		b := append([]string{}, toks...)
		if pct(t, 50) {
			what = "without " + toks[i]
			b = append(b[:i], b[i+1:]...)
		} else {
			what = "double " + toks[i]
			b = append(b[:i+1], b[i:]...)
		}
		good, bad = strings.Join(toks, " "), strings.Join(b, " ")
		if agg && toks[0] == "DEFINE" && i == 1 && strings.HasPrefix(what, "without") {
			bad = strings.Replace(bad, "DEFINE", "DEFINE 1", 1)
		}
		return
	case 8: // kinds of cases
		whole = true
		s, a := "g(1::i8) = 2::i8\n", "g((1, 2)::i8) = 2::i8\n"
		if pct(t, 50) {
			a = "((1)) g(col0::i8) = 2::i8\n"
		}
		agg = pct(t, 50)
		k := []string{a, s}
		if agg {
			k = []string{s, a}
		}
		other := []string{k[0], k[1] + k[0], k[0] + k[1], k[1] + "# more\n" + k[0], "# x\n" + k[0]}[pick(t, 5)]
		h := sHeader(agg, "/extensions/x.yaml")
		return "other kind of case", agg, true, h + "# x\n" + k[1], h + "# x\n" + other
	default: // headers
		whole = true
		h1, h2, body := "### SUBSTRAIT_SCALAR_TEST: v1.0\n", "### SUBSTRAIT_INCLUDE: '/extensions/x.yaml'\n", "# x\nfn(1::i8) = 2::i8\n"
		bads := []string{h1 + body, h2 + body, h2 + h1 + body, body, "", h1 + h2, h1 + h2 + "# x\n", h1 + h1 + h2 + body,
			strings.Replace(h1, ":", "", 1) + h2 + body, strings.Replace(h1, "v1", "1", 1) + h2 + body, strings.Replace(h1, "###", "##", 1) + h2 + body,
			strings.Replace(h1, "_TEST", "", 1) + h2 + body, h1 + strings.ReplaceAll(h2, "'", "") + body, h1 + strings.Replace(h2, "yaml'", "yaml", 1) + body,
			h1 + strings.Replace(h2, "'/extensions/x.yaml'", "", 1) + body, h1 + h2 + body + "foo\n", h1 + h2 + body + "# trailing\n", h1 + h2 + body + "fn()\n",
			h1 + h2 + "# x fn(1::i8) = 2::i8\n", h1 + h2 + "### SUBSTRAIT_DEPENDENCY: x\n" + body, h1 + h2 + body + h1, h1 + h2 + body + "fn() = 1::i8\n",
			strings.Replace(h1, "SCALAR", "WINDOW", 1) + h2 + body, strings.Replace(h1, " v1.0", "", 1) + h2 + body, h1 + h2 + body + "fn('a) = 1::i8\n",
			h1 + h2 + body + "fn(1::i8) = \n", h1 + h2 + body + "fn(1::i8) = <!FAIL>\n", h1 + h2 + body + "fn(1::i8) = <ERROR>\n", h1 + h2 + body + "fn(1::i8) [] = 1::i8\n",
			h1 + h2 + body + "fn(1) = 1::i8\n", h1 + h2 + body + "fn(1::i8) = 1\n", h1 + h2 + body + "fn(a::i8) = 1::i8\n", h1 + h2 + body + "fn('a'::enum) = 1::i8\n",
			h1 + h2 + body + "/* fn(1::i8) = 1::i8\n"}
		return "header", false, true, h1 + h2 + body, bads[pick(t, len(bads))]
	}
}

func sFaulty(c *C) {
	what, agg, whole, good, bad := sFault(c)
	if !whole {
		pre, post := sHeader(agg, "/extensions/x.yaml")+"# g\n", "\n"
		ok := "g(1::i8) = 2::i8\n"
		if agg {
			ok = "g((1, 2)::i8) = 2::i8\n"
		}
		if pct(c.T, 30) {
			pre += ok
		}
		if pct(c.T, 30) {
			post += ok
		}
		good, bad = pre+good+post, pre+bad+post
	}
	c.Case(true, "%s: %s", what, bad)
	c.Label(strings.Fields(what)[0])
	f, err := sParse(c, good)
	c.Check(err == nil, "well_formed_refused", "%v\n%s", err, good)
	f, err = sParse(c, bad)
	if err == nil {
		var s []string
		for _, tc := range f.TestCases {
			s = append(s, tc.String())
		}
		c.Fail("malformed_accepted", "%s: the cases %q of\n%s", what, s, bad)
	}
}
