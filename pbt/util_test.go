package pbt

import (
	"sort"
	"strconv"
	"strings"
	"unicode"

	"pgregory.net/rapid"
)

func sortStrings(s []string) { sort.Strings(s) }

func itoa(v int64) string { return strconv.FormatInt(v, 10) }

// nearText makes a text that differs from s only a little: in the case of a letter, by a character more or less or other, by a space.
func nearText(t *rapid.T, s string) string { return nearAt(s, rapid.Uint64().Draw(t, "near")) }

// nearAt is nearText with the choice given.
func nearAt(s string, n uint64) string {
	r := []rune(s)
	next := func(k int) int {
		n = n*6364136223846793005 + 1442695040888963407
		return int((n >> 33) % uint64(k))
	}
	for range 6 {
		out := s
		switch next(8) {
		case 0:
			out = s + string([]rune{'z', '_', ' ', '1', 0x0301}[next(5)])
		case 1:
			out = " " + s
		case 2, 3, 4: // the case of some letters
			switch next(3) {
			case 0:
				out = strings.ToUpper(s)
			case 1:
				out = strings.ToLower(s)
			default:
				if len(r) > 0 {
					i := next(len(r))
					if u := unicode.ToUpper(r[i]); u != r[i] {
						out = string(r[:i]) + string(u) + string(r[i+1:])
					} else {
						out = string(r[:i]) + string(unicode.ToLower(r[i])) + string(r[i+1:])
					}
				}
			}
		case 5:
			if len(r) > 0 {
				out = string(r[:len(r)-1])
			}
		case 6:
			if len(r) > 0 {
				out = string(r[1:])
			}
		default:
			out = s + s
		}
		if out != s {
			return out
		}
	}
	return s + "z"
}

// nearU32 makes a number that differs from n in one bit, or by one.
func nearU32(t *rapid.T, n uint32) uint32 {
	if rapid.Bool().Draw(t, "next") {
		return n + 1
	}
	return n ^ 1<<pick(t, 32)
}
