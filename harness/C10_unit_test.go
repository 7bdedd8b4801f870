package flatjsonl

import (
	"fmt"
	"strconv"
	"strings"
	"testing"
)

// refTransposed splits a key below a transposed prefix.
func refTransposed(key, prefix string) (row intOrString, col string) {
	rest := key[len(prefix):]
	if rest[0] == '.' {
		rest = rest[1:]
	}
	seg := rest
	col = "._value"
	for i := 0; i < len(rest); i++ {
		if rest[i] == '.' {
			seg, col = rest[:i], rest[i:]
			break
		}
	}
	row = intOrString{t: TypeString, s: seg}
	if len(seg) > 2 && seg[0] == '[' && seg[len(seg)-1] == ']' {
		d := seg[1 : len(seg)-1]
		num := len(d) < 19 && (d == "0" || d[0] != '0')
		for i := 0; i < len(d); i++ {
			num = num && d[i] >= '0' && d[i] <= '9'
		}
		if num {
			n, _ := strconv.Atoi(d)
			row = intOrString{t: TypeInt, i: n}
		}
	}
	return row, col
}

func init() { units = append(units, unitC10) }

func unitC10(h *vh) {
	one := func(tk, rest string) {
		key := tk + rest
		h.try(fmt.Sprintf("scanTransposedKey prefix %q key %q", tk, key), false, func() string {
			k := flKey{original: key, canonical: strings.ToLower(key)}
			scanTransposedKey("dst", tk, &k)
			row, col := refTransposed(key, tk)
			if k.transposeDst != "dst" || k.transposeKey != row || k.transposeTrimmed != col {
				return fmt.Sprintf("got table %q row %+v column %q, want row %+v column %q", k.transposeDst, k.transposeKey, k.transposeTrimmed, row, col)
			}
			if v := row.String(); k.transposeKey.String() != v {
				return "row key is written as " + k.transposeKey.String() + ", want " + v
			}
			return ""
		})
	}
	segs := []string{"", "[", "]", "[]", "[0]", "[1]", "[12]", "[007]", "[-1]", "[+1]", "[a]", "[1", "1]", "[1]]", "[[1]]", "[1]x", "x[1]", "a", "A", "0", "1", "[99999999999999999999]", " ", "[ 1]", "é", "_value", "[1_0]", "[0x1]"}
	for _, tk := range []string{"", ".a", ".a.b", ".a.[0]", ".", ".t"} {
		for _, s1 := range segs {
			for _, s2 := range append([]string{"\x00"}, segs...) {
				rest := "." + s1
				if s2 != "\x00" {
					rest += "." + s2
				}
				one(tk, rest)
				one(tk, rest+".z.y")
				if len(rest) > 1 {
					one(tk, rest[1:])
				}
			}
		}
	}
	for i := 0; i < 20000 && !h.done(); i++ {
		if rest := h.word(); rest != "" {
			one(h.pick(".a", ".a.b", ""), h.pick(".", "", ".[")+rest+h.pick("", ".", "].x", "]"))
		}
	}
}
