package flatjsonl

import (
	"fmt"
	"strconv"
	"strings"
	"testing"
)

func c11Same(a, b string) bool {
	if a == b {
		return true
	}
	x, e1 := strconv.ParseFloat(a, 64)
	y, e2 := strconv.ParseFloat(b, 64)
	if e1 == nil && e2 == nil {
		return x == y
	}
	return false
}

func TestVerifC11(t *testing.T) {
	h := newVH(t)
	defer h.finish()
	h.runUnits()
	for i := 0; i < 5000 && !h.done(); i++ {
		// Every column count around the multiples of the limit.
		n := h.rng.Intn(12)
		f := Flags{SQLMaxCols: 2 + h.rng.Intn(5), Concurrency: 1}
		if h.rng.Intn(30) == 0 {
			f.SQLMaxCols = 0
			n = 495 + h.rng.Intn(10)
		}
		cfg := Config{}
		elems := -1
		if h.rng.Intn(3) == 0 {
			cfg.Transpose = map[string]string{".t": "tt"}
			elems = h.rng.Intn(9)
		}
		lines := 1 + h.rng.Intn(3)
		var in strings.Builder
		want := map[string]sqlTable{}
		var header []string
		var rows, trows [][]*string
		var seqs, tseqs []string
		for c := 0; c < n; c++ {
			header = append(header, ".k"+strconv.Itoa(c))
		}
		theader := []string{"._sequence", "._index"}
		for c := 0; c < elems; c++ {
			theader = append(theader, ".x"+strconv.Itoa(c))
		}
		for l := 1; l <= lines; l++ {
			var fs []string
			var row []*string
			for c := 0; c < n; c++ {
				v := fmt.Sprintf("v%d_%d", l, c)
				if l > 1 && h.rng.Intn(6) == 0 {
					if h.rng.Intn(2) == 0 {
						fs = append(fs, fmt.Sprintf(`"k%d":null`, c))
					}
					row = append(row, nil)
					continue
				}
				fs = append(fs, fmt.Sprintf(`"k%d":%q`, c, v))
				row = append(row, &v)
			}
			sl := strconv.Itoa(l)
			if elems >= 0 {
				var es []string
				for e := 0; e < 1+h.rng.Intn(2); e++ {
					idx := strconv.Itoa(e)
					trow := []*string{&sl, &idx}
					var es2 []string
					for c := 0; c < elems; c++ {
						v := fmt.Sprintf("t%d_%d_%d", l, e, c)
						es2 = append(es2, fmt.Sprintf(`"x%d":%q`, c, v))
						trow = append(trow, &v)
					}
					es = append(es, "{"+strings.Join(es2, ",")+"}")
					if elems > 0 {
						trows = append(trows, trow)
						tseqs = append(tseqs, sl)
					}
				}
				fs = append(fs, `"t":[`+strings.Join(es, ",")+`]`)
			}
			in.WriteString("{" + strings.Join(fs, ",") + "}\n")
			rows = append(rows, row)
			seqs = append(seqs, sl)
		}
		max := f.SQLMaxCols
		if max == 0 {
			max = 500
		}
		for k, v := range splitParts("tbl", max, header, seqs, rows) {
			want[k] = v
		}
		if elems > 0 {
			for k, v := range splitParts("tbl_tt", max, theader, tseqs, trows) {
				want[k] = v
			}
		}
		h.try(describe(f, cfg, []string{in.String()}), true, func() string {
			lite, pg, err := h.runSQL(f, cfg, in.String())
			if err != nil {
				return err.Error()
			}
			if m := sameSQL(lite, want, false, c11Same); m != "" {
				return "SQLite: " + m
			}
			if m := sameSQL(pg, want, false, c11Same); m != "" {
				return "PostgreSQL: " + m
			}
			return ""
		})
	}
}
