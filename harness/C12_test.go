package flatjsonl

import (
	"strconv"
	"strings"
	"testing"
)

func TestVerifC12(t *testing.T) {
	h := newVH(t)
	defer h.finish()
	h.runUnits()
	nasty := func() string {
		if h.rng.Intn(4) == 0 {
			return h.word()
		}
		n := h.rng.Intn(5)
		s := ""
		for i := 0; i < n; i++ {
			s += h.pick(`"`, `""`, `'`, `\`, "`", ";", "a", "b", ",", "\n", ")", "(", "--", "/*", `");`, "NULL", "k", "_seq_id", " ", "%", "é", "\t", `\.`, "$1", "?", ":a", "@b")
		}
		return s
	}
	for i := 0; i < 20000 && !h.done(); i++ {
		n := 1 + h.rng.Intn(4)
		var names []string
		used := map[string]bool{"_seq_id": true, "._seq_id": true}
		for len(names) < n {
			k := nasty()
			if k == "" || strings.Contains(k, "const:") {
				k = "c" + strconv.Itoa(len(names))
			}
			if l := strings.ToLower("." + k); !used[l] {
				used[l] = true
				names = append(names, k)
			}
		}
		f := Flags{Concurrency: 1, SQLMaxCols: h.pickInt(500, 2, 3)}
		cfg := Config{}
		var header []string
		for _, k := range names {
			header = append(header, "."+k)
		}
		if h.rng.Intn(3) == 0 {
			r := nasty()
			ok := r != "" && !used[strings.ToLower(r)]
			for _, o := range names {
				ok = ok && strings.ToLower("."+o) != strings.ToLower(r)
			}
			if ok {
				c := h.rng.Intn(n)
				cfg.ReplaceKeys = map[string]string{"." + names[c]: r}
				header[c] = r
			}
		}
		var in strings.Builder
		var rows [][]*string
		var seqs []string
		for l := 1; l <= 1+h.rng.Intn(3); l++ {
			var fs []string
			var row []*string
			for _, k := range names {
				v := nasty()
				kind := h.rng.Intn(6)
				if l == 1 {
					kind = 5
				}
				switch kind {
				case 0:
					row = append(row, nil)
				case 1:
					fs = append(fs, jsonStr(k)+":null")
					row = append(row, nil)
				default:
					fs = append(fs, jsonStr(k)+":"+jsonStr(v))
					row = append(row, &v)
				}
			}
			in.WriteString("{" + strings.Join(fs, ",") + "}\n")
			rows = append(rows, row)
			seqs = append(seqs, strconv.Itoa(l))
		}
		want := splitParts("tbl", f.SQLMaxCols, header, seqs, rows)
		h.try(describe(f, cfg, []string{in.String()}), true, func() string {
			lite, pg, err := h.runSQL(f, cfg, in.String())
			if err != nil {
				return err.Error()
			}
			same := func(a, b string) bool { return a == b }
			if m := sameSQL(lite, want, false, same); m != "" {
				return "SQLite: " + m
			}
			// Values of a PostgreSQL dump are CSV data, which has no empty text.
			if m := sameSQL(pg, want, true, same); m != "" {
				return "PostgreSQL: " + m
			}
			return ""
		})
	}
}
