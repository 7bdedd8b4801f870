package flatjsonl

import (
	"bytes"
	"encoding/csv"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"testing"
)

// Two CSV files are given to the comparing program; its exit code and its report are judged.
func TestVerifC20(t *testing.T) {
	h := newVH(t)
	defer h.finish()
	dir, err := os.MkdirTemp(os.Getenv("VERIF_TMP"), "csvequals")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	bin := filepath.Join(dir, "csvequals")
	if out, err := exec.Command("go", "build", "-o", bin, "../cmd/csvequals").CombinedOutput(); err != nil {
		t.Fatal(string(out))
	}
	type table [][]string
	write := func(n string, t table) string {
		var b bytes.Buffer
		w := csv.NewWriter(&b)
		_ = w.WriteAll(t)
		fn := filepath.Join(dir, n)
		_ = os.WriteFile(fn, b.Bytes(), 0o644)
		return fn
	}
	cell := func() string { return h.pick("v0", "v1", "v2", "", "0", "v x", `v"q`) }
	for i := 0; i < 4000 && !h.done(); i++ {
		cols := []string{"colA", "colB", "colC", "colD"}[:1+h.rng.Intn(4)]
		if h.rng.Intn(3) == 0 {
			cols = append([]string{}, cols...)
			h.rng.Shuffle(len(cols), func(i, j int) { cols[i], cols[j] = cols[j], cols[i] })
		}
		rows := 1 + h.rng.Intn(4)
		mk := func() (t table) {
			t = append(t, append([]string{}, cols...))
			for j := 0; j < rows; j++ {
				var r []string
				for range cols {
					r = append(r, cell())
				}
				t = append(t, r)
			}
			return t
		}
		a := mk()
		// b is a with columns in another order and some changes.
		perm := h.rng.Perm(len(cols))
		b := table{}
		for _, r := range a {
			nr := make([]string, len(r))
			for j, p := range perm {
				nr[j] = r[p]
			}
			b = append(b, nr)
		}
		switch h.rng.Intn(6) {
		case 0, 1:
			for n := h.rng.Intn(3); n >= 0; n-- {
				b[1+h.rng.Intn(rows)][h.rng.Intn(len(cols))] = cell()
			}
		case 2:
			b[0][h.rng.Intn(len(cols))] = h.pick("colX", "colY")
		case 3:
			v := h.pick("", "z")
			for j := range b {
				x := v
				if j == 0 {
					x = "colX"
				}
				b[j] = append(b[j], x)
			}
		case 4:
			if len(cols) > 1 {
				for j := range b {
					b[j] = b[j][1:]
				}
			}
		}
		if h.rng.Intn(8) == 0 {
			b = append(b, append([]string{}, b[len(b)-1]...))
		} else if h.rng.Intn(8) == 0 && len(b) > 2 {
			b = b[:len(b)-1]
		}
		if h.rng.Intn(2) == 0 {
			a, b = b, a
		}
		fa, fb := write("a.csv", a), write("b.csv", b)
		// The first row that differs has to be reported with all columns that differ in it.
		var want []string
		equal := len(a) == len(b)
		for r := 1; r < len(a) && r < len(b) && want == nil; r++ {
			m1, m2 := map[string]string{}, map[string]string{}
			for j, k := range a[0] {
				m1[k] = a[r][j]
			}
			for j, k := range b[0] {
				m2[k] = b[r][j]
			}
			for k, v := range m1 {
				if w, ok := m2[k]; !ok || w != v {
					want = append(want, k)
				}
			}
			for k := range m2 {
				if _, ok := m1[k]; !ok {
					want = append(want, k)
				}
			}
		}
		if want != nil {
			equal = false
		}
		skip := false
		for j, k := range a[0] {
			for _, l := range a[0][:j] {
				skip = skip || k == l
			}
		}
		for j, k := range b[0] {
			for _, l := range b[0][:j] {
				skip = skip || k == l
			}
		}
		if skip {
			continue
		}
		for _, t := range []table{a, b} { // one empty cell is a blank line, which is no row
			for _, r := range t {
				skip = skip || len(r) == 1 && r[0] == ""
			}
		}
		if skip {
			continue
		}
		h.try(fmt.Sprintf("file1 %q file2 %q", a, b), false, func() string {
			cmd := exec.Command(bin, fa, fb)
			var so bytes.Buffer
			cmd.Stderr, cmd.Stdout = &so, &so
			err := cmd.Run()
			var ee *exec.ExitError
			if err != nil && !errors.As(err, &ee) {
				return err.Error()
			}
			if (err == nil) != equal {
				return fmt.Sprintf("reported equal: %v, want %v: %s", err == nil, equal, clipS(so.String(), 300))
			}
			for _, k := range want {
				if !strings.Contains(so.String(), k) {
					return fmt.Sprintf("difference in column %q is not reported: %s", k, clipS(so.String(), 300))
				}
			}
			return ""
		})
	}
}
