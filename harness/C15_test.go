package flatjsonl

import (
	"fmt"
	"strings"
	"testing"
)

func TestVerifC15(t *testing.T) {
	h := newVH(t)
	defer h.finish()
	h.runUnits()
	// Keys that differ in case only share a column unless case-sensitive keys are requested.
	for i := 0; i < 3000 && !h.done(); i++ {
		base := h.pick("key", "a", "user id", "fOo")
		v1, v2 := base, strings.ToUpper(base)
		nest := h.pick("", "obj", "Obj")
		wrap := func(k, v string) string {
			if nest != "" {
				return "{" + jsonStr(nest) + ":{" + jsonStr(k) + ":" + v + "}}"
			}
			return "{" + jsonStr(k) + ":" + v + "}"
		}
		f := Flags{CaseSensitiveKeys: h.rng.Intn(2) == 0, Concurrency: 1}
		in := wrap(v1, "1") + "\n" + wrap(v2, "2") + "\n"
		h.try(describe(f, Config{}, []string{in}), true, func() string {
			r := h.runTool(f, Config{}, in)
			if r.err != nil {
				return r.err.Error()
			}
			want := [][]string{{"1"}, {"2"}}
			if f.CaseSensitiveKeys {
				want = [][]string{{"1", ""}, {"", "2"}}
			}
			if fmt.Sprint(r.rows) != fmt.Sprint(want) {
				return fmt.Sprintf("rows %q, want %q", r.rows, want)
			}
			return ""
		})
	}
	h.runScenarios(1000000, func() feat {
		return feat{depth: 1 + h.rng.Intn(3), lines: 1 + h.rng.Intn(4), caseSens: true, include: h.rng.Intn(2) == 0}
	})
}
