package flatjsonl

import "testing"

func TestVerifC10(t *testing.T) {
	h := newVH(t)
	defer h.finish()
	h.runUnits()
	h.runScenarios(1000000, func() feat {
		ft := feat{depth: 2 + h.rng.Intn(2), lines: 1 + h.rng.Intn(4), transpose: true}
		if h.rng.Intn(2) == 0 {
			ft.keys = []string{"a", "[0]", "[1", "2]", "[x]", "", "b", "[03]"}[h.rng.Intn(3):]
		}
		return ft
	})
}
