package flatjsonl

import "testing"

func TestVerifC05(t *testing.T) {
	h := newVH(t)
	defer h.finish()
	h.runScenarios(1000000, func() feat {
		ft := feat{depth: 1 + h.rng.Intn(2), lines: 1 + h.rng.Intn(4), limitField: true, sequence: true}
		if h.rng.Intn(2) == 0 {
			ft.transpose = true
		}
		return ft
	})
}
