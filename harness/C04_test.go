package flatjsonl

import "testing"

func TestVerifC04(t *testing.T) {
	h := newVH(t)
	defer h.finish()
	h.runScenarios(1000000, func() feat {
		ft := feat{depth: 1 + h.rng.Intn(2), lines: 1 + h.rng.Intn(6), wide: true, replace: true, concat: true, limitField: true, consts: true, sequence: true, include: h.rng.Intn(3) == 0}
		if h.rng.Intn(3) == 0 {
			ft.transpose = true
		}
		return ft
	})
}
