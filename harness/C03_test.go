package flatjsonl

import "testing"

func TestVerifC03(t *testing.T) {
	h := newVH(t)
	defer h.finish()
	h.runScenarios(1000000, func() feat {
		ft := feat{depth: 1 + h.rng.Intn(4), lines: 1 + h.rng.Intn(3)}
		switch h.rng.Intn(3) {
		case 0:
			ft.extract = true
		case 1:
			ft.keepJSON = true
		}
		return ft
	})
}
