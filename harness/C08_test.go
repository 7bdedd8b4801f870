package flatjsonl

import "testing"

func TestVerifC08(t *testing.T) {
	h := newVH(t)
	defer h.finish()
	h.runScenarios(1000000, func() feat {
		return feat{depth: 1 + h.rng.Intn(2), lines: 1 + h.rng.Intn(4), replace: true, consts: true, include: h.rng.Intn(3) == 0, caseSens: true, transpose: h.rng.Intn(4) == 0}
	})
}
