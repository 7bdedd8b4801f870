package flatjsonl

import "testing"

func TestVerifC09(t *testing.T) {
	h := newVH(t)
	defer h.finish()
	h.runScenarios(1000000, func() feat {
		return feat{depth: 2 + h.rng.Intn(2), lines: 1 + h.rng.Intn(5), wide: true, transpose: true, include: h.rng.Intn(4) == 0, replace: h.rng.Intn(4) == 0, sequence: true}
	})
}
