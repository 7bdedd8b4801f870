package flatjsonl

import "testing"

func TestVerifC07(t *testing.T) {
	h := newVH(t)
	defer h.finish()
	h.runScenarios(1000000, func() feat {
		return feat{depth: 1 + h.rng.Intn(2), lines: 1 + h.rng.Intn(4), include: true, zeroCols: true, caseSens: true, consts: h.rng.Intn(3) == 0, sequence: true}
	})
}
