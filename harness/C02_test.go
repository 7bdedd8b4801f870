package flatjsonl

import "testing"

func TestVerifC02(t *testing.T) {
	h := newVH(t)
	defer h.finish()
	h.runScenarios(1000000, func() feat {
		return feat{depth: 1, lines: 1 + h.rng.Intn(7), inputs: 3, window: true, sequence: true, include: h.rng.Intn(3) == 0, keys: []string{"a", "b", "c"}}
	})
}
