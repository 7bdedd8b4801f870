package flatjsonl

import "testing"

func TestVerifC01(t *testing.T) {
	h := newVH(t)
	defer h.finish()
	h.runScenarios(3000, func() feat {
		return feat{depth: 1, lines: 1 + h.rng.Intn(120), inputs: 3, parallel: true, sequence: true, garbage: true, keys: []string{"a", "b", "c"}}
	})
}
