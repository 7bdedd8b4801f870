package flatjsonl

import "testing"

func TestVerifC16(t *testing.T) {
	h := newVH(t)
	defer h.finish()
	h.runScenarios(1000000, func() feat {
		return feat{depth: 1, lines: 1 + h.rng.Intn(8), prefix: true, garbage: true, sequence: true, keys: []string{"a", "b", "c"}}
	})
}
