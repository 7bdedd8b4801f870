package flatjsonl

import (
	"fmt"
	"sort"
	"strings"
	"testing"
)

func TestVerifC14(t *testing.T) {
	h := newVH(t)
	defer h.finish()
	h.runUnits()
	for i := 0; i < 20000 && !h.done(); i++ {
		ft := feat{depth: 1 + h.rng.Intn(3), lines: 1 + h.rng.Intn(5), sequence: true, prefix: h.rng.Intn(3) == 0}
		switch h.rng.Intn(3) {
		case 0:
			ft.keys = []string{"a", "ab", "b", "a_b", "abc", "A b", "a-1", "c"}
		case 1:
			ft.keys = []string{"a", "b", "c", "d"}
		default:
			ft.keys = []string{"Foo", "b", "x y", "É", "k0", "[0]", "[1", "0"}
		}
		if h.rng.Intn(4) == 0 {
			ft.parallel = true
			ft.lines = 30
		}
		f, cfg, inputs := h.scenario(ft)
		f.ChildrenLimit = 1 + h.rng.Intn(3)
		// Containers with their child keys.
		kids := map[string]map[string]bool{}
		for _, in := range inputs {
			for _, l := range refSplitLines(in) {
				// Document paths only, so without the prefix and the sequence.
				for _, lf := range refLeaves(Flags{}, Config{}, 1, l) {
					if lf.path == "" {
						continue
					}
					j := strings.LastIndex(lf.path, ".")
					if p := lf.path[:j]; p != "" {
						if kids[p] == nil {
							kids[p] = map[string]bool{}
						}
						kids[p][lf.path] = true
					}
				}
			}
		}
		var high []string
		for p, k := range kids {
			if len(k) > f.ChildrenLimit {
				high = append(high, p)
			}
		}
		sort.Strings(high)
		if h.rng.Intn(3) == 0 && len(high) > 0 {
			cfg.AllowCardinality = append(cfg.AllowCardinality, high[h.rng.Intn(len(high))])
		}
		collapsed := cfg
		for _, p := range high {
			if len(cfg.AllowCardinality) == 0 || cfg.AllowCardinality[0] != p {
				collapsed.KeepJSON = append(collapsed.KeepJSON, p)
			}
		}
		h.try(describe(f, cfg, inputs)+fmt.Sprintf(" collapsed %q", collapsed.KeepJSON), true, func() string {
			return h.compareWith(f, cfg, collapsed, ft.parallel, inputs...)
		})
	}
}
