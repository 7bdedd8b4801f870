package flatjsonl

import (
	"fmt"
	"regexp"
	"strings"
	"testing"
)

var typeLine = regexp.MustCompile(`(?m)^\d+: (.*), TYPE ([a-z]+)$`)

func TestVerifC18(t *testing.T) {
	h := newVH(t)
	defer h.finish()
	h.runUnits()
	for i := 0; i < 20000 && !h.done(); i++ {
		f, cfg, inputs := h.scenario(feat{depth: 1 + h.rng.Intn(2), lines: 60, inputs: 2, sequence: true})
		f.Concurrency = 2 + h.rng.Intn(10)
		f.ShowKeysInfo = true
		h.try(describe(f, cfg, inputs), true, func() string {
			if m := h.compareWith(f, cfg, cfg, true, inputs...); m != "" {
				return m
			}
			g := f
			g.Concurrency = 1
			types := func(f Flags) (string, map[string]string) {
				r := h.runTool(f, cfg, inputs...)
				if r.err != nil {
					return r.err.Error(), nil
				}
				m := map[string]string{}
				for _, x := range typeLine.FindAllStringSubmatch(r.stdout, -1) {
					if _, ok := m[x[1]]; ok {
						return "key " + x[1] + " is listed twice", nil
					}
					m[x[1]] = x[2]
				}
				return "", m
			}
			e1, t1 := types(g)
			e2, t2 := types(f)
			if e1+e2 != "" {
				return e1 + e2
			}
			if fmt.Sprint(t1) != fmt.Sprint(t2) {
				return fmt.Sprintf("types with one worker %v, with %d workers %v", t1, f.Concurrency, t2)
			}
			return ""
		})
	}
}

var _ = strings.ToLower
