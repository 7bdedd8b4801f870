package flatjsonl

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"testing"
)

type c19Schema struct {
	Types      []string             `json:"type"`
	Properties map[string]c19Schema `json:"properties"`
	Items      *c19Schema           `json:"items"`
}

func TestVerifC19(t *testing.T) {
	h := newVH(t)
	defer h.finish()
	h.runUnits()
	for i := 0; i < 20000 && !h.done(); i++ {
		ft := feat{depth: 1 + h.rng.Intn(4), lines: 1 + h.rng.Intn(4), keys: [][]string{{"a", "b", "c"}, {"Foo", "x y", "é", "q", "n1"}, {"k"}}[h.rng.Intn(3)]}
		ft.parallel = h.rng.Intn(3) == 0
		f, cfg, inputs := h.scenario(ft)
		f.ShowJSONSchema, f.ShowKeysHier = true, true
		f.CaseSensitiveKeys = true
		// Types of every path; a path below an array is below its items.
		want := map[string]map[string]bool{}
		conts := map[string]map[string]bool{}
		leafs := map[string]bool{}
		for _, in := range inputs {
			for _, l := range refSplitLines(in) {
				for _, lf := range refLeaves(Flags{}, Config{}, 1, l) {
					if lf.path == "" {
						continue
					}
					if lf.kind == "container" {
						if conts[lf.path] == nil {
							conts[lf.path] = map[string]bool{}
						}
						conts[lf.path][lf.text] = true
						continue
					}
					tn := map[string]string{"string": "string", "bool": "boolean", "null": "null"}[lf.kind]
					if lf.kind == "number" {
						tn = "number"
						var n float64
						if json.Unmarshal([]byte(lf.text), &n) == nil && n == float64(int(n)) {
							tn = "integer"
						}
					}
					if want[lf.path] == nil {
						want[lf.path] = map[string]bool{}
					}
					want[lf.path][tn] = true
					leafs[lf.path] = true
				}
			}
		}
		f.ShowKeysFlat = false
		h.try(describe(f, cfg, inputs), true, func() string {
			r := h.runTool(f, cfg, inputs...)
			if r.err != nil {
				return r.err.Error()
			}
			dec := json.NewDecoder(strings.NewReader(r.stdout))
			var hier any
			if err := dec.Decode(&hier); err != nil {
				return "hierarchy is not readable: " + err.Error() + ": " + clipS(r.stdout, 200)
			}
			var schema c19Schema
			if err := dec.Decode(&schema); err != nil {
				return "schema is not readable: " + err.Error() + ": " + clipS(r.stdout, 200)
			}
			// The hierarchy has exactly the paths and what leads to them.
			have := map[string]bool{}
			var walk func(base string, v any)
			walk = func(base string, v any) {
				switch v := v.(type) {
				case string:
					have[base+"."+v] = true
				case map[string]any:
					for n, sub := range v {
						have[base+"."+n] = true
						for _, s := range sub.([]any) {
							walk(base+"."+n, s)
						}
					}
				}
			}
			if l, ok := hier.([]any); ok {
				for _, s := range l {
					walk("", s)
				}
			}
			wantHier := map[string]bool{}
			for p := range leafs {
				if c := conts[p]; (c["array"] || c["object"]) && !leafScalar(want[p]) {
					continue
				}
				for p != "" {
					wantHier[p] = true
					p = p[:strings.LastIndex(p, ".")]
				}
			}
			if a, b := sortedNames(have), sortedNames(wantHier); fmt.Sprint(a) != fmt.Sprint(b) {
				return fmt.Sprintf("hierarchy has %q, want %q", a, b)
			}
			// The schema has each type once.
			got := map[string]map[string]bool{}
			var dup string
			var ws func(base string, s c19Schema)
			ws = func(base string, s c19Schema) {
				seen := map[string]bool{}
				for _, t := range s.Types {
					if seen[t] {
						dup = fmt.Sprintf("schema of %q has types %q", base, s.Types)
					}
					seen[t] = true
				}
				if len(seen) > 0 {
					got[base] = seen
				}
				for n, p := range s.Properties {
					ws(base+"."+n, p)
				}
				if s.Items != nil {
					ws(base+".[]", *s.Items)
				}
			}
			ws("", schema)
			if dup != "" {
				return dup
			}
			exp := map[string]map[string]bool{}
			for p, ts := range want {
				if c := conts[p]; c["array"] || c["object"] {
					if !leafScalar(ts) {
						continue // no key, only the way to keys
					}
					for k := range c {
						ts[k] = true
					}
				}
				// Elements of paths that are only arrays (or null) share the schema of items.
				segs := strings.Split(p, ".")[1:]
				name, cur := "", ""
				for _, s := range segs {
					was := cur
					cur += "." + s
					onlyArr := was != "" && conts[was]["array"] && !conts[was]["object"] && !leafScalar(want[was])
					if onlyArr && strings.HasPrefix(s, "[") {
						s = "[]"
					}
					name += "." + s
				}
				if exp[name] == nil {
					exp[name] = map[string]bool{}
				}
				for k := range ts {
					exp[name][k] = true
				}
			}
			// Types of containers are of no matter here, only scalars make keys.
			clean := func(m map[string]map[string]bool) string {
				var out []string
				for p, ts := range m {
					x := map[string]bool{}
					for k := range ts {
						if k != "array" && k != "object" {
							x[k] = true
						}
					}
					if len(x) > 0 {
						out = append(out, fmt.Sprintf("%s:%q", p, sortedNames(x)))
					}
				}
				sort.Strings(out)
				return strings.Join(out, " ")
			}
			if a, b := clean(got), clean(exp); a != b {
				return fmt.Sprintf("schema has %s, want %s", a, b)
			}
			return ""
		})
	}
}

// leafScalar is true if something else than null was seen.
func leafScalar(ts map[string]bool) bool {
	for t := range ts {
		if t != "null" && t != "array" && t != "object" {
			return true
		}
	}
	return false
}
