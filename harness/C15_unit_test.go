package flatjsonl

import (
	"fmt"
	"strings"
)

func init() { units = append(units, unitC15) }

func unitC15(h *vh) {
	ids := map[string]uint64{}
	paths := map[uint64]string{}
	ha, hb := newHasher(), newHasher()
	// known checks that a path has one identity and no other path has it.
	known := func(p string, id uint64) string {
		if p == "" && id != 0 {
			return fmt.Sprintf("identity of the empty path is %d, want 0", id)
		}
		if p != "" && id == 0 {
			return fmt.Sprintf("identity of %q is the reserved 0", p)
		}
		if was, ok := ids[p]; ok && was != id {
			return fmt.Sprintf("identity of %q is %d, was %d", p, id, was)
		}
		if q, ok := paths[id]; ok && q != p {
			return fmt.Sprintf("%q and %q have the same identity %d", p, q, id)
		}
		ids[p], paths[id] = id, p
		return ""
	}
	path := func() []string {
		var segs []string
		for i := h.rng.Intn(5); i >= 0; i-- {
			segs = append(segs, h.word())
		}
		if h.rng.Intn(10) == 0 {
			segs = append(segs, strings.Repeat(h.pick("a", "long "), h.rng.Intn(900)))
		}
		return segs
	}
	for i := 0; i < 60000 && !h.done(); i++ {
		segs := path()
		full := []byte(KeyFromPath(segs))
		pl := h.rng.Intn(len(full) + 1)
		if h.rng.Intn(2) == 0 {
			pl = len(full) - 1 - len(segs[len(segs)-1])
		}
		if h.rng.Intn(50) == 0 {
			full, pl = nil, 0
		}
		h.try(fmt.Sprintf("path %q parent length %d", full, pl), false, func() string {
			if full != nil && string(full) != "."+strings.Join(segs, ".") {
				return fmt.Sprintf("name of path %q is %q", segs, full)
			}
			pk, par := ha.hashParentBytes(full, pl)
			if m := known(string(full), pk); m != "" {
				return "while scanning: " + m
			}
			if m := known(string(full[:pl]), par); m != "" {
				return "parent while scanning: " + m
			}
			if m := known(string(full), hb.hashBytes(full)); m != "" {
				return "while writing: " + m
			}
			if m := known(string(full), ha.hashBytes(full)); m != "" {
				return "with a used hasher: " + m
			}
			return ""
		})
	}
	for i := 0; i < 2000 && !h.done(); i++ {
		w := h.word() + h.pick("", "ÀÉ", "Key", "İ")
		sens := h.rng.Intn(2) == 0
		h.try(fmt.Sprintf("canonical name of %q, case sensitive %v", w, sens), false, func() string {
			p := &Processor{f: Flags{CaseSensitiveKeys: sens}}
			want := w
			if !sens {
				want = strings.ToLower(w)
			}
			if got := p.ck(w); got != want {
				return fmt.Sprintf("got %q, want %q", got, want)
			}
			return ""
		})
	}
	for i := 0; i < 1500 && !h.done(); i++ {
		f, cfg, inputs := h.scenario(feat{depth: 1 + h.rng.Intn(3), lines: 1 + h.rng.Intn(3), extract: true})
		f.ExtractStrings = true
		h.try("identities in "+describe(f, cfg, inputs), true, func() string {
			r := h.runTool(f, cfg, inputs...)
			if r.err != nil {
				return r.err.Error()
			}
			msg := ""
			hs := newHasher()
			r.p.flKeys.Range(func(pk uint64, k flKey) bool {
				n := len(k.path)
				if n == 0 || !strings.HasPrefix(k.original, ".") || k.original != KeyFromPath(k.path) {
					return true
				}
				if pk != hs.hashBytes([]byte(k.original)) {
					msg = fmt.Sprintf("key %q is stored under another identity", k.original)
				}
				par := uint64(0)
				if n > 1 {
					par = hs.hashBytes([]byte(KeyFromPath(k.path[:n-1])))
				}
				if k.parent != par {
					msg = fmt.Sprintf("the parent of %q is not identified as %q", k.original, KeyFromPath(k.path[:n-1]))
				}
				return msg == ""
			})
			return msg
		})
	}
}
