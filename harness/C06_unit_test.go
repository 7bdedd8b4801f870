package flatjsonl

import "fmt"

func init() { units = append(units, unitC06) }

func unitC06(h *vh) {
	for _, a := range c06All {
		for _, b := range c06All {
			h.try(fmt.Sprintf("Type(%q).Update(%q)", a, b), false, func() string {
				if got, want := a.Update(b), c06Join(a, b); got != want {
					return fmt.Sprintf("got %q, want %q", got, want)
				}
				return ""
			})
			h.try(fmt.Sprintf("flKey{t:%q}.UpdateType(%q)", a, b), false, func() string {
				k := flKey{t: a}
				if a != TypeAbsent {
					k.tt = []Type{a}
				}
				k.UpdateType(b)
				if want := c06Join(a, b); k.t != want {
					return fmt.Sprintf("got %q, want %q", k.t, want)
				}
				return ""
			})
		}
	}
}
