package flatjsonl

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"testing"
)

// Reference: the least upper bound, computed independently by search.
func c06Fits(a, b Type) bool {
	lv := map[Type]int{TypeAbsent: 0, TypeNull: 1, TypeArray: 2, TypeObject: 3, TypeJSON: 4}
	l := func(t Type) int {
		if n, ok := lv[t]; ok {
			return n
		}
		return 5
	}
	return a == b || l(a) < l(b) || a == TypeInt && b == TypeFloat || l(a) == 5 && b == TypeString
}

var c06All = []Type{TypeAbsent, TypeNull, TypeArray, TypeObject, TypeJSON, TypeBool, TypeInt, TypeFloat, TypeString}

func c06Join(a, b Type) Type {
	for _, r := range c06All {
		if !c06Fits(a, r) || !c06Fits(b, r) {
			continue
		}
		least := true
		for _, w := range c06All {
			if c06Fits(a, w) && c06Fits(b, w) && !c06Fits(r, w) {
				least = false
			}
		}
		if least {
			return r
		}
	}
	return "none"
}

func TestVerifC06(t *testing.T) {
	h := newVH(t)
	defer h.finish()
	h.runUnits()
	// End to end: the type reported for a key is the join over all lines, in any order.
	vals := map[string]Type{`"x"`: TypeString, `""`: TypeString, "1": TypeInt, "0": TypeInt, "-7": TypeInt, "1.5": TypeFloat, "0.25": TypeFloat, "2.0": TypeInt, "true": TypeBool, "false": TypeBool, "null": TypeNull,
		"9007199254740993": TypeInt, "1e3": TypeInt, "1e300": TypeFloat}
	var names []string
	for _, k := range []string{`"x"`, `""`, "1", "0", "-7", "1.5", "0.25", "2.0", "true", "false", "null", "1e3", "9007199254740993", "1e300"} {
		names = append(names, k)
	}
	for n := 1; n <= 4 && !h.done(); n++ {
		reps := 300
		if n == 1 {
			reps = len(names)
		}
		for r := 0; r < reps && !h.done(); r++ {
			var lines []string
			want := TypeAbsent
			for i := 0; i < n; i++ {
				v := names[h.rng.Intn(len(names))]
				if n == 1 {
					v = names[r]
				}
				want = c06Join(want, vals[v])
				lines = append(lines, `{"k":`+v+`,"pad":1}`)
			}
			in := strings.Join(lines, "\n") + "\n"
			h.try(fmt.Sprintf("key types of input %q", in), true, func() string {
				res := h.runTool(Flags{Concurrency: 1 + h.rng.Intn(4)}, Config{}, in)
				if res.err != nil {
					return "error: " + res.err.Error()
				}
				for _, k := range res.p.keys {
					if k.original == ".k" && k.t != want {
						return fmt.Sprintf("type %q, want %q", k.t, want)
					}
				}
				return ""
			})
		}
	}
	// The columns of transposed tables are joined over the elements.
	sqlTypes := map[Type]string{TypeInt: "INT8", TypeBool: "BOOL", TypeFloat: "FLOAT8"}
	colRe := regexp.MustCompile(`(?m)^\s*"\.x" (\w+)`)
	for r := 0; r < 4000 && !h.done(); r++ {
		want := TypeAbsent
		var sb strings.Builder
		for l := 1 + h.rng.Intn(2); l > 0; l-- {
			var es []string
			for n := 1 + h.rng.Intn(3); n > 0; n-- {
				v := names[h.rng.Intn(len(names))]
				want = c06Join(want, vals[v])
				es = append(es, `{"x":`+v+`}`)
			}
			sb.WriteString(`{"t":[` + strings.Join(es, ",") + "]}\n")
		}
		in := sb.String()
		h.try(fmt.Sprintf("type of the transposed column of input %q", in), true, func() string {
			dir, err := os.MkdirTemp(os.Getenv("VERIF_TMP"), "c06")
			if err != nil {
				h.t.Fatal(err)
			}
			defer os.RemoveAll(dir)
			fn := filepath.Join(dir, "out.sql")
			res := h.runTool(Flags{Concurrency: 1 + h.rng.Intn(4), PGDump: fn, SQLTable: "tbl"}, Config{Transpose: map[string]string{".t": "tt"}}, in)
			if res.err != nil {
				return "error: " + res.err.Error()
			}
			b, err := os.ReadFile(fn)
			if err != nil {
				return err.Error()
			}
			wt := sqlTypes[want]
			if wt == "" {
				wt = "VARCHAR"
			}
			if m := colRe.FindStringSubmatch(string(b)); m == nil || m[1] != wt {
				return fmt.Sprintf("column type %q, want %q", m, wt)
			}
			return ""
		})
	}
}
