package flatjsonl

import (
	"flag"
	"fmt"
	"strings"
	"testing"
)

func refKindOf(name string) string {
	l := strings.ToLower(name)
	for _, c := range []string{"", ".gz", ".zst"} {
		if strings.HasSuffix(l, ".csv"+c) {
			return "csv"
		}
		if strings.HasSuffix(l, ".raw"+c) {
			return "raw"
		}
	}
	if strings.HasSuffix(l, ".sqlite") {
		return "sqlite"
	}
	return ""
}

func TestVerifC17(t *testing.T) {
	h := newVH(t)
	defer h.finish()
	name := func() string {
		n := h.pick("a", "b", "out", "dir/x", "", "c.csv", "x.raw")
		n += h.pick(".csv", ".CSV", ".csv.gz", ".Csv.zst", ".raw", ".RAW.GZ", ".raw.zst", ".sqlite", ".SQLite", ".sqlite.gz", ".gz", ".zst", ".json", "", "csv", "raw", ".csv.bz2", ".csv ", ".sqlite3")
		switch h.rng.Intn(4) {
		case 0:
			n = strings.ToUpper(n)
		case 1:
			b := []byte(n)
			for i := range b {
				if h.rng.Intn(2) == 0 {
					b[i] = strings.ToUpper(string(b[i]))[0]
				}
			}
			n = string(b)
		}
		if h.rng.Intn(12) == 0 {
			n = h.word()
		}
		return strings.ReplaceAll(n, ",", "")
	}
	for i := 0; i < 40000 && !h.done(); i++ {
		var names []string
		for j := h.rng.Intn(5); j >= 0; j-- {
			names = append(names, name())
		}
		f := Flags{Output: strings.Join(names, ",")}
		if h.rng.Intn(5) == 0 {
			f.CSV = "set.csv"
		}
		if h.rng.Intn(5) == 0 {
			f.Raw = "set.raw"
		}
		if h.rng.Intn(5) == 0 {
			f.SQLite = "set.sqlite"
		}
		if h.rng.Intn(20) == 0 {
			f.Output = ""
		}
		h.try(fmt.Sprintf("output %q with CSV %q, RAW %q, SQLite %q set", f.Output, f.CSV, f.Raw, f.SQLite), false, func() string {
			want := map[string]string{"csv": f.CSV, "raw": f.Raw, "sqlite": f.SQLite}
			if f.Output != "" {
				for _, n := range strings.Split(f.Output, ",") {
					if k := refKindOf(n); k != "" && want[k] == "" {
						want[k] = n
					}
				}
			}
			pg := f.PGDump
			f.PrepareOutput()
			if f.CSV != want["csv"] || f.Raw != want["raw"] || f.SQLite != want["sqlite"] || f.PGDump != pg {
				return fmt.Sprintf("got CSV %q, RAW %q, SQLite %q, want %q", f.CSV, f.Raw, f.SQLite, want)
			}
			return ""
		})
	}
	for i := 0; i < 20000 && !h.done(); i++ {
		var args, in []string
		word := func() string {
			return h.pick("a.log", "b.jsonl", "x", "c d", "-v", "-", "--out", "é-x", "y-") + h.pick("", "1", ".gz")
		}
		for j := h.rng.Intn(4); j > 0; j-- {
			args = append(args, word())
		}
		for j := h.rng.Intn(4); j > 0; j-- {
			in = append(in, word())
		}
		f := Flags{Input: strings.Join(in, ",")}
		h.try(fmt.Sprintf("arguments %q, input list %q", args, f.Input), false, func() string {
			was := flag.CommandLine
			defer func() { flag.CommandLine = was }()
			flag.CommandLine = flag.NewFlagSet("x", flag.ContinueOnError)
			if err := flag.CommandLine.Parse(append([]string{"--"}, args...)); err != nil {
				return err.Error()
			}
			all := append([]string{}, args...)
			if f.Input != "" {
				all = append(all, strings.Split(f.Input, ",")...)
			}
			var want []string
			for _, a := range all {
				if strings.HasPrefix(a, "-") {
					break
				}
				want = append(want, a)
			}
			var got []string
			for _, i := range f.Inputs() {
				got = append(got, i.FileName)
				if i.Reader != nil {
					return "input with a reader"
				}
			}
			if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
				return fmt.Sprintf("got %q, want %q", got, want)
			}
			return ""
		})
	}
}
