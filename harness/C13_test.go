package flatjsonl

import (
	"bytes"
	"context"
	"database/sql"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"testing"
	"time"
)

// The program is run with outputs that can not be written. /dev/full fails every write.
func TestVerifC13(t *testing.T) {
	h := newVH(t)
	defer h.finish()
	h.runUnits()
	dir, err := os.MkdirTemp(os.Getenv("VERIF_TMP"), "c13")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	bin := filepath.Join(dir, "flatjsonl")
	if out, err := exec.Command("go", "build", "-o", bin, "..").CombinedOutput(); err != nil {
		t.Fatal(string(out))
	}
	for i := 0; i < 3000 && !h.done(); i++ {
		work := filepath.Join(dir, "w")
		if err := os.Mkdir(work, 0o755); err != nil {
			t.Fatal(err)
		}
		lines := h.pickInt(1, 3, 700)
		transposed := h.rng.Intn(2) == 0
		var in strings.Builder
		for l := 1; l <= lines; l++ {
			if transposed {
				fmt.Fprintf(&in, `{"a":%d,"b":"value %d","t":{"x":%d,"y":"tv%d"}}`+"\n", l, l, l, l)
			} else {
				fmt.Fprintf(&in, `{"a":%d,"b":"value %d"}`+"\n", l, l)
			}
		}
		input := filepath.Join(work, "in.jsonl")
		_ = os.WriteFile(input, []byte(in.String()), 0o644)
		args := []string{"-verbosity", "0", "-raw-delim", "|"}
		if transposed {
			args = append(args, "-config", `{"transpose":{".t":"tt"}}`)
		}
		desc := fmt.Sprintf("%d lines, transposed %v, outputs", lines, transposed)
		fails, early := 0, false
		good := map[string]string{}
		any := false
		for _, kind := range []string{"csv", "raw", "sqlite", "pg-dump"} {
			if h.rng.Intn(2) == 0 {
				continue
			}
			any = true
			ext := map[string]string{"csv": ".csv", "raw": ".raw", "sqlite": ".sqlite", "pg-dump": ".sql"}[kind]
			fn := filepath.Join(work, "out"+ext)
			how := "good"
			switch {
			case h.rng.Intn(3) > 0:
				good[kind] = fn
			case kind == "sqlite":
				fails++
				early = true
				how = "table exists"
				tn := "flatjsonl"
				if transposed && h.rng.Intn(2) == 0 {
					tn += "_tt"
				}
				db, err := sql.Open("sqlite", fn)
				if err == nil {
					_, err = db.Exec(`create table "` + tn + `" (x)`)
					db.Close()
				}
				if err != nil {
					t.Fatal(err)
				}
			case kind != "pg-dump" && transposed && h.rng.Intn(2) == 0:
				fails++
				how = "transposed table is full"
				if err := os.Symlink("/dev/full", filepath.Join(work, "out_tt"+ext)); err != nil {
					t.Fatal(err)
				}
			default:
				fails++
				how = "full"
				if kind == "pg-dump" {
					early = true // writes its tables at once
				}
				if h.rng.Intn(3) == 0 && kind != "pg-dump" {
					fn += ".gz"
					how = "full, compressed"
				}
				if err := os.Symlink("/dev/full", fn); err != nil {
					t.Fatal(err)
				}
			}
			desc += " " + kind + " " + how + ","
			args = append(args, "-"+kind, fn)
		}
		if any {
			h.try(desc, true, func() string {
				ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
				defer cancel()
				cmd := exec.CommandContext(ctx, bin, append(args, input)...)
				var out bytes.Buffer
				cmd.Stdout, cmd.Stderr = &out, &out
				err := cmd.Run()
				var ee *exec.ExitError
				if err != nil && !errors.As(err, &ee) {
					return err.Error()
				}
				if (err != nil) != (fails > 0) {
					return fmt.Sprintf("%d outputs failed, the program ended with %v: %s", fails, err, clipS(out.String(), 300))
				}
				if early || lines > 3 && fails > 0 {
					return ""
				}
				// Failures show at the end only, the other outputs are complete.
				for kind, fn := range good {
					n := 0
					switch kind {
					case "csv", "raw":
						b, err := os.ReadFile(fn)
						if err != nil {
							return err.Error()
						}
						n = bytes.Count(b, []byte("value "))
						if transposed {
							if b, err = os.ReadFile(strings.Replace(fn, "out.", "out_tt.", 1)); err != nil {
								return err.Error()
							}
							if m := bytes.Count(b, []byte("tv")); m != lines {
								return fmt.Sprintf("transposed %s output has %d of %d rows", kind, m, lines)
							}
						}
					default:
						var tabs map[string]sqlTable
						var err error
						if kind == "sqlite" {
							tabs, err = readSQLite(fn)
						} else {
							var b []byte
							if b, err = os.ReadFile(fn); err == nil {
								tabs, err = readPGDump(string(b))
							}
						}
						if err != nil {
							return kind + ": " + err.Error()
						}
						n = len(tabs["flatjsonl"].rows)
						if transposed && len(tabs["flatjsonl_tt"].rows) != 2*lines {
							return fmt.Sprintf("transposed %s table has %d rows for %d lines", kind, len(tabs["flatjsonl_tt"].rows), lines)
						}
					}
					if n != lines {
						return fmt.Sprintf("%s output has %d of %d rows", kind, n, lines)
					}
				}
				return ""
			})
		}
		_ = os.RemoveAll(work)
	}
}
