package flatjsonl

// Shared helpers of the replay searches. These files are compiled into the package under
// test through go test -overlay; nothing here is part of the repository.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"
)

type vh struct {
	t        *testing.T
	rng      *rand.Rand
	deadline time.Time
	cases    int
	failure  string
	out      string
	strs     []string // string literals of the code under test and of counterexamples
	nums     []int
	plain    bool // words are plain letters, which are no JSON
	width    int  // most keys of an object, 0 for a few

	mu  sync.Mutex
	cur string
	at  time.Time
}

func newVH(t *testing.T) *vh {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	b, err := strconv.Atoi(os.Getenv("VERIF_BUDGET"))
	if err != nil {
		b = 20
	}
	h := &vh{t: t, rng: rand.New(rand.NewSource(seed + 1)), deadline: time.Now().Add(time.Duration(b) * time.Second), out: os.Getenv("VERIF_OUT")}
	if l, err := os.ReadFile(os.Getenv("VERIF_LITS")); err == nil {
		for _, s := range strings.Split(string(l), "\n") {
			if n, err := strconv.Atoi(s); err == nil {
				h.nums = append(h.nums, n)
			} else if u, err := strconv.Unquote(s); err == nil && len(u) < 40 && !strings.Contains(u, "\n") {
				h.strs = append(h.strs, u)
			}
		}
	}
	h.flush()
	go h.watch()
	return h
}

func (h *vh) watch() {
	for {
		time.Sleep(time.Second)
		h.mu.Lock()
		c, at := h.cur, h.at
		h.mu.Unlock()
		if c != "" && time.Since(at) > 25*time.Second {
			h.mu.Lock()
			h.failure = c + ": did not finish within 25 s"
			h.mu.Unlock()
			h.flush()
			os.Exit(3)
		}
	}
}

func (h *vh) flush() {
	if h.out == "" {
		return
	}
	b, _ := json.Marshal(map[string]any{"Failure": h.failure, "Cases": h.cases})
	_ = os.WriteFile(h.out, b, 0o644)
}

func (h *vh) done() bool { return h.failure != "" || time.Now().After(h.deadline) }

// try runs one case; f returns a description of what is wrong, or "".
// Panics of the code under test are failures. With note the case is written to disk first,
// so that a crash in another goroutine can still be attributed.
func (h *vh) try(desc string, note bool, f func() string) {
	if h.done() {
		return
	}
	h.cases++
	h.mu.Lock()
	h.cur, h.at = desc, time.Now()
	h.mu.Unlock()
	if note && h.out != "" {
		_ = os.WriteFile(h.out+".cur", []byte(desc), 0o644)
	}
	msg := func() (msg string) {
		defer func() {
			if r := recover(); r != nil {
				msg = fmt.Sprintf("panic: %v\n%s", r, clipS(string(debug.Stack()), 2500))
			}
		}()
		return f()
	}()
	h.mu.Lock()
	h.cur = ""
	h.mu.Unlock()
	if msg != "" {
		h.failure = desc + ": " + msg
	}
}

func (h *vh) finish() {
	if h.out != "" {
		_ = os.Remove(h.out + ".cur")
	}
	h.flush()
	h.t.Logf("%d cases", h.cases)
	if h.failure != "" {
		h.t.Error(h.failure)
	}
}

func clipS(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func (h *vh) pick(xs ...string) string { return xs[h.rng.Intn(len(xs))] }

// word gives a short text, sometimes one that occurs in the code or a counterexample.
func (h *vh) word() string {
	if h.plain {
		return strings.Repeat(h.pick("a", "b", "Cd", "x y", "é"), h.rng.Intn(4))
	}
	switch h.rng.Intn(10) {
	case 0:
		if len(h.strs) > 0 {
			return h.strs[h.rng.Intn(len(h.strs))]
		}
	case 1:
		return ""
	case 2:
		return strings.Repeat(string(rune('a'+h.rng.Intn(26))), 1+h.rng.Intn(12))
	}
	n := 1 + h.rng.Intn(4)
	var sb strings.Builder
	for i := 0; i < n; i++ {
		sb.WriteRune([]rune("abcAB01_.-[]\"' é")[h.rng.Intn(16)])
	}
	return sb.String()
}

func (h *vh) num(max int) int {
	if len(h.nums) > 0 && h.rng.Intn(4) == 0 {
		n := h.nums[h.rng.Intn(len(h.nums))] + h.rng.Intn(3) - 1
		if n >= 0 && n <= max {
			return n
		}
	}
	return h.rng.Intn(max + 1)
}

// memInput is an in-memory input.
type memInput struct {
	data []byte
	r    *bytes.Reader
}

func newMemInput(s string) Input {
	return Input{Reader: &memInput{data: []byte(s), r: bytes.NewReader([]byte(s))}}
}

func (m *memInput) Read(p []byte) (int, error) { return m.r.Read(p) }
func (m *memInput) Size() int64                { return int64(len(m.data)) }
func (m *memInput) Reset()                     { m.r = bytes.NewReader(m.data) }
func (m *memInput) Compression() string        { return "" }

// runResult is what one run of the tool produced.
type runResult struct {
	err    error
	dir    string
	stdout string
	header []string
	rows   [][]string
	tables map[string][][]string // transposed tables by name
	raw    string
	p      *Processor
}

// runTool runs the whole tool in a scratch directory.
func (h *vh) runTool(f Flags, cfg Config, inputs ...string) (res *runResult) {
	res = &runResult{tables: map[string][][]string{}}
	dir, err := os.MkdirTemp(os.Getenv("VERIF_TMP"), "case")
	if err != nil {
		h.t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	res.dir = dir
	if f.CSV == "" && f.Raw == "" && f.SQLite == "" && f.PGDump == "" {
		f.CSV = filepath.Join(dir, "out.csv")
	}
	if f.BufSize == 0 {
		f.BufSize = 1 << 16
	}
	if f.Concurrency == 0 {
		f.Concurrency = 4
	}
	var ins []Input
	for _, s := range inputs {
		ins = append(ins, newMemInput(s))
	}
	p, err := NewProcessor(f, cfg, ins...)
	if err != nil {
		res.err = err
		return res
	}
	var so bytes.Buffer
	p.Log = func(args ...any) {}
	p.Stdout = &so
	res.p = p
	res.err = p.Process()
	res.stdout = so.String()
	if b, err := os.ReadFile(filepath.Join(dir, "out.csv")); err == nil {
		recs := readCSV(b)
		if len(recs) > 0 {
			res.header, res.rows = recs[0], recs[1:]
		}
	}
	ms, _ := filepath.Glob(filepath.Join(dir, "out_*.csv"))
	for _, m := range ms {
		if b, err := os.ReadFile(m); err == nil {
			res.tables[strings.TrimSuffix(strings.TrimPrefix(filepath.Base(m), "out_"), ".csv")] = readCSV(b)
		}
	}
	if f.Raw != "" {
		if b, err := os.ReadFile(f.Raw); err == nil {
			res.raw = string(b)
		}
	}
	return res
}

// readCSV parses CSV text without dropping blank lines or carriage returns.
func readCSV(b []byte) (recs [][]string) {
	s := string(b)
	var rec []string
	for len(s) > 0 {
		var f strings.Builder
		if s[0] == '"' {
			i := 1
			for {
				if i >= len(s) {
					return append(recs, []string{"unreadable CSV: quote not closed"})
				}
				if s[i] == '"' {
					if i+1 < len(s) && s[i+1] == '"' {
						f.WriteByte('"')
						i += 2
						continue
					}
					i++
					break
				}
				f.WriteByte(s[i])
				i++
			}
			s = s[i:]
		} else {
			i := strings.IndexAny(s, ",\n")
			if i < 0 {
				i = len(s)
			}
			f.WriteString(s[:i])
			s = s[i:]
		}
		rec = append(rec, f.String())
		switch {
		case s == "":
			recs = append(recs, rec)
			rec = nil
		case s[0] == ',':
			s = s[1:]
			if s == "" {
				rec = append(rec, "")
				recs = append(recs, rec)
				rec = nil
			}
		case s[0] == '\n':
			recs = append(recs, rec)
			rec = nil
			s = s[1:]
		default:
			return append(recs, []string{"unreadable CSV: text after quote"})
		}
	}
	return recs
}

// leaf is one scalar of the reference flattening.
type leaf struct {
	path string
	kind string // string number bool null
	text string // string contents, number spelling, true/false
}

// refFlatten is an independent flattening of a JSON text (document order, duplicates kept).
func refFlatten(line string) ([]leaf, bool) {
	dec := json.NewDecoder(strings.NewReader(line))
	dec.UseNumber()
	var out []leaf
	var walk func(path string) bool
	walk = func(path string) bool {
		tok, err := dec.Token()
		if err != nil {
			return false
		}
		switch v := tok.(type) {
		case json.Delim:
			i := 0
			for dec.More() {
				k := "[" + strconv.Itoa(i) + "]"
				if v == '{' {
					kt, err := dec.Token()
					if err != nil {
						return false
					}
					k = kt.(string)
				}
				if !walk(path + "." + k) {
					return false
				}
				i++
			}
			_, err := dec.Token()
			return err == nil
		case string:
			out = append(out, leaf{path, "string", v})
		case json.Number:
			out = append(out, leaf{path, "number", string(v)})
		case bool:
			out = append(out, leaf{path, "bool", strconv.FormatBool(v)})
		case nil:
			out = append(out, leaf{path, "null", ""})
		}
		return true
	}
	if !walk("") {
		return nil, false
	}
	return out, true
}

func jsonStr(s string) string {
	b, _ := json.Marshal(s)
	return string(b)
}

// genValue makes a random JSON value.
func (h *vh) genValue(depth int, keys []string) string {
	n := h.rng.Intn(12)
	if depth <= 0 && n < 4 {
		n += 4
	}
	switch n {
	case 0, 1, 2:
		var fs []string
		used := map[string]bool{}
		for i := h.rng.Intn(4); i >= 0; i-- {
			k := keys[h.rng.Intn(len(keys))]
			if used[k] {
				continue
			}
			used[k] = true
			fs = append(fs, jsonStr(k)+":"+h.genValue(depth-1, keys))
		}
		return "{" + strings.Join(fs, ",") + "}"
	case 3:
		var fs []string
		for i := h.rng.Intn(4); i > 0; i-- {
			fs = append(fs, h.genValue(depth-1, keys))
		}
		return "[" + strings.Join(fs, ",") + "]"
	case 4, 5, 6:
		return jsonStr(h.word())
	case 7:
		return h.pick("0", "1", "-1", "12", "100000", "1234567", "9007199254740993", "123456789012345678")
	case 8:
		return h.pick("0.0", "1.5", "-2.25", "1e3", "1.0", "1E-7", "3.14159265358979", "1e400")
	case 9:
		return "true"
	case 10:
		return "false"
	}
	return "null"
}

func (h *vh) genObject(depth int, keys []string) string {
	var fs []string
	used := map[string]bool{}
	for i := h.rng.Intn(5); i >= 0; i-- {
		k := keys[h.rng.Intn(len(keys))]
		if used[k] {
			continue
		}
		used[k] = true
		fs = append(fs, jsonStr(k)+":"+h.genValue(depth, keys))
	}
	return "{" + strings.Join(fs, ",") + "}"
}

var _ = fmt.Sprint

// units are checks of single functions, they are left out when the functions have changed their form.
var units []func(h *vh)

func (h *vh) runUnits() {
	end := h.deadline
	h.deadline = time.Now().Add(time.Until(end) / 2)
	for _, u := range units {
		u(h)
	}
	h.deadline = end
}

func (h *vh) pickInt(xs ...int) int { return xs[h.rng.Intn(len(xs))] }
