package flatjsonl

// An independent reference of what the tool should produce, written from the documentation
// and the statements of the properties; it is used to judge runs of the real code.

import (
	"encoding/json"
	"fmt"
	"net/url"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

type refTable struct {
	header []string
	rows   [][]string
}

type refOut struct {
	main   refTable
	tables map[string]*refTable
	lines  [][]leaf
	cols   []string // original keys of the columns of the main table, first key of each
	order  []string
}

func refSplitLines(s string) []string {
	ls := strings.Split(s, "\n")
	if len(ls) > 0 && ls[len(ls)-1] == "" {
		ls = ls[:len(ls)-1]
	}
	for i := range ls {
		ls[i] = strings.TrimSuffix(ls[i], "\r")
	}
	return ls
}

func refWindow(lines []string, off, max int) []string {
	if off > 0 {
		if off >= len(lines) {
			return nil
		}
		lines = lines[off:]
	}
	if max > 0 && len(lines) > max {
		lines = lines[:max]
	}
	return lines
}

// refPattern turns a key pattern into a matcher.
func refPattern(p string) func(string) ([]string, bool) {
	if strings.HasPrefix(p, "^") || strings.HasSuffix(p, "$") || p[0] != '.' {
		r := regexp.MustCompile(p)
		return func(k string) ([]string, bool) {
			m := r.FindStringSubmatch(k)
			return m, m != nil
		}
	}
	ps := strings.Split(p, "*")
	for i := range ps {
		ps[i] = regexp.QuoteMeta(ps[i])
	}
	r := regexp.MustCompile("^" + strings.Join(ps, "([^.]+)") + "$")
	return func(k string) ([]string, bool) {
		m := r.FindStringSubmatch(k)
		return m, m != nil
	}
}

// refLeaves flattens one line as the tool should.
func refLeaves(f Flags, cfg Config, seq int, line string) []leaf {
	var out []leaf
	if f.AddSequence {
		out = append(out, leaf{"._sequence", "number", strconv.Itoa(seq)})
	}
	keep := map[string]bool{}
	for _, k := range cfg.KeepJSON {
		keep[k] = true
	}
	ml := f.MatchLinePrefix
	if ml == "" {
		ml = cfg.MatchLinePrefix
	}
	text := line
	if len(line) < 2 || line[0] != '{' {
		i := strings.Index(line, "{")
		if ml != "" {
			pref := line
			if i > 0 {
				pref = line[:i]
			}
			for _, m := range regexp.MustCompile(ml).FindAllStringSubmatch(pref, -1) {
				for j := 1; j < len(m); j++ {
					out = append(out, leaf{"._prefix.[" + strconv.Itoa(j-1) + "]", "string", m[j]})
				}
			}
		}
		if i < 0 {
			return out
		}
		text = line[i:]
	}
	dec := json.NewDecoder(strings.NewReader(text))
	var raw json.RawMessage
	if dec.Decode(&raw) != nil {
		return out
	}
	return refWalk(f, cfg, keep, string(raw), "", out)
}

func refWalk(f Flags, cfg Config, keep map[string]bool, text, base string, out []leaf) []leaf {
	text = strings.TrimSpace(text)
	switch {
	case text[0] == '{' || text[0] == '[':
		if keep[base] {
			return append(out, leaf{base, "json", text})
		}
		dec := json.NewDecoder(strings.NewReader(text))
		t, _ := dec.Token()
		out = append(out, leaf{base, "container", map[bool]string{true: "object", false: "array"}[text[0] == '{']})
		i := 0
		for dec.More() {
			k := "[" + strconv.Itoa(i) + "]"
			if t == json.Delim('{') {
				kt, _ := dec.Token()
				k, _ = kt.(string)
			}
			var raw json.RawMessage
			if dec.Decode(&raw) != nil {
				return out
			}
			out = refWalk(f, cfg, keep, string(raw), base+"."+k, out)
			i++
		}
		return out
	case text[0] == '"':
		var s string
		_ = json.Unmarshal([]byte(text), &s)
		out = append(out, leaf{base, "string", s})
		for p, x := range cfg.ExtractValuesRegex {
			if _, ok := refPattern(p)(base); !ok {
				continue
			}
			if x == extractURL {
				if u, ok := refURL(s); ok {
					return refWalk(f, cfg, keep, u, base+".URL", out)
				}
			} else if json.Valid([]byte(s)) {
				return refWalk(f, cfg, keep, s, base+".JSON", out)
			}
			break
		}
		if f.ExtractStrings && len(s) > 2 {
			if (s[0] == '{' || s[0] == '[') && json.Valid([]byte(s)) {
				return refWalk(f, cfg, keep, s, base+".JSON", out)
			}
			if strings.Contains(s, "://") {
				if u, ok := refURL(s); ok {
					return refWalk(f, cfg, keep, u, base+".URL", out)
				}
			}
		}
		return out
	case text == "true" || text == "false":
		return append(out, leaf{base, "bool", text})
	case text == "null":
		return append(out, leaf{base, "null", ""})
	}
	return append(out, leaf{base, "number", text})
}

func refURL(s string) (string, bool) {
	u, err := url.Parse(s)
	if err != nil {
		return "", false
	}
	var fs []string
	add := func(k, v string) {
		if v != "" {
			fs = append(fs, jsonStr(k)+":"+jsonStr(v))
		}
	}
	add("scheme", u.Scheme)
	add("user", u.User.Username())
	p, _ := u.User.Password()
	add("pass", p)
	add("host", u.Hostname())
	add("port", u.Port())
	if q := u.Query(); len(q) > 0 {
		b, _ := json.Marshal(q)
		fs = append(fs, `"query":`+string(b))
	}
	b, _ := json.Marshal(strings.Split(strings.Trim(u.Path, "/"), "/"))
	fs = append(fs, `"path":`+string(b))
	add("fragment", u.Fragment)
	return "{" + strings.Join(fs, ",") + "}", true
}

type refKey struct {
	orig               string
	zero               bool
	container, scalar  bool
	null               bool
	dst, rowKey, rest  string
	col                int
}

// refTool predicts the output of a run. Case variants of keys, high cardinality and
// snake case renaming are outside of it. With ext the tables are those of a transposition.
func refTool(f Flags, cfg Config, inputs ...string) *refOut {
	out := &refOut{tables: map[string]*refTable{}}
	ck := func(k string) string {
		if f.CaseSensitiveKeys {
			return k
		}
		return strings.ToLower(k)
	}
	if f.GetKey != "" {
		cfg.IncludeKeys = append(append([]string{}, cfg.IncludeKeys...), f.GetKey)
	}
	keys := map[string]*refKey{}
	var order []string
	scan := len(cfg.IncludeKeysRegex) > 0 || len(cfg.IncludeKeys) == 0
	if scan {
		limit := f.MaxLines
		if f.MaxLinesKeys > 0 && (limit <= 0 || f.MaxLinesKeys < limit) {
			limit = f.MaxLinesKeys
		}
		seq := 0
		for _, in := range inputs {
			for _, l := range refWindow(refSplitLines(in), f.OffsetLines, limit) {
				seq++
				for _, lf := range refLeaves(f, cfg, seq, l) {
					if lf.path == "" {
						continue
					}
					c := ck(lf.path)
					k := keys[c]
					if k == nil {
						k = &refKey{orig: lf.path, zero: true}
						keys[c] = k
						order = append(order, c)
					}
					switch lf.kind {
					case "container":
						k.container, k.zero = true, false
					case "null":
						k.null = true
					case "json":
						k.scalar, k.zero = true, false
					default:
						k.scalar = true
						if !(lf.text == "" || lf.kind == "bool" && lf.text == "false" || lf.kind == "number" && refZero(lf.text)) {
							k.zero = false
						}
					}
				}
			}
		}
		var o2 []string
		for _, c := range order {
			if k := keys[c]; !k.container || k.scalar {
				o2 = append(o2, c)
			}
		}
		order = o2
		for _, k := range keys {
			best := ""
			for p, dst := range cfg.Transpose {
				if strings.HasPrefix(k.orig, p) && len(k.orig) > len(p) && len(p) >= len(best) {
					best = p
					k.dst = dst
				}
			}
			if k.dst == "" {
				continue
			}
			rest := strings.TrimPrefix(strings.TrimPrefix(k.orig, best), ".")
			seg, tail := rest, ""
			if i := strings.Index(rest, "."); i >= 0 {
				seg, tail = rest[:i], rest[i:]
			}
			if m := regexp.MustCompile(`^\[(0|[1-9][0-9]{0,17})\]$`).FindStringSubmatch(seg); m != nil {
				seg = m[1]
			}
			if tail == "" {
				tail = "._value"
			}
			k.rowKey, k.rest = seg, tail
		}
	}
	out.order = order
	// Selection.
	excluded := func(k string) bool {
		for _, e := range cfg.ExcludeKeys {
			if ck(e) == ck(k) {
				return true
			}
		}
		for _, p := range cfg.ExcludeKeysRegex {
			if _, ok := refPattern(p)(k); ok {
				return true
			}
		}
		return false
	}
	var sel []string // keys as written, in order
	has := map[string]bool{}
	for _, k := range cfg.IncludeKeys {
		if !has[k] && !excluded(k) {
			has[k] = true
			sel = append(sel, k)
		}
	}
	for _, c := range order {
		k := keys[c]
		if has[k.orig] || excluded(k.orig) {
			continue
		}
		ok := false
		if len(cfg.IncludeKeysRegex) > 0 {
			for _, p := range cfg.IncludeKeysRegex {
				if _, m := refPattern(p)(k.orig); m {
					ok = true
				}
			}
		} else if len(cfg.IncludeKeys) == 0 {
			ok = !f.SkipZeroCols || !k.zero
		}
		if ok {
			has[k.orig] = true
			sel = append(sel, k.orig)
		}
	}
	// Naming.
	repl := map[string]string{}
	for k, r := range cfg.ReplaceKeys {
		repl[ck(k)] = r
	}
	name := func(k string, idx int) (r string) {
		if r, ok := repl[ck(k)]; ok {
			return r
		}
		defer func() {
			if f.KeyLimit > 0 && len(r) > f.KeyLimit {
				is := strconv.Itoa(idx)
				n := f.KeyLimit - len(is)
				if n < 0 {
					n = 0
				}
				r = r[:n] + is
			}
		}()
		for p, rep := range cfg.ReplaceKeysRegex {
			if m, ok := refPattern(p)(k); ok {
				for i := 1; i < len(m); i++ {
					rep = strings.ReplaceAll(rep, "${"+strconv.Itoa(i)+"}", regexp.MustCompile(`\s+`).ReplaceAllString(strings.TrimSpace(m[i]), "_"))
				}
				return rep
			}
		}
		return k
	}
	type tcol struct {
		key  *refKey
		path string
	}
	colOf := map[string]int{} // canonical key -> main column
	byName := map[string]int{}
	consts := map[int]string{}
	tcols := map[string][]tcol{}
	tidx := map[string]map[string]int{}
	for i, s := range sel {
		k := keys[ck(s)]
		if k != nil && k.dst != "" {
			t := out.tables[k.dst]
			if t == nil {
				t = &refTable{header: []string{name("._sequence", 0), name("._index", 0)}}
				out.tables[k.dst] = t
				tidx[k.dst] = map[string]int{}
			}
			if _, ok := tidx[k.dst][k.rest]; !ok {
				tidx[k.dst][k.rest] = len(t.header)
				t.header = append(t.header, name(k.rest, 0))
			}
			tcols[k.dst] = append(tcols[k.dst], tcol{k, s})
			continue
		}
		n := name(s, i)
		j, ok := byName[n]
		if !ok {
			j = len(out.main.header)
			byName[n] = j
			out.main.header = append(out.main.header, n)
			out.cols = append(out.cols, s)
		}
		colOf[ck(s)] = j
		if strings.HasPrefix(s, "const:") {
			consts[j] = strings.TrimPrefix(s, "const:")
		}
	}
	// Rows.
	seq := 0
	for _, in := range inputs {
		for _, l := range refWindow(refSplitLines(in), f.OffsetLines, f.MaxLines) {
			seq++
			ls := refLeaves(f, cfg, seq, l)
			out.lines = append(out.lines, ls)
			row := make([]string, len(out.main.header))
			set := make([]string, len(out.main.header)) // "" absent, "null", "v"
			tv := map[string]leaf{}
			join := func(cur, curKind, t, kind string) (string, string) {
				if curKind == "" {
					return t, kind
				}
				if cfg.ConcatDelimiter == nil {
					return cur, curKind
				}
				if curKind == "null" {
					cur = "NULL"
				}
				if kind == "null" {
					t = "NULL"
				}
				return cur + *cfg.ConcatDelimiter + t, "v"
			}
			for _, lf := range ls {
				if lf.kind == "container" {
					continue
				}
				t := lf.text
				if f.FieldLimit > 0 && (lf.kind == "string" || lf.kind == "json") && len(t) > f.FieldLimit {
					t = t[:f.FieldLimit]
				}
				kind := "v"
				if lf.kind == "null" {
					kind = "null"
				}
				c := ck(lf.path)
				if j, ok := colOf[c]; ok {
					row[j], set[j] = join(row[j], set[j], t, kind)
				} else {
					o := tv[c]
					o.text, o.kind = join(o.text, o.kind, t, kind)
					tv[c] = o
				}
			}
			for j := range row {
				if set[j] == "null" {
					row[j] = ""
				}
			}
			for j, v := range consts {
				row[j] = v
			}
			if len(row) > 0 {
				out.main.rows = append(out.main.rows, row)
			}
			for dst, cols := range tcols {
				t := out.tables[dst]
				rows := map[string]int{}
				for _, tc := range cols {
					v, ok := tv[ck(tc.path)]
					if !ok {
						continue
					}
					r, ok := rows[tc.key.rowKey]
					if !ok {
						r = len(t.rows)
						rows[tc.key.rowKey] = r
						nr := make([]string, len(t.header))
						nr[0], nr[1] = strconv.Itoa(seq), tc.key.rowKey
						t.rows = append(t.rows, nr)
					}
					if v.kind == "null" {
						v.text = ""
					}
					t.rows[r][tidx[dst][tc.key.rest]] = v.text
				}
			}
		}
	}
	return out
}

func refZero(s string) bool {
	v, err := strconv.ParseFloat(s, 64)
	return err == nil && v == 0
}

// cmpTable compares a produced table with the reference; with keyed columns are matched by name.
func cmpTable(what string, header []string, rows [][]string, want refTable, keyed bool) string {
	perm := make([]int, len(want.header))
	if keyed {
		a, b := append([]string{}, header...), append([]string{}, want.header...)
		sort.Strings(a)
		sort.Strings(b)
		if fmt.Sprintf("%q", a) != fmt.Sprintf("%q", b) {
			return fmt.Sprintf("%s has columns %q, want %q in any order", what, header, want.header)
		}
		used := map[int]bool{}
		for i, n := range want.header {
			for j, m := range header {
				if m == n && !used[j] {
					perm[i] = j
					used[j] = true
					break
				}
			}
		}
	} else {
		if fmt.Sprintf("%q", header) != fmt.Sprintf("%q", want.header) {
			return fmt.Sprintf("%s has columns %q, want %q", what, header, want.header)
		}
		for i := range perm {
			perm[i] = i
		}
	}
	if len(rows) != len(want.rows) {
		return fmt.Sprintf("%s has %d rows, want %d: %s", what, len(rows), len(want.rows), clipS(fmt.Sprintf("%q instead of %q", rows, want.rows), 600))
	}
	for i, r := range rows {
		if len(r) != len(header) {
			return fmt.Sprintf("%s row %d has %d cells, header has %d: %q", what, i+1, len(r), len(header), r)
		}
		for j, n := range want.header {
			if got, w := r[perm[j]], want.rows[i][j]; !sameCell(got, w) {
				return fmt.Sprintf("%s row %d column %q is %q, want %q", what, i+1, n, clipS(got, 300), clipS(w, 300))
			}
		}
	}
	return ""
}

// sameCell compares cells; JSON texts of containers are compared as JSON.
func sameCell(a, b string) bool {
	if a == b {
		return true
	}
	if a == "" || b == "" || (b[0] != '{' && b[0] != '[') {
		return false
	}
	var x, y any
	d1, d2 := json.NewDecoder(strings.NewReader(a)), json.NewDecoder(strings.NewReader(b))
	d1.UseNumber()
	d2.UseNumber()
	if d1.Decode(&x) != nil || d2.Decode(&y) != nil {
		return false
	}
	bx, _ := json.Marshal(x)
	by, _ := json.Marshal(y)
	return string(bx) == string(by)
}

// compareRun runs the tool and compares everything it wrote with the reference.
func (h *vh) compareRun(f Flags, cfg Config, keyed bool, inputs ...string) string {
	return h.compareWith(f, cfg, cfg, keyed, inputs...)
}

// compareWith has another configuration for the reference.
func (h *vh) compareWith(f Flags, cfg, rcfg Config, keyed bool, inputs ...string) string {
	want := refTool(f, rcfg, inputs...)
	res := h.runTool(f, cfg, inputs...)
	if res.err != nil {
		return "error: " + res.err.Error()
	}
	if len(want.main.header) == 0 && len(res.header) == 1 && res.header[0] == "" {
		res.header = nil
	}
	if m := cmpTable("the main table", res.header, res.rows, want.main, keyed); m != "" {
		return m
	}
	if len(res.tables) != len(want.tables) {
		return fmt.Sprintf("transposed tables %v, want %d of them", sortedNames(res.tables), len(want.tables))
	}
	for dst, w := range want.tables {
		t, ok := res.tables[dst]
		if !ok || len(t) == 0 {
			return fmt.Sprintf("transposed table %q is missing", dst)
		}
		if keyed { // rows of one line may come in another order
			sortRows(t[1:], t[0])
			sortRows(w.rows, w.header)
		}
		if m := cmpTable("transposed table "+strconv.Quote(dst), t[0], t[1:], *w, keyed); m != "" {
			return m
		}
	}
	return ""
}

func sortRows(rows [][]string, header []string) {
	sort.SliceStable(rows, func(i, j int) bool {
		a, b := rows[i], rows[j]
		if len(a) < 2 || len(b) < 2 || a[0] != b[0] {
			return false
		}
		return a[1] < b[1]
	})
}

func sortedNames[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// describe renders a case.
func describe(f Flags, cfg Config, inputs []string) string {
	c, _ := json.Marshal(cfg)
	d := Flags{}
	var fs []string
	add := func(n string, v, z any) {
		if v != z {
			fs = append(fs, fmt.Sprintf("%s=%v", n, v))
		}
	}
	add("MaxLines", f.MaxLines, d.MaxLines)
	add("OffsetLines", f.OffsetLines, d.OffsetLines)
	add("MaxLinesKeys", f.MaxLinesKeys, d.MaxLinesKeys)
	add("FieldLimit", f.FieldLimit, d.FieldLimit)
	add("ChildrenLimit", f.ChildrenLimit, d.ChildrenLimit)
	add("KeyLimit", f.KeyLimit, d.KeyLimit)
	add("GetKey", f.GetKey, d.GetKey)
	add("ReplaceKeys", f.ReplaceKeys, d.ReplaceKeys)
	add("ExtractStrings", f.ExtractStrings, d.ExtractStrings)
	add("SkipZeroCols", f.SkipZeroCols, d.SkipZeroCols)
	add("AddSequence", f.AddSequence, d.AddSequence)
	add("MatchLinePrefix", f.MatchLinePrefix, d.MatchLinePrefix)
	add("CaseSensitiveKeys", f.CaseSensitiveKeys, d.CaseSensitiveKeys)
	add("SQLMaxCols", f.SQLMaxCols, d.SQLMaxCols)
	add("Concurrency", f.Concurrency, d.Concurrency)
	var ex map[string]any
	_ = json.Unmarshal(c, &ex)
	for k, v := range ex {
		if v == nil || v == "" {
			delete(ex, k)
		}
	}
	c, _ = json.Marshal(ex)
	return fmt.Sprintf("flags {%s} config %s inputs %s", strings.Join(fs, " "), c, clipS(fmt.Sprintf("%q", inputs), 1500))
}

// feat selects what a random case exercises.
type feat struct {
	keys       []string
	depth      int
	lines      int
	inputs     int
	window     bool // offset and line limits
	include    bool // inclusion and exclusion
	replace    bool // column names
	transpose  bool
	concat     bool
	extract    bool
	keepJSON   bool
	prefix     bool // line prefixes and lines without JSON
	garbage    bool
	limitField bool
	sequence   bool
	zeroCols   bool
	caseSens   bool
	consts     bool
	parallel   bool
	wide       bool // sometimes many columns
}

var refKeys = []string{"a", "b", "c", "a.b", "Foo", "bar_baz", "x y", "É", "k0", "id", "tags", "JSON", "0", "[0]", "[1"}

// scenario makes a random case.
func (h *vh) scenario(ft feat) (f Flags, cfg Config, inputs []string) {
	keys := ft.keys
	if keys == nil {
		keys = refKeys
		if h.rng.Intn(2) == 0 {
			n := 2 + h.rng.Intn(4)
			o := h.rng.Intn(len(keys) - n)
			keys = keys[o : o+n]
		}
	}
	if ft.wide && h.rng.Intn(8) == 0 {
		keys = nil
		for i := 0; i < 40+h.rng.Intn(100); i++ {
			keys = append(keys, "w"+strconv.Itoa(i))
		}
		h.width = 2 * len(keys)
		defer func() { h.width = 0 }()
	}
	f.Concurrency = 1
	if ft.parallel {
		f.Concurrency = 1 + h.rng.Intn(8)
	}
	h.plain = ft.extract
	defer func() { h.plain = false }()
	maybe := func(on bool, n int) bool { return on && h.rng.Intn(n) == 0 }
	f.AddSequence = maybe(ft.sequence, 2)
	f.SkipZeroCols = maybe(ft.zeroCols, 2)
	f.CaseSensitiveKeys = maybe(ft.caseSens, 3)
	f.ExtractStrings = maybe(ft.extract, 2)
	if maybe(ft.limitField, 2) {
		f.FieldLimit = 1 + h.rng.Intn(6)
	}
	depth, nl, ni := ft.depth, ft.lines, 1
	if nl == 0 {
		nl = 5
	}
	if ft.inputs > 1 {
		ni = 1 + h.rng.Intn(ft.inputs)
	}
	for i := 0; i < ni; i++ {
		var sb strings.Builder
		n := 1 + h.rng.Intn(nl)
		if h.rng.Intn(8) == 0 {
			n = 1
		}
		for j := 0; j < n; j++ {
			l := h.genObjectX(depth, keys, ft.extract)
			if maybe(ft.prefix, 2) {
				l = h.pick("", "12:30 host ", "2024 ERR ", "a=1 b=2 ", "x ", " ", "\t") + l
			}
			if maybe(ft.garbage || ft.prefix, 5) {
				l = h.pick("no json here", "", "x", "{", "{]", `{"a":`, "[1,2]", "12 host only", `{"a":1}tail`, `"str"`, "17")
			}
			sb.WriteString(l)
			if j+1 < n || h.rng.Intn(4) > 0 {
				sb.WriteString("\n")
			}
		}
		inputs = append(inputs, sb.String())
	}
	if maybe(ft.window, 2) {
		f.OffsetLines = h.rng.Intn(nl + 1)
	}
	if maybe(ft.window, 2) {
		f.MaxLines = h.rng.Intn(nl + 2)
	}
	if maybe(ft.window, 3) {
		f.MaxLinesKeys = h.rng.Intn(nl + 2)
	}
	if maybe(ft.prefix, 2) {
		f.MatchLinePrefix = h.pick(`(\d+)`, `(\w+)=(\w+)`, `^(\S+) (\S+)`, `(host)?`, `[a-z]+`)
	}
	// Paths in the data, to configure something that matters.
	var paths, conts []string
	seen := map[string]bool{}
	for _, in := range inputs {
		for _, l := range refSplitLines(in) {
			for _, lf := range refLeaves(Flags{ExtractStrings: f.ExtractStrings, AddSequence: f.AddSequence, MatchLinePrefix: f.MatchLinePrefix}, Config{}, 1, l) {
				if lf.path != "" && !seen[lf.path] {
					seen[lf.path] = true
					if lf.kind == "container" {
						conts = append(conts, lf.path)
					} else {
						paths = append(paths, lf.path)
					}
				}
			}
		}
	}
	sort.Strings(paths)
	sort.Strings(conts)
	if len(paths) == 0 {
		paths = []string{".a"}
	}
	some := func() string { return paths[h.rng.Intn(len(paths))] }
	pattern := func() string {
		p := some()
		switch h.rng.Intn(5) {
		case 0:
			return "^" + regexp.QuoteMeta(p[:1+h.rng.Intn(len(p)-1+1)-0][:]) + ""
		case 1:
			segs := strings.Split(p, ".")
			segs[len(segs)-1] = "*"
			return strings.Join(segs, ".")
		case 2:
			segs := strings.Split(p, ".")
			if len(segs) > 2 {
				segs[1] = "*"
			}
			return strings.Join(segs, ".")
		}
		return p
	}
	okPattern := func() string {
		for {
			p := pattern()
			if _, err := regexp.Compile(p); err == nil && (strings.HasPrefix(p, "^") || regexp.MustCompile(`^[A-Za-z0-9_. \[\]*]+$`).MatchString(p)) {
				return p
			}
			h.rng.Int()
			if h.rng.Intn(20) == 0 {
				return ".a"
			}
		}
	}
	if ft.include {
		if h.rng.Intn(2) == 0 {
			for i := h.rng.Intn(4); i >= 0; i-- {
				cfg.IncludeKeys = append(cfg.IncludeKeys, some())
			}
			if h.rng.Intn(4) == 0 {
				cfg.IncludeKeys = append(cfg.IncludeKeys, ".not.there")
			}
		}
		if h.rng.Intn(3) == 0 {
			cfg.IncludeKeysRegex = append(cfg.IncludeKeysRegex, okPattern())
			if h.rng.Intn(3) == 0 {
				cfg.IncludeKeysRegex = append(cfg.IncludeKeysRegex, okPattern())
			}
		}
		if h.rng.Intn(3) == 0 {
			cfg.ExcludeKeys = append(cfg.ExcludeKeys, some())
			if !f.CaseSensitiveKeys && h.rng.Intn(2) == 0 {
				cfg.ExcludeKeys = append(cfg.ExcludeKeys, strings.ToUpper(some()))
			}
		}
		if h.rng.Intn(4) == 0 {
			cfg.ExcludeKeysRegex = append(cfg.ExcludeKeysRegex, okPattern())
		}
	}
	if maybe(ft.consts, 2) {
		if len(cfg.IncludeKeys) == 0 {
			for i := h.rng.Intn(3); i >= 0; i-- {
				cfg.IncludeKeys = append(cfg.IncludeKeys, some())
			}
		}
		i := h.rng.Intn(len(cfg.IncludeKeys) + 1)
		cfg.IncludeKeys = append(cfg.IncludeKeys[:i:i], append([]string{"const:" + h.pick("v1", "Some Value", "0")}, cfg.IncludeKeys[i:]...)...)
	}
	if ft.replace && h.rng.Intn(4) > 0 {
		cfg.ReplaceKeys = map[string]string{}
		used := map[string]bool{}
		for i := h.rng.Intn(3); i >= 0; i-- {
			k := some()
			if !used[strings.ToLower(k)] {
				used[strings.ToLower(k)] = true
				cfg.ReplaceKeys[k] = h.pick("same", "same", "Same", "n1", "N1", "n2", "Col X", ".b", `q"u`)
			}
		}
		if h.rng.Intn(3) == 0 {
			cfg.ReplaceKeysRegex = map[string]string{okStar(some()): h.pick("r_${1}", "all", "${1}.${2}", "p")}
		}
	}
	if maybe(ft.concat, 2) {
		d := h.pick(",", "", " | ", "\n")
		cfg.ConcatDelimiter = &d
	}
	if ft.keepJSON && len(conts) > 0 {
		for i := h.rng.Intn(2); i >= 0; i-- {
			cfg.KeepJSON = append(cfg.KeepJSON, conts[h.rng.Intn(len(conts))])
		}
	}
	if maybe(ft.extract, 2) {
		cfg.ExtractValuesRegex = map[string]extract{okStar(some()): extract(h.pick("URL", "JSON"))}
	}
	if ft.transpose && len(conts) > 0 {
		cfg.Transpose = map[string]string{}
		for i := h.rng.Intn(2); i >= 0; i-- {
			c := conts[h.rng.Intn(len(conts))]
			cfg.Transpose[c] = "t" + strconv.Itoa(len(cfg.Transpose))
		}
	}
	return f, cfg, inputs
}

func okStar(p string) string {
	if !regexp.MustCompile(`^[A-Za-z0-9_. \[\]]+$`).MatchString(p) {
		return ".a.*"
	}
	segs := strings.Split(p, ".")
	segs[len(segs)-1] = "*"
	return strings.Join(segs, ".")
}

func (h *vh) genObjectX(depth int, keys []string, extract bool) string {
	var fs []string
	used := map[string]bool{}
	n := h.rng.Intn(5)
	if h.width > 0 && h.rng.Intn(2) == 0 {
		n = h.rng.Intn(h.width)
	}
	for i := n; i >= 0; i-- {
		k := keys[h.rng.Intn(len(keys))]
		if used[k] {
			continue
		}
		used[k] = true
		v := h.genValue(depth, keys)
		if extract && h.rng.Intn(4) == 0 {
			h.plain = true
			v = jsonStr(h.genValue(1+h.rng.Intn(2), keys))
		} else if extract && h.rng.Intn(2) == 0 {
			v = jsonStr(h.pick(`{"a":1,"b":[true,null]}`, `[1,{"b":"x"}]`, `{"a":{"c":"{\"d\":2}"}}`, "http://u:p@h.com:80/p/q?x=1&x=2&y=z#fr", "https://z.org/", "://", "{oops", "[", "{}", "[]", `"s"`, "17", "see https://z.org/a b"))
		}
		fs = append(fs, jsonStr(k)+":"+v)
	}
	return "{" + strings.Join(fs, ",") + "}"
}

// runScenarios compares random cases until the time is over.
func (h *vh) runScenarios(max int, mk func() feat) {
	for i := 0; i < max && !h.done(); i++ {
		ft := mk()
		f, cfg, inputs := h.scenario(ft)
		h.try(describe(f, cfg, inputs), true, func() string { return h.compareRun(f, cfg, ft.parallel, inputs...) })
	}
}
