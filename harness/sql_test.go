package flatjsonl

// Reading back what the SQL outputs hold. Compiled in for C11, C12 and C13.

import (
	"database/sql"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type sqlTable struct {
	cols []string
	rows [][]*string // nil is NULL
}

func (t sqlTable) String() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%q", t.cols)
	for _, r := range t.rows {
		sb.WriteString(" [")
		for i, c := range r {
			if i > 0 {
				sb.WriteString(" ")
			}
			if c == nil {
				sb.WriteString("NULL")
			} else {
				sb.WriteString(strconv.Quote(*c))
			}
		}
		sb.WriteString("]")
	}
	return sb.String()
}

func qid(s string) string { return `"` + strings.ReplaceAll(s, `"`, `""`) + `"` }

// readSQLite reads all tables of a database.
func readSQLite(fn string) (map[string]sqlTable, error) {
	db, err := sql.Open("sqlite", fn)
	if err != nil {
		return nil, err
	}
	defer db.Close()
	names := map[string][]string{}
	rows, err := db.Query("select name from sqlite_master where type='table'")
	if err != nil {
		return nil, err
	}
	for rows.Next() {
		var n string
		if err := rows.Scan(&n); err != nil {
			return nil, err
		}
		names[n] = nil
	}
	rows.Close()
	res := map[string]sqlTable{}
	for n := range names {
		rows, err := db.Query("select * from " + qid(n) + " order by rowid")
		if err != nil {
			return nil, err
		}
		t := sqlTable{}
		t.cols, err = rows.Columns()
		if err != nil {
			return nil, err
		}
		for rows.Next() {
			vals := make([]any, len(t.cols))
			ptrs := make([]any, len(t.cols))
			for i := range vals {
				ptrs[i] = &vals[i]
			}
			if err := rows.Scan(ptrs...); err != nil {
				return nil, err
			}
			var r []*string
			for _, v := range vals {
				var s *string
				if v != nil {
					x := fmt.Sprint(v)
					switch v := v.(type) {
					case []byte:
						x = string(v)
					case float64:
						x = strconv.FormatFloat(v, 'g', -1, 64)
					}
					s = &x
				}
				r = append(r, s)
			}
			t.rows = append(t.rows, r)
		}
		rows.Close()
		if err := rows.Err(); err != nil {
			return nil, err
		}
		res[n] = t
	}
	return res, nil
}

// readPGDump executes the CREATE TABLE and COPY statements of a dump.
func readPGDump(s string) (map[string]sqlTable, error) {
	res := map[string]sqlTable{}
	ident := func() (string, error) {
		s = strings.TrimLeft(s, " \t\n,(")
		if s == "" || s[0] != '"' {
			return "", fmt.Errorf("quoted name expected at %q", clipS(s, 60))
		}
		var sb strings.Builder
		i := 1
		for {
			if i >= len(s) {
				return "", fmt.Errorf("name is not closed")
			}
			if s[i] == '"' {
				if i+1 < len(s) && s[i+1] == '"' {
					sb.WriteByte('"')
					i += 2
					continue
				}
				break
			}
			sb.WriteByte(s[i])
			i++
		}
		s = s[i+1:]
		return sb.String(), nil
	}
	for {
		s = strings.TrimLeft(s, " \t\n")
		switch {
		case s == "":
			return res, nil
		case strings.HasPrefix(s, "SELECT '"):
			i := strings.Index(s, ";\n")
			if i < 0 {
				return nil, fmt.Errorf("statement is not closed: %q", clipS(s, 60))
			}
			s = s[i+1:]
		case strings.HasPrefix(s, "CREATE TABLE "):
			s = strings.TrimPrefix(s, "CREATE TABLE ")
			n, err := ident()
			if err != nil {
				return nil, err
			}
			if _, ok := res[n]; ok {
				return nil, fmt.Errorf("table %q is created twice", n)
			}
			s = strings.TrimLeft(s, " \n\t")
			if !strings.HasPrefix(s, "(") {
				return nil, fmt.Errorf("columns of %q expected at %q", n, clipS(s, 60))
			}
			t := sqlTable{}
			for {
				c, err := ident()
				if err != nil {
					return nil, err
				}
				for _, o := range t.cols {
					if o == c {
						return nil, fmt.Errorf("column %q is twice in %q", c, n)
					}
				}
				t.cols = append(t.cols, c)
				i := strings.IndexAny(s, ",)")
				if i < 0 {
					return nil, fmt.Errorf("columns of %q are not closed", n)
				}
				tp := strings.TrimSpace(s[:i])
				switch tp {
				case "INT8", "INT8 primary key", "BOOL", "FLOAT8", "VARCHAR", "TIMESTAMP":
				default:
					return nil, fmt.Errorf("column %q has unknown type %q", c, tp)
				}
				end := s[i] == ')'
				s = s[i+1:]
				if end {
					break
				}
			}
			if !strings.HasPrefix(s, ";") {
				return nil, fmt.Errorf("create of %q is not closed", n)
			}
			s = s[1:]
			res[n] = t
		case strings.HasPrefix(s, "COPY "):
			s = strings.TrimPrefix(s, "COPY ")
			n, err := ident()
			if err != nil {
				return nil, err
			}
			t, ok := res[n]
			if !ok {
				return nil, fmt.Errorf("copy into unknown table %q", n)
			}
			s = strings.TrimLeft(s, " ")
			if !strings.HasPrefix(s, "(") {
				return nil, fmt.Errorf("copied columns expected at %q", clipS(s, 60))
			}
			var cols []string
			for {
				c, err := ident()
				if err != nil {
					return nil, err
				}
				cols = append(cols, c)
				if strings.HasPrefix(s, ")") {
					break
				}
				if !strings.HasPrefix(s, ",") {
					return nil, fmt.Errorf("copied columns of %q are not closed at %q", n, clipS(s, 60))
				}
			}
			if fmt.Sprintf("%q", cols) != fmt.Sprintf("%q", t.cols) {
				return nil, fmt.Errorf("copied columns of %q are %q, created ones %q", n, cols, t.cols)
			}
			i := strings.Index(s, "\n")
			if i < 0 || s[:i] != ") FROM stdin WITH (FORMAT csv);" {
				return nil, fmt.Errorf("copy statement of %q ends with %q", n, clipS(s, 60))
			}
			s = s[i+1:]
			for !strings.HasPrefix(s, "\\.\n") {
				if s == "" {
					return nil, fmt.Errorf("copied data of %q is not closed", n)
				}
				var rec []*string
				for {
					var f *string
					if s != "" && s[0] == '"' {
						x := ""
						i := 1
						for i < len(s) {
							if s[i] == '"' {
								if i+1 < len(s) && s[i+1] == '"' {
									x += `"`
									i += 2
									continue
								}
								break
							}
							x += s[i : i+1]
							i++
						}
						if i >= len(s) {
							return nil, fmt.Errorf("copied value is not closed")
						}
						s = s[i+1:]
						f = &x
					} else {
						i := strings.IndexAny(s, ",\n")
						if i < 0 {
							return nil, fmt.Errorf("copied row is not closed")
						}
						if x := s[:i]; x != "" {
							f = &x
						}
						s = s[i:]
					}
					rec = append(rec, f)
					if s == "" || s[0] != ',' && s[0] != '\n' {
						return nil, fmt.Errorf("text after a copied value: %q", clipS(s, 60))
					}
					c := s[0]
					s = s[1:]
					if c == '\n' {
						break
					}
				}
				if len(rec) != len(t.cols) {
					return nil, fmt.Errorf("row of %q has %d values for %d columns", n, len(rec), len(t.cols))
				}
				t.rows = append(t.rows, rec)
			}
			s = s[3:]
			res[n] = t
		default:
			return nil, fmt.Errorf("unexpected statement %q", clipS(s, 60))
		}
	}
}

// runSQL runs the tool with both SQL outputs.
func (h *vh) runSQL(f Flags, cfg Config, inputs ...string) (lite, pg map[string]sqlTable, err error) {
	dir, err := os.MkdirTemp(os.Getenv("VERIF_TMP"), "sql")
	if err != nil {
		h.t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	f.SQLite = filepath.Join(dir, "out.sqlite")
	f.PGDump = filepath.Join(dir, "out.sql")
	if f.SQLTable == "" {
		f.SQLTable = "tbl"
	}
	res := h.runTool(f, cfg, inputs...)
	if res.err != nil {
		return nil, nil, res.err
	}
	if lite, err = readSQLite(f.SQLite); err != nil {
		return nil, nil, fmt.Errorf("SQLite database: %w", err)
	}
	b, err := os.ReadFile(f.PGDump)
	if err != nil {
		return nil, nil, err
	}
	if pg, err = readPGDump(string(b)); err != nil {
		return nil, nil, fmt.Errorf("PostgreSQL dump: %w", err)
	}
	return lite, pg, nil
}

// splitParts cuts a table in parts of at most max columns with the sequence.
func splitParts(name string, max int, header []string, seqs []string, rows [][]*string) map[string]sqlTable {
	res := map[string]sqlTable{}
	for part, i := 1, 0; part == 1 || i < len(header); part++ {
		j := i + max - 1
		if j > len(header) {
			j = len(header)
		}
		n := name
		if part > 1 {
			n += "_part" + strconv.Itoa(part)
		}
		t := sqlTable{cols: append([]string{"_seq_id"}, header[i:j]...)}
		for k, r := range rows {
			t.rows = append(t.rows, append([]*string{&seqs[k]}, r[i:j]...))
		}
		res[n] = t
		i = j
	}
	return res
}

// sameSQL compares the tables read back with the wanted ones. An empty text may be NULL where it is allowed.
func sameSQL(got, want map[string]sqlTable, emptyNull bool, same func(a, b string) bool) string {
	var gn, wn []string
	for n := range got {
		gn = append(gn, n)
	}
	for n := range want {
		wn = append(wn, n)
	}
	sort.Strings(gn)
	sort.Strings(wn)
	if fmt.Sprintf("%q", gn) != fmt.Sprintf("%q", wn) {
		return fmt.Sprintf("tables %q, want %q", gn, wn)
	}
	for _, n := range wn {
		g, w := got[n], want[n]
		bad := len(g.rows) != len(w.rows) || fmt.Sprintf("%q", g.cols) != fmt.Sprintf("%q", w.cols)
		for i := 0; !bad && i < len(w.rows); i++ {
			for j := range w.rows[i] {
				a, b := g.rows[i][j], w.rows[i][j]
				if emptyNull {
					if a != nil && *a == "" {
						a = nil
					}
					if b != nil && *b == "" {
						b = nil
					}
				}
				if (a == nil) != (b == nil) || a != nil && !same(*a, *b) {
					bad = true
				}
			}
		}
		if bad {
			return fmt.Sprintf("table %q is %s, want %s", n, clipS(g.String(), 600), clipS(w.String(), 600))
		}
	}
	return ""
}
