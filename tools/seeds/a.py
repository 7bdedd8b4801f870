
seed('c02-limit-by-sequence', 'C02', [('flatjsonl/reader.go',
 'if rd.MaxLines > 0 && rd.MaxLines+rd.OffsetLines <= n {', 'if rd.MaxLines > 0 && rd.MaxLines <= seq {')],
 'two inputs and a line limit', 'the line limit is compared with the sequence that continues across inputs, the second input is cut to one line',
 sh=r'''
for i in 1 2 3 4 5; do echo "{\"a\":\"x$i\"}"; done > 1.jsonl
for i in 1 2 3 4 5; do echo "{\"a\":\"y$i\"}"; done > 2.jsonl
./flatjsonl -verbosity 0 -max-lines 3 -offset-lines 1 -csv out.csv -input 1.jsonl,2.jsonl 2>/dev/null || exit 1
printf '.a\nx2\nx3\nx4\ny2\ny3\ny4\n' > want
cmp out.csv want
''')

seed('c03-short-json-string', 'C03', [('flatjsonl/flattener.go', 'if !fv.ExtractStrings || len(s) <= 2 {', 'if !fv.ExtractStrings || len(s) <= 3 {')],
 'a nested JSON text of exactly three bytes, like [1]', 'the shortest nested JSON texts with a leaf are not expanded under .JSON',
 sh=r'''
printf '{"a":"[7]","b":"[10]"}\n' > 1.jsonl
./flatjsonl -verbosity 0 -extract-strings -csv out.csv 1.jsonl 2>/dev/null || exit 1
printf '.a,.a.JSON.[0],.b,.b.JSON.[0]\n[7],7,[10],10\n' > want
cmp out.csv want
''')

seed('c04-stale-tail', 'C04', [('flatjsonl/processor.go', '	for i := range l.values {\n		l.values[i] = Value{}', '	for i := range l.values[:min(len(l.values), 64)] {\n		l.values[i] = Value{}')],
 'more than 64 columns and a later line that lacks a value of a column after these', 'row buffers are reset in the first 64 columns only, values of earlier lines show up in later rows',
 sh=r'''
python3 - <<'P'
with open('1.jsonl', 'w') as f:
    for i in range(9):
        f.write('{' + ','.join('"k%d":%d' % (j, j) for j in range(80)) + '}\n')
    for i in range(9):
        f.write('{"k0":5}\n')
P
for c in 1 4; do
./flatjsonl -verbosity 0 -concurrency $c -csv out.csv 1.jsonl 2>/dev/null || exit 1
test "$(tail -n +11 out.csv | sort -u)" = "5$(printf ',%.0s' $(seq 79))" || exit 1
done
''')

seed('c05-int-reformat', 'C05', [('flatjsonl/processor.go', '''			Number:    value,
			RawNumber: string(raw),''', '''			Number:    value,
			RawNumber: rawNumber(value, raw),'''), ('flatjsonl/processor.go', '''func (wi *writeIterator) setValue(''', '''func rawNumber(value float64, raw []byte) string {
	if float64(int64(value)) == value && len(raw) > 16 {
		return strconv.FormatInt(int64(value), 10)
	}

	return string(raw)
}

func (wi *writeIterator) setValue(''')],
 'an integer beyond 2^53 or a long spelling of an integral float', 'integers above 2^53 are written through float64 and lose digits',
 sh=r'''
printf '{"a":9007199254740993,"b":12345678901234567}\n{"a":9007199254740993.000,"b":1}\n' > 1.jsonl
./flatjsonl -verbosity 0 -csv out.csv 1.jsonl 2>/dev/null || exit 1
printf '.a,.b\n9007199254740993,12345678901234567\n9007199254740993.000,1\n' > want
cmp out.csv want
''')

seed('c06-transposed-type', 'C06', [('flatjsonl/writer.go', '		k.UpdateType(b.keys[o].t)\n', '''		if u := b.keys[o].t; k.t == TypeInt && u == TypeBool || k.t == TypeBool && u == TypeInt {
			k.t = TypeInt // Both are stored as numbers.
		} else {
			k.UpdateType(u)
		}
''')],
 'a transposed container whose elements have integers and booleans', 'the type of a transposed column with integers and booleans is integer, which does not fit true and false',
 sh=r'''
printf '{"id":1,"t":[{"a":1,"b":2,"c":3,"d":1.5,"e":1,"f":true},{"a":true,"b":"y","c":2.5,"d":"z","e":"w","f":6}]}\n' > 1.jsonl
./flatjsonl -verbosity 0 -config '{"transpose":{".t":"t"}}' -pg-dump out.sql 1.jsonl 2>/dev/null || exit 1
grep -A9 'CREATE TABLE "flatjsonl_t"' out.sql > ddl
for c in a b d e f; do grep -q "\"\.$c\" VARCHAR" ddl || exit 1; done
grep -q '"\.c" FLOAT8' ddl
''')

seed('c07-exclude-case', 'C07', [('flatjsonl/keys.go', '		if excludeKeys[p.ck(k)] {\n			continue', '		if excludeKeys[k] {\n			continue')],
 'a key listed for inclusion and excluded in upper case', 'an excluded key is selected when both lists have it in mixed case',
 sh=r'''
printf '{"userId":1,"b":2}\n' > 1.jsonl
./flatjsonl -verbosity 0 -config '{"includeKeys":[".userId",".b"],"excludeKeys":[".userID"]}' -csv out.csv 1.jsonl 2>/dev/null || exit 1
printf '.b\n2\n' > want
cmp out.csv want
''')

seed('c08-case-merge', 'C08', [('flatjsonl/keys.go', 'if j, ok := keyExists[pk.replaced]; ok {', 'if j, ok := keyExists[p.ck(pk.replaced)]; ok {'),
 ('flatjsonl/keys.go', 'keyExists[pk.replaced] = len(keys)', 'keyExists[p.ck(pk.replaced)] = len(keys)')],
 'two keys with replacement names that differ in case only', 'keys with different names share a column when the names differ in case only',
 sh=r'''
printf '{"a":1,"b":2,"c":3}\n' > 1.jsonl
./flatjsonl -verbosity 0 -config '{"replaceKeys":{".a":"Id",".b":"ID",".c":"id"}}' -csv out.csv 1.jsonl 2>/dev/null || exit 1
printf 'Id,ID,id\n1,2,3\n' > want
cmp out.csv want
''')

seed('c09-only-transposed', 'C09', [('flatjsonl/csv_writer.go', '''	if len(c.b.row) > 0 {
		if err := c.w.Write(c.b.row); err != nil {
			return fmt.Errorf("writing CSV row: %w", err)
		}
	}
''', '''	if len(c.b.row) == 0 {
		return nil
	}

	if err := c.w.Write(c.b.row); err != nil {
		return fmt.Errorf("writing CSV row: %w", err)
	}
''')],
 'a configuration where every key is transposed', 'rows of transposed tables are lost when the main table has no columns',
 sh=r'''
printf '{"t":[1,2]}\n{"t":[3]}\n' > 1.jsonl
./flatjsonl -verbosity 0 -config '{"transpose":{".t":"t"}}' -csv out.csv 1.jsonl 2>/dev/null || exit 1
printf '._sequence,._index,._value\n1,0,1\n1,1,2\n2,0,3\n' > want
cmp out_t.csv want
''')

seed('c10-empty-segment', 'C10', [('flatjsonl/keys.go', '''	if trimmed[0] == '.' {
		trimmed = trimmed[1:]
	}
''', '''	trimmed = strings.TrimLeft(trimmed, ".")
''')],
 'a property with an empty name below a transposed prefix', 'the row key of an empty property name is taken from the segment below it',
 test=r'''package flatjsonl

import "testing"

func TestZZDemo(t *testing.T) {
	for _, c := range []struct{ orig, rk, col string }{{".t..x", "", ".x"}, {".t.a.x", "a", ".x"}, {".t..x.y", "", ".x.y"}, {".t.a", "a", "._value"}} {
		k := flKey{original: c.orig}
		scanTransposedKey("dst", ".t", &k)
		if k.transposeKey.String() != c.rk || k.transposeTrimmed != c.col || k.transposeDst != "dst" {
			t.Fatalf("%s: %+v", c.orig, k)
		}
	}
}
''')

seed('c11-single-column-part', 'C11', [('flatjsonl/pg_dump_writer.go', '		if i > 0 && i%c.maxCols == 0 {\n			createTable = createTable', '		if i > 0 && i%c.maxCols == 0 && (part == 1 || i != len(keys)-1) {\n			createTable = createTable')],
 'a column count that leaves exactly one column for the third part', 'the last table part with a single column is not created but merged in the part before, rows are still cut',
 sh=r'''
printf '{"a":1,"b":2,"c":3,"d":4,"e":5}\n' > 1.jsonl
timeout 20 ./flatjsonl -verbosity 0 -sql-max-cols 3 -pg-dump out.sql 1.jsonl 2>/dev/null || exit 1
grep -q 'COPY "flatjsonl" ("_seq_id",".a",".b") FROM' out.sql && grep -q 'COPY "flatjsonl_part2" ("_seq_id",".c",".d") FROM' out.sql && grep -q 'COPY "flatjsonl_part3" ("_seq_id",".e") FROM' out.sql
''')

seed('c12-copy-quote', 'C12', [('flatjsonl/pg_dump_writer.go', '		copyStmt += sqluct.QuoteANSI(k.replaced) + `,`', '		copyStmt += `"` + k.replaced + `",`')],
 'a key with a double quote', 'column names in the COPY statement are not escaped',
 sh=r'''
printf '{"a\\"b":1,"c":2}\n' > 1.jsonl
./flatjsonl -verbosity 0 -pg-dump out.sql 1.jsonl 2>/dev/null || exit 1
grep -qF 'COPY "flatjsonl" ("_seq_id",".a""b",".c") FROM' out.sql
''')

seed('c13-first-error-stops', 'C13', [('flatjsonl/writer.go', '''		if err := r.ReceiveRow(seq, values); err != nil {
			errs = append(errs, err.Error())
		}
''', '''		if err := r.ReceiveRow(seq, values); err != nil {
			errs = append(errs, err.Error())

			if seq > 1 {
				break
			}
		}
''')],
 'two outputs, the first failing on a later row', 'the outputs after a failing one do not get the row',
 test=r'''package flatjsonl

import (
	"errors"
	"testing"
)

type zzRecv struct {
	fail bool
	rows int
}

func (r *zzRecv) SetupKeys([]flKey) error { return nil }
func (r *zzRecv) Close() error            { return nil }
func (r *zzRecv) ReceiveRow(int64, []Value) error {
	r.rows++
	if r.fail {
		return errors.New("oops")
	}
	return nil
}

func TestZZDemo(t *testing.T) {
	a, b := &zzRecv{fail: true}, &zzRecv{}
	w := &Writer{}
	w.Add(a)
	w.Add(b)
	for i := 1; i <= 3; i++ {
		if err := w.ReceiveRow(int64(i), nil); err == nil {
			t.Fatal("no error")
		}
	}
	if a.rows != 3 || b.rows != 3 {
		t.Fatal(a.rows, b.rows)
	}
}
''')

seed('c14-allow-prefix', 'C14', [('flatjsonl/keys.go', '			if parentKey == ac {\n				allowCardinality = true', '			if strings.HasPrefix(parentKey, ac) {\n				allowCardinality = true')],
 'a high cardinality container whose name extends the name of an allowed one', 'a container is not collapsed because another container with a shorter name is allowed',
 sh=r'''
printf '{"tag":{"a":1,"b":2,"c":3},"tags":{"a":1,"b":2,"c":3}}\n' > 1.jsonl
./flatjsonl -verbosity 0 -children-limit 2 -config '{"allowCardinality":[".tag"]}' -csv out.csv 1.jsonl 2>/dev/null || exit 1
head -1 out.csv > head
printf '.tag.a,.tag.b,.tag.c,.tags\n' > want
cmp head want
''')

seed('c15-extracted-parent', 'C15', [('flatjsonl/flattener.go', '''			pl := len(flatPath)

			flatPath = append(flatPath, []byte(".JSON")...)
''', '''			flatPath = append(flatPath, []byte(".JSON")...)
''')],
 'a JSON text in a string with extraction enabled', 'the parent of an extracted value is taken for the parent of the string itself',
 sh=r'''
printf '{"a":{"b":"{\\"x\\":1}"}}\n' > 1.jsonl
timeout 20 ./flatjsonl -verbosity 0 -extract-strings -show-json-schema 1.jsonl > out.json 2>/dev/null || exit 1
python3 -c "
import json
s=json.load(open('out.json'))
b=s['properties']['a']['properties']['b']
assert b['properties']['JSON']['properties']['x']['type']==['integer'], b
"
''')

seed('c16-group-numbering', 'C16', [('flatjsonl/reader.go', '''			for j := 1; j < len(m); j++ {
''', '''			for j := 1; j < len(m); j++ {
				if m[j] == nil {
					m = append(m[:j], m[j+1:]...)
					j--

					continue
				}

''')],
 'a prefix pattern with an optional group that does not take part in the match', 'captured groups after an absent optional group move to the left',
 sh=r'''
printf '[info] x: {"a":1}\ny: {"a":2}\n' > 1.jsonl
./flatjsonl -verbosity 0 -match-line-prefix '^(?:\[(\w+)\] )?(\w+):' -csv out.csv 1.jsonl 2>/dev/null || exit 1
printf '._prefix.[0],._prefix.[1],.a\ninfo,x,1\n,y,2\n' > want
cmp out.csv want
''')

seed('c17-zst-case', 'C17', [('flatjsonl/flags.go', '			strings.HasSuffix(outputLow, ".raw.zst") {', '			strings.HasSuffix(output, ".raw.zst") {')],
 'an output name ending with .RAW.ZST', 'upper case extension of a zstd RAW output is not recognized',
 test=r'''package flatjsonl

import "testing"

func TestZZDemo(t *testing.T) {
	f := Flags{Output: "a.CSV,b.Raw.Zst,c.raw"}
	f.PrepareOutput()
	if f.CSV != "a.CSV" || f.Raw != "b.Raw.Zst" {
		t.Fatal(f.CSV, f.Raw)
	}
}
''')

seed('c18-lost-update', 'C18', [('flatjsonl/keys.go', '''		k, _ = p.flKeys.Load(pk)

		k.UpdateType(t)
''', '''		k.UpdateType(t)
''')],
 'two workers that find new types of the same key at the same time', 'a type seen by another worker while waiting for the lock is forgotten',
 test=r'''package flatjsonl

import (
	"sync"
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	for n := 0; n < 20; n++ {
		p, err := NewProcessor(Flags{BufSize: 1}, Config{})
		if err != nil {
			t.Fatal(err)
		}
		p.scanKey(7, 0, []string{"a"}, TypeNull, true)
		types := []Type{TypeString, TypeInt, TypeFloat, TypeBool, TypeArray, TypeObject}
		p.mu.Lock() // The workers meet at the lock.
		var wg sync.WaitGroup
		for _, u := range types {
			u := u
			wg.Add(1)
			go func() {
				defer wg.Done()
				p.scanKey(7, 0, []string{"a"}, u, false)
			}()
		}
		time.Sleep(20 * time.Millisecond)
		p.mu.Unlock()
		wg.Wait()
		k, _ := p.flKeys.Load(7)
		for _, u := range types {
			found := false
			for _, x := range k.tt {
				found = found || x == u
			}
			if !found {
				t.Fatalf("type %s is lost: %v", u, k.tt)
			}
		}
	}
}
''')

seed('c19-hier-lost-child', 'C19', [('flatjsonl/flattener.go', '''	s := k.Sub[path[0]]
	s.Name = path[0]
	s.Add(path[1:])
	k.Sub[path[0]] = s
''', '''	s, ok := k.Sub[path[0]]
	s.Name = path[0]
	s.Add(path[1:])

	if !ok || len(path) > 2 {
		k.Sub[path[0]] = s
	}
''')],
 'a path that ends in a node added before as a leaf', 'a direct child of a node that was a leaf is not kept',
 test=r'''package flatjsonl

import "testing"

func TestZZDemo(t *testing.T) {
	k := KeyHierarchy{Name: "."}
	k.Add([]string{"a"})
	k.Add([]string{"a", "b"})
	k.Add([]string{"a", "b", "c"})
	k.Add([]string{"a", "d"})
	k.Add([]string{"x"})
	k.Add([]string{"x", "y"})
	if len(k.Sub) != 2 || len(k.Sub["a"].Sub) != 2 || len(k.Sub["a"].Sub["b"].Sub) != 1 || len(k.Sub["x"].Sub) != 1 {
		t.Fatalf("%+v", k)
	}
}
''')

seed('c20-empty-extra', 'C20', [('cmd/csvequals/main.go', '''	for k, v2 := range m2 {
		diff''', '''	for k, v2 := range m2 {
		if v2 == "" && len(m1) > 0 {
			continue
		}

		diff''')],
 'an additional column that is empty in the second file', 'an additional column with an empty value is not reported',
 sh=r'''
(cd "$OLDPWD" && go build -o "$T/csvequals" ./cmd/csvequals) || exit 2
printf 'a,b\n1,2\n' > 1.csv
printf 'a,b,c\n1,2,\n' > 2.csv
cp 1.csv 3.csv
./csvequals 1.csv 3.csv >/dev/null 2>&1 || exit 1
! ./csvequals 1.csv 2.csv >/dev/null 2>&1
''')

seed('c01-early-advance', 'C01', [('flatjsonl/processor.go', '''	err := wi.p.w.ReceiveRow(seq, l.values)

	atomic.AddInt64(&wi.seqExpected, 1)
''', '''	atomic.AddInt64(&wi.seqExpected, 1)

	err := wi.p.w.ReceiveRow(seq, l.values)
''')],
 'a worker that finishes the next line while a row is being written', 'two rows are handed over at the same time and may be reordered',
 test=r'''package flatjsonl

import (
	"sync/atomic"
	"strings"
	"testing"
	"time"
	"bytes"
)

type zzIn struct {
	s string
	*bytes.Reader
}

func (z *zzIn) Size() int64         { return int64(len(z.s)) }
func (z *zzIn) Reset()              { z.Reader = bytes.NewReader([]byte(z.s)) }
func (z *zzIn) Compression() string { return "" }

type zzRecv struct {
	busy, bad int64
	last int64
}

func (r *zzRecv) SetupKeys([]flKey) error { return nil }
func (r *zzRecv) Close() error            { return nil }
func (r *zzRecv) ReceiveRow(seq int64, _ []Value) error {
	if atomic.AddInt64(&r.busy, 1) != 1 {
		atomic.AddInt64(&r.bad, 1)
	}
	time.Sleep(2 * time.Millisecond)
	if atomic.SwapInt64(&r.last, seq) != seq-1 {
		atomic.AddInt64(&r.bad, 1)
	}
	atomic.AddInt64(&r.busy, -1)
	return nil
}

func TestZZDemo(t *testing.T) {
	s := strings.Repeat(`{"a":1,"b":2}`+"\n", 300)
	p, err := NewProcessor(Flags{BufSize: 1000, Concurrency: 8}, Config{}, Input{Reader: &zzIn{s: s, Reader: bytes.NewReader([]byte(s))}})
	if err != nil {
		t.Fatal(err)
	}
	p.Log = func(...any) {}
	r := &zzRecv{}
	p.w.Add(r)
	if err := p.Process(); err != nil {
		t.Fatal(err)
	}
	if r.bad != 0 || r.last != 300 {
		t.Fatal(r.bad, r.last)
	}
}
''')
