From 116073dd5f4a188a84f0168e6527089eaa6609e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:07 +0000
Subject: [PATCH 01/29] fix: combine value types independently of the order
 they are seen in

Type.Update panicked on mixes such as int with object, and the result for
null with object depended on which came first.
---
 flatjsonl/type.go | 51 ++++++++++++++++++++++++-----------------------
 1 file changed, 26 insertions(+), 25 deletions(-)

diff --git a/flatjsonl/type.go b/flatjsonl/type.go
index c0a3638..aed8e59 100644
--- a/flatjsonl/type.go
+++ b/flatjsonl/type.go
@@ -17,43 +17,44 @@ const (
 )
 
 // Update merges original type with updated.
+//
+// The result does not depend on the order of updates.
 func (t Type) Update(u Type) Type {
-	// Undefined type is replaced by update.
-	if t == TypeAbsent || t == TypeNull {
-		return u
-	}
-
-	if t == TypeObject || t == TypeArray {
-		return u
-	}
-
 	// Same type is not updated.
 	if t == u {
 		return t
 	}
 
-	// String replaces any type.
-	if u == TypeString || t == TypeString {
-		return TypeString
-	}
-
-	if u == TypeNull {
+	// Undefined, null and container types do not constrain scalar values.
+	if tr, ur := t.rank(), u.rank(); tr < ur {
+		return u
+	} else if ur < tr {
 		return t
 	}
 
-	// Bool and non-bool make unconstrained type: string.
-	if (t == TypeBool && u != TypeBool) || (t != TypeBool && u == TypeBool) {
-		return TypeString
-	}
-
 	// Float overrides Int.
-	if t == TypeInt && u == TypeFloat {
+	if (t == TypeInt && u == TypeFloat) || (t == TypeFloat && u == TypeInt) {
 		return TypeFloat
 	}
 
-	if t == TypeFloat && u == TypeInt {
-		return TypeFloat
-	}
+	// Any other mix of scalars makes unconstrained type: string.
+	return TypeString
+}
 
-	panic("don't know how to update " + t + " with " + u)
+// rank orders types by precedence, all scalars are equally important.
+func (t Type) rank() int {
+	switch t {
+	case TypeAbsent:
+		return 0
+	case TypeNull:
+		return 1
+	case TypeArray:
+		return 2
+	case TypeObject:
+		return 3
+	case TypeJSON:
+		return 4
+	default:
+		return 5
+	}
 }
-- 
2.43.0


From de9a436127da3821909bde2b74c4a9bffdd2adb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:28 +0000
Subject: [PATCH 02/29] fix: keep isZero of a newly scanned key

A new key started with isZero=false, so no column was ever recognised as zero and skip-zero-cols skipped nothing.
---
 flatjsonl/keys.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index b381051..ae67907 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -84,7 +84,7 @@ func (p *Processor) initKey(pk, parent uint64, path []string, t Type, isZero boo
 	key := KeyFromPath(path)
 
 	k.UpdateType(t)
-	k.isZero = k.isZero && isZero
+	k.isZero = isZero
 	k.path = pp
 	k.original = key
 	k.canonical = p.ck(key)
-- 
2.43.0


From b04ac687138f4b4ec5a774cf761067041bff462b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:31 +0000
Subject: [PATCH 03/29] fix: drop only the keys below a high cardinality key

Siblings sharing a textual prefix (.foo and .foobar) were dropped too.
---
 flatjsonl/keys.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index ae67907..5a5d586 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -440,7 +440,7 @@ func (p *Processor) prepareScannedKeys() {
 				}
 			}
 
-			if len(k.original) > len(hc) && strings.HasPrefix(k.original, hc) {
+			if strings.HasPrefix(k.original, hc+".") {
 				p.flKeys.Delete(key)
 
 				deleted[k.original] = true
-- 
2.43.0


From 0688d389a5652eca9037185bc9ac040c3b557627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:33 +0000
Subject: [PATCH 04/29] fix: apply offset lines when keys are not scanned

---
 flatjsonl/processor.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index 9e1f037..e082b55 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -465,6 +465,7 @@ func (p *Processor) iterateForWriters() error {
 	})
 
 	p.rd.MaxLines = 0
+	p.rd.OffsetLines = int64(p.f.OffsetLines)
 	atomic.StoreInt64(&p.rd.Sequence, 0)
 	atomic.StoreInt64(&p.errors, 0)
 
-- 
2.43.0


From e1c6a4a0c0e90cdaf29721547953dc73aed64472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:35 +0000
Subject: [PATCH 05/29] fix: do not expect an empty table part in PostgreSQL
 dump

A row with a column count being a multiple of the limit wrote to a missing table part and failed.
---
 flatjsonl/pg_dump_writer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatjsonl/pg_dump_writer.go b/flatjsonl/pg_dump_writer.go
index bd5108e..02de49c 100644
--- a/flatjsonl/pg_dump_writer.go
+++ b/flatjsonl/pg_dump_writer.go
@@ -196,7 +196,7 @@ func (c *PGDumpWriter) insert(seq int64, tn string, values []string) error {
 	tw := c.csvCopiers[tableName]
 
 	for {
-		if len(values) < c.maxCols {
+		if len(values) <= c.maxCols {
 			row := make([]string, 0, len(values)+1)
 			row = append(row, strconv.Itoa(int(seq)))
 			row = append(row, values...)
-- 
2.43.0


From cf7323caeff183ebff03ab2e2da3bab7a134f265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:38 +0000
Subject: [PATCH 06/29] fix: use default columns limit in PostgreSQL dump when
 it is not set

---
 flatjsonl/pg_dump_writer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/flatjsonl/pg_dump_writer.go b/flatjsonl/pg_dump_writer.go
index 02de49c..a08049c 100644
--- a/flatjsonl/pg_dump_writer.go
+++ b/flatjsonl/pg_dump_writer.go
@@ -48,6 +48,10 @@ type csvCopier struct {
 func NewPGDumpWriter(fn string, tableName string, p *Processor) (*PGDumpWriter, error) {
 	var err error
 
+	if p.f.SQLMaxCols == 0 {
+		p.f.SQLMaxCols = 500
+	}
+
 	c := &PGDumpWriter{
 		fn:         fn,
 		tableName:  tableName,
-- 
2.43.0


From c8ac6c01ba1f239188e337002e8a9ee36805c7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:40 +0000
Subject: [PATCH 07/29] fix: escape quotes in SQLite column names

---
 flatjsonl/sqlite_writer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatjsonl/sqlite_writer.go b/flatjsonl/sqlite_writer.go
index 7d27ffc..e28a962 100644
--- a/flatjsonl/sqlite_writer.go
+++ b/flatjsonl/sqlite_writer.go
@@ -242,7 +242,7 @@ _seq_id integer,
 			tp = " REAL"
 		}
 
-		createTable += `"` + k.replaced + `"` + tp + `,` + "\n"
+		createTable += `"` + c.replacer.Replace(k.replaced) + `"` + tp + `,` + "\n"
 	}
 
 	createTable = createTable[:len(createTable)-2] + "\n)"
-- 
2.43.0


From e45920cc0fd123bc1cffae9393d50c76dc2aecdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:42 +0000
Subject: [PATCH 08/29] fix: use text type for other columns in PostgreSQL dump

Columns kept as JSON were declared without any type.
---
 flatjsonl/pg_dump_writer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatjsonl/pg_dump_writer.go b/flatjsonl/pg_dump_writer.go
index a08049c..ccb56ee 100644
--- a/flatjsonl/pg_dump_writer.go
+++ b/flatjsonl/pg_dump_writer.go
@@ -294,7 +294,7 @@ func (c *PGDumpWriter) createTable(tn string, keys []flKey, isTransposed bool) e
 			if _, ok := c.p.cfg.ParseTime[k.original]; ok {
 				tp = " TIMESTAMP"
 			}
-		case TypeAbsent, TypeNull:
+		default:
 			tp = " VARCHAR"
 		}
 
-- 
2.43.0


From 448394837c16b795a16f7cfd69497f664e96e284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:45 +0000
Subject: [PATCH 09/29] fix: keep malformed numbers as strings

The lenient parser accepts numbers such as 1-2, they made the line fail and its row was lost.
---
 flatjsonl/flattener.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/flatjsonl/flattener.go b/flatjsonl/flattener.go
index cf74ed7..17140a2 100644
--- a/flatjsonl/flattener.go
+++ b/flatjsonl/flattener.go
@@ -67,13 +67,15 @@ func (fv *FastWalker) WalkFastJSON(seq int64, flatPath []byte, pl int, path []st
 	case fastjson.TypeString:
 		fv.walkFastJSONString(seq, flatPath, pl, path, v)
 	case fastjson.TypeNumber:
+		fv.buf = fv.buf[:0]
+		fv.buf = v.MarshalTo(fv.buf)
+
 		n, err := v.Float64()
 		if err != nil {
-			panic(fmt.Sprintf("BUG: failed to use JSON number %q at %d:%s: %v", v.String(), seq, string(flatPath), err))
-		}
+			fv.FnString(seq, flatPath, pl, path, fv.buf)
 
-		fv.buf = fv.buf[:0]
-		fv.buf = v.MarshalTo(fv.buf)
+			return
+		}
 
 		fv.FnNumber(seq, flatPath, pl, path, n, fv.buf)
 	case fastjson.TypeFalse, fastjson.TypeTrue:
-- 
2.43.0


From a5a7cf5664016048afd3f5f2474d96b13f794138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:47 +0000
Subject: [PATCH 10/29] fix: write sequence and index numbers exactly

Values from 100000 on were written in exponential notation with 5 digits.
---
 flatjsonl/keys.go   | 5 +++--
 flatjsonl/reader.go | 2 +-
 flatjsonl/writer.go | 5 +++--
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 5a5d586..bacf809 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -59,8 +59,9 @@ func (is intOrString) Value() Value {
 	}
 
 	return Value{
-		Type:   TypeFloat,
-		Number: float64(is.i),
+		Type:      TypeFloat,
+		Number:    float64(is.i),
+		RawNumber: strconv.Itoa(is.i),
 	}
 }
 
diff --git a/flatjsonl/reader.go b/flatjsonl/reader.go
index 08cccda..4ae7009 100644
--- a/flatjsonl/reader.go
+++ b/flatjsonl/reader.go
@@ -319,7 +319,7 @@ func (rd *Reader) doLine(w *syncWorker, seq, n int64, sess *readSession) error {
 
 	if rd.AddSequence {
 		seqf := float64(seq)
-		w.walker.FnNumber(seq, []byte("._sequence"), 0, []string{"_sequence"}, seqf, []byte(Format(seqf)))
+		w.walker.FnNumber(seq, []byte("._sequence"), 0, []string{"_sequence"}, seqf, []byte(strconv.FormatInt(seq, 10)))
 	}
 
 	line := w.line
diff --git a/flatjsonl/writer.go b/flatjsonl/writer.go
index 7caafba..c34b07b 100644
--- a/flatjsonl/writer.go
+++ b/flatjsonl/writer.go
@@ -320,8 +320,9 @@ func (b *baseWriter) receiveTransposedRowValues(seq int64, values []Value) (tran
 		if row == nil {
 			row = make([]Value, len(b.trimmedKeys))
 			row[0] = Value{
-				Type:   TypeFloat,
-				Number: float64(seq),
+				Type:      TypeFloat,
+				Number:    float64(seq),
+				RawNumber: strconv.Itoa(int(seq)),
 			} // Add sequence.
 			row[1] = k.transposeKey.Value() // Add array idx/object property.
 			transposedRowsIdx[transposeKey] = row
-- 
2.43.0


From 11efd05dfa36becc99d59066498ed660704f4457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:50 +0000
Subject: [PATCH 11/29] fix: do not fail on keys without ASCII letters when
 replacing keys

---
 flatjsonl/keys.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index bacf809..c7b926f 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -765,11 +765,7 @@ func (p *Processor) prepareKey(origKey string) (kk string) {
 	snk := strings.Trim(ski, "[]")
 
 	for {
-		if len(snk) == 0 {
-			panic("BUG: empty snk for '" + origKey + "'")
-		}
-
-		if stored, ok := p.replaceByKey[snk]; (!ok || origKey == stored) && (snk[0] == '_' || unicode.IsLetter(rune(snk[0]))) {
+		if stored, ok := p.replaceByKey[snk]; (!ok || origKey == stored) && len(snk) > 0 && (snk[0] == '_' || unicode.IsLetter(rune(snk[0]))) {
 			p.replaceByKey[snk] = origKey
 			origKey = snk
 
@@ -778,7 +774,7 @@ func (p *Processor) prepareKey(origKey string) (kk string) {
 
 		i--
 
-		if i == 0 {
+		if i <= 0 {
 			break
 		}
 
-- 
2.43.0


From 5567d49d04abe3ab09e62c6655fc56f0d5303fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:52 +0000
Subject: [PATCH 12/29] fix: do not fail on unusual keys below transposed
 prefix

Empty and bracketed property names made scanning fail.
---
 flatjsonl/keys.go | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index c7b926f..b1d3c52 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -66,7 +66,7 @@ func (is intOrString) Value() Value {
 }
 
 func (is intOrString) String() string {
-	if is.s != "" {
+	if is.t == TypeString {
 		return is.s
 	}
 
@@ -208,19 +208,11 @@ func scanTransposedKey(dst string, tk string, k *flKey) {
 	}
 
 	// Array.
-	if trimmed[0] == '[' {
-		pos := strings.Index(trimmed, "]")
-		idx := trimmed[1:pos]
-
-		i, err := strconv.Atoi(idx)
-		if err != nil {
-			panic("BUG: failed to parse idx " + idx + ": " + err.Error())
-		}
-
-		trimmed = trimmed[pos+1:]
+	if i, l, ok := arrayIndex(trimmed); ok {
+		trimmed = trimmed[l:]
 		k.transposeKey = intOrString{t: TypeInt, i: i}
 	} else {
-		if pos := strings.Index(trimmed, "."); pos > 0 {
+		if pos := strings.Index(trimmed, "."); pos >= 0 {
 			k.transposeKey = intOrString{t: TypeString, s: trimmed[0:pos]}
 			trimmed = trimmed[pos:]
 		} else {
@@ -237,6 +229,26 @@ func scanTransposedKey(dst string, tk string, k *flKey) {
 	k.transposeTrimmed = trimmed
 }
 
+// arrayIndex parses array index in the first segment of a path, it returns the index and the length of the segment.
+func arrayIndex(path string) (i int, l int, ok bool) {
+	if pos := strings.Index(path, "."); pos >= 0 {
+		path = path[:pos]
+	}
+
+	if len(path) < 3 || path[0] != '[' || path[len(path)-1] != ']' {
+		return 0, 0, false
+	}
+
+	idx := path[1 : len(path)-1]
+
+	i, err := strconv.Atoi(idx)
+	if err != nil || i < 0 || strconv.Itoa(i) != idx {
+		return 0, 0, false
+	}
+
+	return i, len(path), true
+}
+
 type hasher struct {
 	digest *xxhash.Digest
 }
-- 
2.43.0


From f52cc82d7b7527506fcb87e5824b6de62a5af8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:24 +0000
Subject: [PATCH 13/29] fix: use parent path length for values extracted from
 URLs

The key was registered as its own parent, so a JSON schema with such key could not be built.
---
 flatjsonl/flattener.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flatjsonl/flattener.go b/flatjsonl/flattener.go
index 17140a2..4f8b598 100644
--- a/flatjsonl/flattener.go
+++ b/flatjsonl/flattener.go
@@ -228,9 +228,10 @@ func (fv *FastWalker) walkFastJSONString(seq int64, flatPath []byte, pl int, pat
 
 			v, err := p.ParseBytes(us)
 			if err == nil {
-				flatPath = append(flatPath, []byte(".URL")...)
 				pl := len(flatPath)
 
+				flatPath = append(flatPath, []byte(".URL")...)
+
 				if fv.WantPath {
 					fv.WalkFastJSON(seq, flatPath, pl, append(path, "URL"), v)
 				} else {
-- 
2.43.0


From d670410269bc714f5c49dbd87bad55a3b3af7b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:26 +0000
Subject: [PATCH 14/29] fix: combine types of columns merged by replacing

The type of the second key was merged into a discarded key, so the column type did not fit its values.
---
 flatjsonl/keys.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index b1d3c52..25d1036 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -695,8 +695,7 @@ func (p *Processor) prepareKeys() {
 	for i, pk := range p.keys {
 		if pk.transposeDst == "" {
 			if j, ok := keyExists[pk.replaced]; ok {
-				pk.UpdateType(p.keys[i].t)
-				p.keys[i] = pk
+				keys[j].UpdateType(pk.t)
 				keyMap[i] = j
 
 				continue
-- 
2.43.0


From 2af4e71ca2ed97b4a190f97234ab47f23d5fe7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:29 +0000
Subject: [PATCH 15/29] fix: keep all distinct types of a key

Types were added again or skipped depending on order, storage could be shared between copies of the key.
---
 flatjsonl/keys.go | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 25d1036..c1aaabd 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -29,18 +29,21 @@ type flKey struct {
 }
 
 func (k *flKey) UpdateType(u Type) {
-	if len(k.tt) == 0 {
-		k.tt = append(k.tt, u)
-	} else {
-		for _, t := range k.tt {
-			if t != u {
-				k.tt = append(k.tt, u)
+	known := false
 
-				break
-			}
+	for _, t := range k.tt {
+		if t == u {
+			known = true
+
+			break
 		}
 	}
 
+	if !known {
+		// Copies of the key share storage of the slice, so it can not be reused to append.
+		k.tt = append(k.tt[:len(k.tt):len(k.tt)], u)
+	}
+
 	k.t = k.t.Update(u)
 }
 
-- 
2.43.0


From 6db3bcae3c9060b35c3ea2a44e8e16bce3ded4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:31 +0000
Subject: [PATCH 16/29] fix: use index of the original key when limiting key
 length

Index was looked up by the replaced key, so different keys could end up with the same name.
---
 flatjsonl/keys.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index c1aaabd..5060e59 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -728,6 +728,7 @@ func (p *Processor) prepareKeys() {
 
 func (p *Processor) prepareKey(origKey string) (kk string) {
 	ck := p.ck(origKey)
+	idx := p.includeKeys[origKey]
 
 	if rep, ok := p.replaceKeys[ck]; ok {
 		return rep
@@ -735,10 +736,9 @@ func (p *Processor) prepareKey(origKey string) (kk string) {
 
 	defer func() {
 		if p.f.KeyLimit > 0 && len(kk) > p.f.KeyLimit {
-			i := p.includeKeys[kk]
-			is := strconv.Itoa(i)
+			is := strconv.Itoa(idx)
 
-			kk = kk[0:(p.f.KeyLimit-len(is))] + is
+			kk = kk[0:max(p.f.KeyLimit-len(is), 0)] + is
 
 			p.replaceKeys[ck] = kk
 		}
-- 
2.43.0


From cde9b9b9b8b25eb51b0bbc2653f1cc5526159398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:58 +0000
Subject: [PATCH 17/29] fix: report failed lines that are not written

A line that was not finished kept all following rows from output without an error when it was the last one.
---
 flatjsonl/processor.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index e082b55..2871872 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -871,6 +871,10 @@ func (wi *writeIterator) waitPending() error {
 		})
 
 		if cnt == 0 {
+			if pending := wi.pending.Size(); pending > 0 {
+				return fmt.Errorf("could not process %d lines", pending)
+			}
+
 			return nil
 		}
 
-- 
2.43.0


From 0ae991c48b183241a8ea6a70b92af3e24d044e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:00 +0000
Subject: [PATCH 18/29] fix: walk whole document when single key needs an
 extractor

Values extracted with regex were not available, empty path segments made reading fail.
---
 flatjsonl/reader.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flatjsonl/reader.go b/flatjsonl/reader.go
index 4ae7009..93f48c8 100644
--- a/flatjsonl/reader.go
+++ b/flatjsonl/reader.go
@@ -211,13 +211,13 @@ func (rd *Reader) Read(sess *readSession) error {
 		doLineErr error
 	)
 
-	if len(rd.Processor.includeKeys) == 1 && !rd.Processor.f.ExtractStrings {
+	if len(rd.Processor.includeKeys) == 1 && !rd.Processor.f.ExtractStrings && len(rd.Processor.extractRegex) == 0 {
 		for _, i := range rd.Processor.includeKeys {
 			kk := rd.Processor.keys[i]
 			path := make([]string, 0, len(kk.path))
 
 			for _, s := range kk.path {
-				if s[0] == '[' && s[len(s)-1] == ']' {
+				if len(s) > 1 && s[0] == '[' && s[len(s)-1] == ']' {
 					s = s[1 : len(s)-1]
 				}
 
-- 
2.43.0


From b7c8bc83cca479ad4c214d4ede590bbd5ac4567b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:03 +0000
Subject: [PATCH 19/29] fix: report all failures on close of CSV writer

---
 flatjsonl/csv_writer.go | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/flatjsonl/csv_writer.go b/flatjsonl/csv_writer.go
index e65f6be..e8e31b2 100644
--- a/flatjsonl/csv_writer.go
+++ b/flatjsonl/csv_writer.go
@@ -2,7 +2,9 @@ package flatjsonl
 
 import (
 	"encoding/csv"
+	"errors"
 	"fmt"
+	"strings"
 )
 
 // CSVWriter writes rows to CSV file.
@@ -125,15 +127,27 @@ func (c *CSVWriter) ReceiveRow(seq int64, values []Value) error {
 
 // Close flushes rows and closes file.
 func (c *CSVWriter) Close() error {
+	var errs []string
+
 	c.w.Flush()
 
-	for _, tw := range c.transposed {
-		tw.w.Flush()
+	if err := c.w.Error(); err != nil {
+		errs = append(errs, "failed to flush CSV file: "+err.Error())
+	}
 
-		if err := tw.f.Close(); err != nil {
-			println("failed to close transpose CSV file: " + err.Error())
+	for _, tw := range c.transposed {
+		if err := tw.Close(); err != nil {
+			errs = append(errs, "transposed CSV file: "+err.Error())
 		}
 	}
 
-	return c.f.Close()
+	if err := c.f.Close(); err != nil {
+		errs = append(errs, "failed to close CSV file: "+err.Error())
+	}
+
+	if len(errs) > 0 {
+		return errors.New(strings.Join(errs, ", "))
+	}
+
+	return nil
 }
-- 
2.43.0


From c28f3a12dd011a716a55e4c5a733301060abdf72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:06 +0000
Subject: [PATCH 20/29] fix: close all files of RAW writer and report all
 failures

---
 flatjsonl/raw_writer.go | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/flatjsonl/raw_writer.go b/flatjsonl/raw_writer.go
index 0f7916d..3b61c0f 100644
--- a/flatjsonl/raw_writer.go
+++ b/flatjsonl/raw_writer.go
@@ -2,7 +2,9 @@ package flatjsonl
 
 import (
 	"bufio"
+	"errors"
 	"fmt"
+	"strings"
 )
 
 // RawWriter writes rows to RAW file.
@@ -115,19 +117,25 @@ func (c *RawWriter) writeRow(row []string) error {
 
 // Close flushes rows and closes file.
 func (c *RawWriter) Close() error {
+	var errs []string
+
 	if err := c.w.Flush(); err != nil {
-		return fmt.Errorf("failed to flush RAW file: %w", err)
+		errs = append(errs, "failed to flush RAW file: "+err.Error())
 	}
 
 	for _, tw := range c.transposed {
-		if err := tw.w.Flush(); err != nil {
-			return fmt.Errorf("failed to flush transposed RAW file: %w", err)
+		if err := tw.Close(); err != nil {
+			errs = append(errs, "transposed RAW file: "+err.Error())
 		}
+	}
 
-		if err := tw.f.Close(); err != nil {
-			println("failed to close transposed RAW file: " + err.Error())
-		}
+	if err := c.f.Close(); err != nil {
+		errs = append(errs, "failed to close RAW file: "+err.Error())
 	}
 
-	return c.f.Close()
+	if len(errs) > 0 {
+		return errors.New(strings.Join(errs, ", "))
+	}
+
+	return nil
 }
-- 
2.43.0


From 75d657ac7941e7811405394037597727e9742a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:08 +0000
Subject: [PATCH 21/29] fix: report failed commit and close of SQLite and
 PostgreSQL writers

---
 flatjsonl/pg_dump_writer.go | 15 +++++++++++++--
 flatjsonl/sqlite_writer.go  | 18 ++++++++++++++----
 2 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/flatjsonl/pg_dump_writer.go b/flatjsonl/pg_dump_writer.go
index ccb56ee..e6d9ead 100644
--- a/flatjsonl/pg_dump_writer.go
+++ b/flatjsonl/pg_dump_writer.go
@@ -3,6 +3,7 @@ package flatjsonl
 import (
 	"bytes"
 	"encoding/csv"
+	"errors"
 	"fmt"
 	"io"
 	"os"
@@ -322,9 +323,19 @@ func (c *PGDumpWriter) createTable(tn string, keys []flKey, isTransposed bool) e
 
 // Close flushes CSV and closes output file.
 func (c *PGDumpWriter) Close() error {
+	var errs []string
+
 	if err := c.flush(); err != nil {
-		return err
+		errs = append(errs, "failed to flush PostgreSQL dump: "+err.Error())
+	}
+
+	if err := c.f.Close(); err != nil {
+		errs = append(errs, "failed to close PostgreSQL dump: "+err.Error())
 	}
 
-	return c.f.Close()
+	if len(errs) > 0 {
+		return errors.New(strings.Join(errs, ", "))
+	}
+
+	return nil
 }
diff --git a/flatjsonl/sqlite_writer.go b/flatjsonl/sqlite_writer.go
index e28a962..8f858ef 100644
--- a/flatjsonl/sqlite_writer.go
+++ b/flatjsonl/sqlite_writer.go
@@ -2,6 +2,7 @@ package flatjsonl
 
 import (
 	"database/sql"
+	"errors"
 	"fmt"
 	"strconv"
 	"strings"
@@ -257,12 +258,21 @@ _seq_id integer,
 
 // Close commits outstanding transaction and closes database instance.
 func (c *SQLiteWriter) Close() error {
+	var errs []string
+
 	if c.tx != nil {
-		err := c.tx.Commit()
-		if err != nil {
-			println(err.Error())
+		if err := c.commitTx(); err != nil {
+			errs = append(errs, err.Error())
 		}
 	}
 
-	return c.db.Close()
+	if err := c.db.Close(); err != nil {
+		errs = append(errs, "failed to close SQLite database: "+err.Error())
+	}
+
+	if len(errs) > 0 {
+		return errors.New(strings.Join(errs, ", "))
+	}
+
+	return nil
 }
-- 
2.43.0


From fff0ad9be2ee960cec5f46dbf948c490e251018d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:50 +0000
Subject: [PATCH 22/29] fix: use the longest matching transpose prefix

With nested prefixes the table of a key depended on random order of map iteration.
---
 flatjsonl/keys.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 5060e59..71a045b 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -94,11 +94,13 @@ func (p *Processor) initKey(pk, parent uint64, path []string, t Type, isZero boo
 	k.canonical = p.ck(key)
 	k.parent = parent
 
+	transposePrefix := ""
+
 	for tk, dst := range p.cfg.Transpose {
-		if len(k.original) > len(tk) && strings.HasPrefix(k.original, tk) {
-			scanTransposedKey(dst, tk, &k)
+		if len(k.original) > len(tk) && len(tk) >= len(transposePrefix) && strings.HasPrefix(k.original, tk) {
+			transposePrefix = tk
 
-			break
+			scanTransposedKey(dst, tk, &k)
 		}
 	}
 
-- 
2.43.0


From 82de7773fb5f819effa9eac0ba4277b29ee82bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:58 +0000
Subject: [PATCH 23/29] fix: fill columns of included keys that were not found
 in the scanned lines

---
 flatjsonl/keys.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 71a045b..b88acdd 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -490,7 +490,7 @@ func (p *Processor) prepareScannedKeys() {
 }
 
 func (p *Processor) flKeysInit() {
-	if p.flKeys.Size() == 0 && len(p.includeKeys) > 0 {
+	if len(p.includeKeys) > 0 {
 		h := newHasher()
 
 		for key := range p.includeKeys {
@@ -498,6 +498,10 @@ func (p *Processor) flKeysInit() {
 				continue
 			}
 
+			if _, found := p.canonicalKeys[p.ck(key)]; found {
+				continue
+			}
+
 			path := strings.Split(strings.TrimPrefix(key, "."), ".")
 			flatPath := []byte(key)
 			pk := h.hashBytes(flatPath)
-- 
2.43.0


From 2a0bf7483a566a5c002c5a5664300585a0c0cf43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:50 +0000
Subject: [PATCH 24/29] fix: find values of a single key by its flat path

---
 flatjsonl/flattener.go | 26 +++++++++++++++++++++++---
 flatjsonl/reader.go    | 12 +-----------
 2 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/flatjsonl/flattener.go b/flatjsonl/flattener.go
index 4f8b598..2d3efd3 100644
--- a/flatjsonl/flattener.go
+++ b/flatjsonl/flattener.go
@@ -51,9 +51,29 @@ func (fv *FastWalker) configure(p *Processor) {
 
 // GetKey walks into a single key.
 func (fv *FastWalker) GetKey(seq int64, flatPath []byte, path []string, v *fastjson.Value) {
-	vv := v.Get(path...)
-	if vv != nil {
-		fv.WalkFastJSON(seq, flatPath, 0, path, vv)
+	fv.getKey(seq, flatPath, path, flatPath, v)
+}
+
+// getKey walks into the values of a single key, key is the rest of flatPath that is relative to the value.
+func (fv *FastWalker) getKey(seq int64, flatPath []byte, path []string, key []byte, v *fastjson.Value) {
+	if len(key) == 0 {
+		fv.WalkFastJSON(seq, flatPath, 0, path, v)
+
+		return
+	}
+
+	switch v.Type() { //nolint:exhaustive
+	case fastjson.TypeObject:
+		v.GetObject().Visit(func(k []byte, v *fastjson.Value) {
+			// Name of a property may have dots.
+			if l := len(k) + 1; len(key) >= l && bytes.Equal(key[1:l], k) && (len(key) == l || key[l] == '.') {
+				fv.getKey(seq, flatPath, path, key[l:], v)
+			}
+		})
+	case fastjson.TypeArray:
+		if i, l, ok := arrayIndex(string(key[1:])); ok && i < len(v.GetArray()) {
+			fv.getKey(seq, flatPath, path, key[1+l:], v.GetArray()[i])
+		}
 	}
 }
 
diff --git a/flatjsonl/reader.go b/flatjsonl/reader.go
index 93f48c8..5d3417e 100644
--- a/flatjsonl/reader.go
+++ b/flatjsonl/reader.go
@@ -214,17 +214,7 @@ func (rd *Reader) Read(sess *readSession) error {
 	if len(rd.Processor.includeKeys) == 1 && !rd.Processor.f.ExtractStrings && len(rd.Processor.extractRegex) == 0 {
 		for _, i := range rd.Processor.includeKeys {
 			kk := rd.Processor.keys[i]
-			path := make([]string, 0, len(kk.path))
-
-			for _, s := range kk.path {
-				if len(s) > 1 && s[0] == '[' && s[len(s)-1] == ']' {
-					s = s[1 : len(s)-1]
-				}
-
-				path = append(path, s)
-			}
-
-			rd.singleKeyPath = path
+			rd.singleKeyPath = kk.path
 			rd.singleKeyFlat = []byte("." + strings.Join(kk.path, "."))
 		}
 	}
-- 
2.43.0


From d0eeb2fcf531b60f763055b8214b12924b99dff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:58 +0000
Subject: [PATCH 25/29] fix: write values of a single key in all spellings

---
 flatjsonl/processor.go | 34 +++++++++++++++++++++++++++++-----
 flatjsonl/reader.go    |  9 +++------
 2 files changed, 32 insertions(+), 11 deletions(-)

diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index 2871872..6217bf7 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -536,6 +536,33 @@ func (p *Processor) iterateForWriters() error {
 	return wi.waitPending()
 }
 
+// singleKey returns the only included key, unless it has several spellings.
+func (p *Processor) singleKey() (flKey, bool) {
+	if len(p.includeKeys) != 1 {
+		return flKey{}, false
+	}
+
+	spellings := 0
+
+	for key, i := range p.includeKeys {
+		canonical := p.ck(key)
+
+		p.flKeys.Range(func(_ uint64, k flKey) bool {
+			if k.canonical == canonical {
+				spellings++
+			}
+
+			return true
+		})
+
+		if spellings == 1 {
+			return p.keys[i], true
+		}
+	}
+
+	return flKey{}, false
+}
+
 type lineBuf struct {
 	h      *hasher
 	values []Value
@@ -546,11 +573,8 @@ func newWriteIterator(p *Processor, pkIndex map[uint64]int, pkDst map[uint64]str
 	wi.pending = xsync.NewMapOf[int64, *lineBuf]()
 	wi.finished = &sync.Map{}
 
-	if len(p.includeKeys) == 1 {
-		for _, i := range p.includeKeys {
-			kk := p.keys[i]
-			wi.singleKeyHash = newHasher().hashBytes([]byte("." + strings.Join(kk.path, ".")))
-		}
+	if kk, ok := p.singleKey(); ok {
+		wi.singleKeyHash = newHasher().hashBytes([]byte("." + strings.Join(kk.path, ".")))
 	}
 
 	wi.lineBufPool = sync.Pool{
diff --git a/flatjsonl/reader.go b/flatjsonl/reader.go
index 5d3417e..6174c19 100644
--- a/flatjsonl/reader.go
+++ b/flatjsonl/reader.go
@@ -211,12 +211,9 @@ func (rd *Reader) Read(sess *readSession) error {
 		doLineErr error
 	)
 
-	if len(rd.Processor.includeKeys) == 1 && !rd.Processor.f.ExtractStrings && len(rd.Processor.extractRegex) == 0 {
-		for _, i := range rd.Processor.includeKeys {
-			kk := rd.Processor.keys[i]
-			rd.singleKeyPath = kk.path
-			rd.singleKeyFlat = []byte("." + strings.Join(kk.path, "."))
-		}
+	if kk, ok := rd.Processor.singleKey(); ok && !rd.Processor.f.ExtractStrings && len(rd.Processor.extractRegex) == 0 {
+		rd.singleKeyPath = kk.path
+		rd.singleKeyFlat = []byte("." + strings.Join(kk.path, "."))
 	}
 
 	var n int64
-- 
2.43.0


From d9a4cd793dc34d5a924d81b8eb6280de0de5649e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:46 +0000
Subject: [PATCH 26/29] fix: do not limit the number of values in line prefix

---
 flatjsonl/keys.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index b88acdd..08b714a 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -120,7 +120,8 @@ func (p *Processor) initKey(pk, parent uint64, path []string, t Type, isZero boo
 		return existing
 	}
 
-	if p.f.ChildrenLimit > 0 && len(k.path) > 1 {
+	// Values of line prefix have no parent in the document.
+	if p.f.ChildrenLimit > 0 && len(k.path) > 1 && k.parent != 0 {
 		p.collectKeyCardinality(k)
 	}
 
-- 
2.43.0


From db009c67d64cfaad85de1e3d53f9bcf928cb2315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:29 +0000
Subject: [PATCH 27/29] fix: keep schema of keys below parents that have scalar
 values too

---
 flatjsonl/flattener.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flatjsonl/flattener.go b/flatjsonl/flattener.go
index 2d3efd3..955a08a 100644
--- a/flatjsonl/flattener.go
+++ b/flatjsonl/flattener.go
@@ -352,7 +352,8 @@ func (j *jsonSchema) AddKey(k flKey, keys *xsync.MapOf[uint64, flKey]) {
 		pk := parents[i]
 		name := pk.path[len(pk.path)-1]
 
-		if i != 0 && pk.t == TypeString {
+		// Parent may have scalar values too.
+		if i != 0 && pk.t != TypeArray {
 			pk.t = TypeObject
 		}
 
-- 
2.43.0


From 17b17f9283e160d25492ec618ba00e85c3b0a6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:14 +0000
Subject: [PATCH 28/29] fix: keep all types of a key that has mixed types
 already

---
 flatjsonl/keys.go | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 08b714a..1aab4c8 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -28,18 +28,18 @@ type flKey struct {
 	parent           uint64
 }
 
-func (k *flKey) UpdateType(u Type) {
-	known := false
-
+func (k *flKey) hasType(u Type) bool {
 	for _, t := range k.tt {
 		if t == u {
-			known = true
-
-			break
+			return true
 		}
 	}
 
-	if !known {
+	return false
+}
+
+func (k *flKey) UpdateType(u Type) {
+	if !k.hasType(u) {
 		// Copies of the key share storage of the slice, so it can not be reused to append.
 		k.tt = append(k.tt[:len(k.tt):len(k.tt)], u)
 	}
@@ -147,15 +147,8 @@ func (p *Processor) scanKey(pk, parent uint64, path []string, t Type, isZero boo
 		k = p.initKey(pk, parent, path, t, isZero)
 	}
 
-	updType := false
-
-	if k.t != t {
-		k.UpdateType(t)
-
-		updType = true
-	}
-
-	if updType || (k.isZero && !isZero) {
+	// Resulting type may be the same as the type that was not seen yet.
+	if !k.hasType(t) || (k.isZero && !isZero) {
 		p.mu.Lock()
 		defer p.mu.Unlock()
 
-- 
2.43.0


From f42eeaf58dc85874c733f6b3d7a30e79fa1d68a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:14 +0000
Subject: [PATCH 29/29] fix: do not fail to show hierarchy without keys

---
 flatjsonl/processor.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index 6217bf7..eb1065a 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -334,9 +334,10 @@ func (p *Processor) maybeShowKeys() error {
 	}
 
 	if p.f.ShowKeysHier {
-		b, err := assertjson.MarshalIndentCompact(
-			p.keyHierarchy.Hierarchy().(map[string]interface{})["."], //nolint:errcheck
-			"", " ", 120)
+		// Hierarchy without keys is not a map.
+		hierarchy, _ := p.keyHierarchy.Hierarchy().(map[string]interface{}) //nolint:errcheck
+
+		b, err := assertjson.MarshalIndentCompact(hierarchy["."], "", " ", 120)
 		if err != nil {
 			return err
 		}
-- 
2.43.0

