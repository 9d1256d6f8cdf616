From 686414c070a23f7ab96880b33427d5d2ca8e5594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:49:23 +0000
Subject: [PATCH 01/16] fix: record the first error added to a message tape

The guard was inverted, so an error reported by a message visitor never
made ParseQuery fail.
---
 parser/visitors.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/visitors.go b/parser/visitors.go
index 4128a75..e8ed4a2 100644
--- a/parser/visitors.go
+++ b/parser/visitors.go
@@ -166,7 +166,7 @@ func (mt *MessageTape) ErrorAt(where ast.Pos, msg string, v ...any) {
 
 func (mt *MessageTape) addMsg(msgType MessageType, where ast.Pos, msg string, v ...any) {
 	pmsg := newMessage(msgType, where, fmt.Sprintf(msg, v...))
-	if msgType == MsgError && mt.firstErr != nil {
+	if msgType == MsgError && mt.firstErr == nil {
 		mt.firstErr = pmsg
 	}
 	mt.messages = append(mt.messages, newMessage(msgType, where, fmt.Sprintf(msg, v...)))
-- 
2.43.0


From dd39eedffcd537a4b193d7cf5e2d76018cfa92f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:49:23 +0000
Subject: [PATCH 02/16] fix: reject field paths made only of stars

Such a path is empty once the legacy stars are removed, and matching a
document against it panicked.
---
 internal/grammar/aql.peg       | 6 +++++-
 internal/grammar/parser_gen.go | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/internal/grammar/aql.peg b/internal/grammar/aql.peg
index 963e117..e358a33 100644
--- a/internal/grammar/aql.peg
+++ b/internal/grammar/aql.peg
@@ -264,7 +264,11 @@ Field <- pieces:(FieldPiece ('.' FieldPiece)*) {
         field = append(field, vSl[1].(string))
     }
 
-    return removeStars(field), nil
+    field = removeStars(field)
+    if len(field) == 0 {
+        return nil, tokErrf(getpos(c), "field path has no named segments")
+    }
+    return field, nil
 }
 
 FieldPiece <- QuotedFieldPiece / UnquotedFieldPiece / Star
diff --git a/internal/grammar/parser_gen.go b/internal/grammar/parser_gen.go
index b02745d..e4396d4 100644
--- a/internal/grammar/parser_gen.go
+++ b/internal/grammar/parser_gen.go
@@ -1998,7 +1998,11 @@ func (c *current) onField1(pieces interface{}) (interface{}, error) {
 		field = append(field, vSl[1].(string))
 	}
 
-	return removeStars(field), nil
+	field = removeStars(field)
+	if len(field) == 0 {
+		return nil, tokErrf(getpos(c), "field path has no named segments")
+	}
+	return field, nil
 }
 
 func (p *parser) callonField1() (interface{}, error) {
-- 
2.43.0


From ead3740a0d7e7f861b9edbec4f952c3b071bb1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:51:36 +0000
Subject: [PATCH 03/16] fix: keep escaped slashes in regular expression values

Trimming every slash from both ends of the literal, after un-escaping all of
them, emptied /\// (which then matched everything), lost the slash of /x\//
and broke /x\\\\/. The delimiters alone are removed now.
---
 internal/grammar/aql.peg       | 1 -
 internal/grammar/parser_gen.go | 1 -
 parser/ast/ast.go              | 4 +++-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/grammar/aql.peg b/internal/grammar/aql.peg
index e358a33..5a81c59 100644
--- a/internal/grammar/aql.peg
+++ b/internal/grammar/aql.peg
@@ -345,7 +345,6 @@ ValueChars <- [a-zA-Z0-9 !]
 
 RegexValue <- '/' RegexChar* EndingSlash {
     pos := getpos(c)
-    c.text = bytes.Replace(c.text, []byte(`\/`), []byte(`/`), -1)
     val, err := ast.NewRegexpVal(c.text, pos)
     if err != nil {
         return nil, tokErr(pos, err)
diff --git a/internal/grammar/parser_gen.go b/internal/grammar/parser_gen.go
index e4396d4..c1ede56 100644
--- a/internal/grammar/parser_gen.go
+++ b/internal/grammar/parser_gen.go
@@ -2111,7 +2111,6 @@ func (p *parser) callonQuotedValue2() (interface{}, error) {
 
 func (c *current) onRegexValue2() (interface{}, error) {
 	pos := getpos(c)
-	c.text = bytes.Replace(c.text, []byte(`\/`), []byte(`/`), -1)
 	val, err := ast.NewRegexpVal(c.text, pos)
 	if err != nil {
 		return nil, tokErr(pos, err)
diff --git a/parser/ast/ast.go b/parser/ast/ast.go
index bb7be02..0ff3eea 100644
--- a/parser/ast/ast.go
+++ b/parser/ast/ast.go
@@ -339,7 +339,9 @@ type RegexpVal struct {
 
 func NewRegexpVal(b []byte, pos Pos) (*RegexpVal, error) {
 	sv := string(b)
-	rv, err := regexp.Compile(strings.Trim(sv, `/`))
+	// only the delimiters are removed: an escaped slash next to one of them is
+	// part of the expression
+	rv, err := regexp.Compile(strings.TrimSuffix(strings.TrimPrefix(sv, `/`), `/`))
 	if err != nil {
 		return nil, fmt.Errorf("invalid regular expression [%s]: %v", sv, err)
 	}
-- 
2.43.0


From c2a14ea5164d351fe5596d999b78325f07a43859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:52:29 +0000
Subject: [PATCH 04/16] fix: find no fields in a document that is not an object

jsonparser reads the name of a field as an index when the document is an
array, so "[0]":1 matched [1] and an empty name made it panic.
---
 jsonmatcher/json_values.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/jsonmatcher/json_values.go b/jsonmatcher/json_values.go
index 547400a..4a96e1f 100644
--- a/jsonmatcher/json_values.go
+++ b/jsonmatcher/json_values.go
@@ -1,6 +1,7 @@
 package jsonmatcher
 
 import (
+	"bytes"
 	"math"
 	"regexp"
 	"strconv"
@@ -21,6 +22,11 @@ type field struct {
 
 // TODO: cache paths
 func getField(path []string, root []byte) *field {
+	// only objects have fields, and jsonparser would take the name of a field for
+	// an index if the document was an array
+	if doc := bytes.TrimLeft(root, " \t\r\n"); len(doc) == 0 || doc[0] != '{' {
+		return &field{}
+	}
 	values := getValues(path, root, jsonparser.Object)
 	return &field{
 		values: values,
-- 
2.43.0


From 8c98e026b6c2c5577135cb9bbe4296cafbe8911c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:52:55 +0000
Subject: [PATCH 05/16] fix: compare timestamps outside the range of UnixNano

Nanosecond counts overflow before 1678 and after 2262, so a:<9999-12-31 did
not match a date of 2020. Compare the time values themselves.
---
 jsonmatcher/expr_between.go  |  7 ++++---
 jsonmatcher/expr_datetime.go | 15 ++++++++-------
 jsonmatcher/expr_eq.go       |  8 ++++----
 jsonmatcher/expr_numeric.go  |  3 ++-
 jsonmatcher/json_values.go   |  9 +++++----
 5 files changed, 23 insertions(+), 19 deletions(-)

diff --git a/jsonmatcher/expr_between.go b/jsonmatcher/expr_between.go
index 7605a14..4a7ede8 100644
--- a/jsonmatcher/expr_between.go
+++ b/jsonmatcher/expr_between.go
@@ -2,6 +2,7 @@ package jsonmatcher
 
 import (
 	"fmt"
+	"time"
 
 	"github.com/flowchartsman/aql/parser/ast"
 )
@@ -37,9 +38,9 @@ func exprBetween(RVals []ast.Val) fieldExpr {
 		// datetime between
 		// 2nd argument guaranteed by validator
 		return &exprDatetime{
-			values: [2]int64{
-				RVals[0].(*ast.TimeVal).Value().UnixNano(),
-				RVals[1].(*ast.TimeVal).Value().UnixNano(),
+			values: [2]time.Time{
+				RVals[0].(*ast.TimeVal).Value(),
+				RVals[1].(*ast.TimeVal).Value(),
 			},
 			op: ast.BET,
 		}
diff --git a/jsonmatcher/expr_datetime.go b/jsonmatcher/expr_datetime.go
index bd45ecc..a4adf90 100644
--- a/jsonmatcher/expr_datetime.go
+++ b/jsonmatcher/expr_datetime.go
@@ -2,12 +2,13 @@ package jsonmatcher
 
 import (
 	"fmt"
+	"time"
 
 	"github.com/flowchartsman/aql/parser/ast"
 )
 
 type exprDatetime struct {
-	values [2]int64
+	values [2]time.Time
 	op     ast.Op
 }
 
@@ -19,27 +20,27 @@ func (e *exprDatetime) matches(field *field) bool {
 		}
 		switch e.op {
 		case ast.EQ:
-			if dv == e.values[0] {
+			if dv.Equal(e.values[0]) {
 				return true
 			}
 		case ast.LT:
-			if dv < e.values[0] {
+			if dv.Before(e.values[0]) {
 				return true
 			}
 		case ast.LTE:
-			if dv <= e.values[0] {
+			if !dv.After(e.values[0]) {
 				return true
 			}
 		case ast.GT:
-			if dv > e.values[0] {
+			if dv.After(e.values[0]) {
 				return true
 			}
 		case ast.GTE:
-			if dv >= e.values[0] {
+			if !dv.Before(e.values[0]) {
 				return true
 			}
 		case ast.BET:
-			if dv >= e.values[0] && dv <= e.values[1] {
+			if !dv.Before(e.values[0]) && !dv.After(e.values[1]) {
 				return true
 			}
 		// backstop
diff --git a/jsonmatcher/expr_eq.go b/jsonmatcher/expr_eq.go
index 4f8433c..55b4012 100644
--- a/jsonmatcher/expr_eq.go
+++ b/jsonmatcher/expr_eq.go
@@ -44,17 +44,17 @@ func exprEQ(RVals []ast.Val) []fieldExpr {
 			})
 		case *ast.TimeVal:
 			if rval.DayOnly() {
-				endOfDay := rval.Value().Add(24*time.Hour).UnixNano() - 1
+				endOfDay := rval.Value().Add(24*time.Hour - 1)
 				matchers = append(matchers, &exprDatetime{
-					values: [2]int64{
-						rval.Value().UnixNano(),
+					values: [2]time.Time{
+						rval.Value(),
 						endOfDay,
 					},
 					op: ast.BET,
 				})
 			} else {
 				matchers = append(matchers, &exprDatetime{
-					values: [2]int64{rval.Value().UnixNano()},
+					values: [2]time.Time{rval.Value()},
 					op:     ast.EQ,
 				})
 			}
diff --git a/jsonmatcher/expr_numeric.go b/jsonmatcher/expr_numeric.go
index e5273d5..e0480d9 100644
--- a/jsonmatcher/expr_numeric.go
+++ b/jsonmatcher/expr_numeric.go
@@ -2,6 +2,7 @@ package jsonmatcher
 
 import (
 	"fmt"
+	"time"
 
 	"github.com/flowchartsman/aql/parser/ast"
 )
@@ -24,7 +25,7 @@ func exprNumeric(op ast.Op, RVals []ast.Val) fieldExpr {
 		}
 	case *ast.TimeVal:
 		return &exprDatetime{
-			values: [2]int64{v.Value().UnixNano()},
+			values: [2]time.Time{v.Value()},
 			op:     op,
 		}
 	default:
diff --git a/jsonmatcher/json_values.go b/jsonmatcher/json_values.go
index 4a96e1f..408c17b 100644
--- a/jsonmatcher/json_values.go
+++ b/jsonmatcher/json_values.go
@@ -5,6 +5,7 @@ import (
 	"math"
 	"regexp"
 	"strconv"
+	"time"
 
 	"github.com/araddon/dateparse"
 	"github.com/buger/jsonparser"
@@ -160,19 +161,19 @@ func getBoolVal(v jsonValue) (boolVal bool, found bool) {
 	return false, false
 }
 
-func getDatetimeVal(v jsonValue) (intVal int64, found bool) {
+func getDatetimeVal(v jsonValue) (timeVal time.Time, found bool) {
 	// TODO: tighten this up for numstrings. Probably want to be more careful
 	// about what we consider a date with how flexible dateparse is. Maybe a
 	// special getStringVal() that only accepts int-like unix epochs.
 	sv, ok := getStringVal(v)
 	if !ok {
-		return 0, false
+		return time.Time{}, false
 	}
 	t, err := dateparse.ParseAny(sv)
 	if err != nil {
-		return 0, false
+		return time.Time{}, false
 	}
-	return t.UnixNano(), true
+	return t, true
 }
 
 // true:
-- 
2.43.0


From cc44d6e639a28099e7d1e7e0f919be7b4d85aae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:52:55 +0000
Subject: [PATCH 06/16] fix: report the statistics of the operands of AND, OR
 and NOT

Stats returned the root node alone because the children were never passed
on.
---
 jsonmatcher/nodes.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jsonmatcher/nodes.go b/jsonmatcher/nodes.go
index 1aff22c..eeaf500 100644
--- a/jsonmatcher/nodes.go
+++ b/jsonmatcher/nodes.go
@@ -24,7 +24,7 @@ func (a *andNode) result(root []byte) bool {
 }
 
 func (a *andNode) stats() *MatchStats {
-	return a.nodeStats.toStatsNode()
+	return a.nodeStats.toStatsNode(a.left, a.right)
 }
 
 type orNode struct {
@@ -41,7 +41,7 @@ func (o *orNode) result(root []byte) bool {
 }
 
 func (o *orNode) stats() *MatchStats {
-	return o.nodeStats.toStatsNode()
+	return o.nodeStats.toStatsNode(o.left, o.right)
 }
 
 type notNode struct {
@@ -58,7 +58,7 @@ func (n *notNode) result(root []byte) bool {
 }
 
 func (n *notNode) stats() *MatchStats {
-	return n.nodeStats.toStatsNode()
+	return n.nodeStats.toStatsNode(n.sub)
 }
 
 // type subdocNode struct {
-- 
2.43.0


From ad9966b98a2ddbfbe7b2606f4715d399e32ab93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:52:55 +0000
Subject: [PATCH 07/16] fix: return an error for an empty sample instead of
 panicking

---
 sampler/sampler.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sampler/sampler.go b/sampler/sampler.go
index 2f6e8a8..1b8a5ca 100644
--- a/sampler/sampler.go
+++ b/sampler/sampler.go
@@ -2,6 +2,7 @@ package sampler
 
 import (
 	"bytes"
+	"errors"
 	"fmt"
 
 	"github.com/buger/jsonparser"
@@ -45,6 +46,9 @@ func (s *Sampler) Sample(sample []byte) error {
 	if sampleLen > 100 {
 		sampleLen = 100
 	}
+	if sampleLen == 0 {
+		return errors.New("empty sample")
+	}
 	switch sample[0] {
 	case '{':
 		if sample[len(sample)-1] != '}' {
-- 
2.43.0


From 41d128b872113442d2759bc5245c780e4fb892bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:52:55 +0000
Subject: [PATCH 08/16] fix: sample without a depth limit when maxDepth is
 negative

This is what New documents, but nothing at all was sampled.
---
 sampler/sampler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampler/sampler.go b/sampler/sampler.go
index 1b8a5ca..7595054 100644
--- a/sampler/sampler.go
+++ b/sampler/sampler.go
@@ -77,7 +77,7 @@ func (s *Sampler) Sample(sample []byte) error {
 }
 
 func (s *Sampler) sample(current []byte, path *bytes.Buffer, depth int, valType jsonparser.ValueType) error {
-	if depth > s.maxDepth {
+	if s.maxDepth >= 0 && depth > s.maxDepth {
 		return nil
 	}
 	switch valType {
-- 
2.43.0


From 66eaf8d71c703133af80bf81e1249de492583027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:52:55 +0000
Subject: [PATCH 09/16] fix: do not panic on scalars in the root array of a
 sample

---
 sampler/sampler.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sampler/sampler.go b/sampler/sampler.go
index 7595054..dc1abce 100644
--- a/sampler/sampler.go
+++ b/sampler/sampler.go
@@ -120,7 +120,10 @@ func (s *Sampler) sample(current []byte, path *bytes.Buffer, depth int, valType
 		return fmt.Errorf("unkown JSON value type: %v", string(current))
 	default:
 		// TODO Track types found for UI hinting
-		s.keys[path.String()[1:]]++
+		// scalars directly under a root array have no key
+		if path.Len() > 0 {
+			s.keys[path.String()[1:]]++
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 51c6393e6aa1648995a2c9d625a4de614107ae42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:52:55 +0000
Subject: [PATCH 10/16] fix: keep the sampled keys when a later sample fails

A failed sample dropped everything collected so far and left a nil map
behind, so the next sample panicked.
---
 sampler/sampler.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sampler/sampler.go b/sampler/sampler.go
index dc1abce..5a3641b 100644
--- a/sampler/sampler.go
+++ b/sampler/sampler.go
@@ -66,11 +66,18 @@ func (s *Sampler) Sample(sample []byte) error {
 	// prep initial sampling state
 	depth := 0
 	path := &bytes.Buffer{} // todo: share
+	// count this sample's keys apart so that a failure leaves no trace of it
+	keys := s.keys
+	s.keys = make(map[string]uint)
 	err := s.sample(sample, path, depth, rootObj)
+	sampled := s.keys
+	s.keys = keys
 	if err != nil {
-		s.keys = nil
 		return err
 	}
+	for key, count := range sampled {
+		s.keys[key] += count
+	}
 
 	s.totalDocs++
 	return nil
-- 
2.43.0


From 0b6563d0c22e8aa5fd03dad05fa506ff8bbb4df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:54:07 +0000
Subject: [PATCH 11/16] fix: highlight the right part of queries with
 multi-byte characters

Positions hold a byte offset, but it was used to index the runes of the
query.
---
 parser/fmtmsg/formatter.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/parser/fmtmsg/formatter.go b/parser/fmtmsg/formatter.go
index f22745a..d8fc55e 100644
--- a/parser/fmtmsg/formatter.go
+++ b/parser/fmtmsg/formatter.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"strings"
 	ttemplate "text/template"
+	"unicode/utf8"
 
 	"github.com/flowchartsman/aql/parser"
 	"github.com/flowchartsman/aql/parser/ast"
@@ -60,6 +61,7 @@ func NewFormatter(tmpl string, html bool, maxWidth int) (*Formatter, error) {
 func (f *Formatter) WithQuery(query string) *Printer {
 	return &Printer{
 		formatter: f,
+		src:       query,
 		query:     []rune(query),
 	}
 }
@@ -67,6 +69,7 @@ func (f *Formatter) WithQuery(query string) *Printer {
 // Printer prints messages for a given query.
 type Printer struct {
 	formatter *Formatter
+	src       string
 	query     []rune
 }
 
@@ -94,6 +97,10 @@ func (p *Printer) getPrintData(m Message) *printData {
 		HasHL:   m.Pos() != ast.NoPosition(),
 		Message: m.Message(),
 	}
+	if pData.HasHL {
+		// positions count bytes up to the token, the query is indexed by rune
+		pData.pos.Offset = utf8.RuneCountInString(p.src[:min(pData.pos.Offset, len(p.src))])
+	}
 	switch v := m.(type) {
 	case *parser.ParseError:
 		pData.msgType = msgError
-- 
2.43.0


From 0c457aa2ee37f4442a6d0c0e9c0ce031a4a3908b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:54:07 +0000
Subject: [PATCH 12/16] fix: keep the truncated window inside the query

The exclusive end of the highlight was taken as inclusive, so the window
could run past the end of the query or fall one character short, and
QueryHL and QueryPost failed when the highlight did not fit in it or was at
the end of the query.
---
 parser/fmtmsg/formatter.go |  4 ++--
 parser/fmtmsg/truncate.go  | 10 +++++-----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/parser/fmtmsg/formatter.go b/parser/fmtmsg/formatter.go
index d8fc55e..817aebb 100644
--- a/parser/fmtmsg/formatter.go
+++ b/parser/fmtmsg/formatter.go
@@ -186,7 +186,7 @@ func (m *printData) QueryHL() string {
 	if !m.HasHL {
 		return ""
 	}
-	return string(m.query[m.pos.Offset : m.pos.Offset+m.pos.Len])
+	return string(m.query[m.pos.Offset:min(m.pos.Offset+m.pos.Len, m.ro)])
 }
 
 func (m *printData) QueryPost() string {
@@ -194,7 +194,7 @@ func (m *printData) QueryPost() string {
 		return ""
 	}
 	var sb strings.Builder
-	sb.WriteString(string(m.query[m.pos.Offset+m.pos.Len : m.ro]))
+	sb.WriteString(string(m.query[min(m.pos.Offset+m.pos.Len, m.ro):m.ro]))
 	if m.ro < (len(m.query)) {
 		sb.WriteString("...")
 	}
diff --git a/parser/fmtmsg/truncate.go b/parser/fmtmsg/truncate.go
index 4f80213..3566d28 100644
--- a/parser/fmtmsg/truncate.go
+++ b/parser/fmtmsg/truncate.go
@@ -10,7 +10,9 @@ func truncate(pd *printData, maxLen int) {
 	if maxLen <= 0 || pd.pos == ast.NoPosition() || len(pd.query) <= maxLen {
 		return
 	}
-	pd.lo, pd.ro = findCenterSubstring(pd.query, maxLen, pd.pos.Offset, pd.pos.Offset+pd.pos.Len)
+	// the end is inclusive, and the highlight may lie past the end of the query
+	last := len(pd.query) - 1
+	pd.lo, pd.ro = findCenterSubstring(pd.query, maxLen, min(pd.pos.Offset, last), min(pd.pos.Offset+pd.pos.Len-1, last))
 }
 
 func findCenterSubstring(r []rune, windowSize int, startOffset int, endOffset int) (int, int) {
@@ -70,10 +72,8 @@ func findCenterSubstring(r []rune, windowSize int, startOffset int, endOffset in
 		}
 	}
 
-	// Adjust the right offset to match the window size.
-	if rightOffset-leftOffset+1 > windowSize {
-		rightOffset = leftOffset + windowSize
-	}
+	// Make the right offset exclusive, to match the window size.
+	rightOffset = leftOffset + windowSize
 
 	return leftOffset, rightOffset
 }
-- 
2.43.0


From 3d77a99d2c87f0e13e00f744381d6bbd62d4413d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:00:03 +0000
Subject: [PATCH 13/16] fix: reject a number and a timestamp as the bounds of a
 range

The timestamp counted as zero, so a:><(-5,2012-01-01) was accepted and
matched the numbers from -5 to 0.
---
 parser/validators.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/validators.go b/parser/validators.go
index a7400f5..5d36068 100644
--- a/parser/validators.go
+++ b/parser/validators.go
@@ -141,6 +141,9 @@ func checkBetween(e *ast.ExprNode) *ParseError {
 		}
 		return nil
 	}
+	if e.RVals[1].Type() == ast.TypeTime {
+		return ErrorAt(e.RVals[1].Pos(), "second argument must also be a numeric value")
+	}
 
 	var l, r float64
 	switch lnv := e.RVals[0].(type) {
-- 
2.43.0


From 42384b1c9fec9e6db21467bfec5309f518c15be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:58:58 +0000
Subject: [PATCH 14/16] fix: cut the highlight of a message that is longer than
 the window

The marker line of a message repeats the marker HLLen times. For a token
wider than the configured window it ran past the text shown, while
QueryHL already stopped at the window's end.
---
 parser/fmtmsg/formatter.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/fmtmsg/formatter.go b/parser/fmtmsg/formatter.go
index 817aebb..3f48c4d 100644
--- a/parser/fmtmsg/formatter.go
+++ b/parser/fmtmsg/formatter.go
@@ -144,6 +144,10 @@ func (m *printData) Type() string {
 }
 
 func (m *printData) HLLen() int {
+	// a highlight longer than the window is cut with it
+	if m.ro < len(m.query) {
+		return min(m.pos.Len, m.ro-m.pos.Offset)
+	}
 	return m.pos.Len
 }
 
-- 
2.43.0


From a1186b4f547af6dc9eef14757820e85ba85892f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:37:33 +0000
Subject: [PATCH 15/16] fix: escape field names and values in the labels of a
 query graph

---
 aqlgraph/node_html.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aqlgraph/node_html.go b/aqlgraph/node_html.go
index f91df89..d815268 100644
--- a/aqlgraph/node_html.go
+++ b/aqlgraph/node_html.go
@@ -38,7 +38,7 @@ type NodeVal struct {
 
 var labelTmpl = template.Must(template.New("").Parse(`<TABLE BORDER="0" CELLBORDER="1" CELLSPACING="0" CELLPADDING="2">
 <TR>
-	<TD COLSPAN="2" CELLPADDING="8">{{ .Field }}</TD>
+	<TD COLSPAN="2" CELLPADDING="8">{{ .Field |html }}</TD>
 </TR>
 {{- range .Props}}
 <TR>
@@ -53,7 +53,7 @@ var labelTmpl = template.Must(template.New("").Parse(`<TABLE BORDER="0" CELLBORD
 {{- range .Values}}
 <TR>
 	<TD BORDER="1" BGCOLOR="{{ .Color }}"><I>{{ .ValType }}</I></TD>
-	<TD BORDER="1" BGCOLOR="#FFFFFF">{{ .ValStr }}</TD>
+	<TD BORDER="1" BGCOLOR="#FFFFFF">{{ .ValStr |html }}</TD>
 </TR>
 {{- end }}
 {{- end }}
-- 
2.43.0


From b29315a35f6d56bea7b8010a80875158419fa3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:37:33 +0000
Subject: [PATCH 16/16] fix: keep the backslashes of the query in the title of
 its graph

---
 aqlgraph/graph.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aqlgraph/graph.go b/aqlgraph/graph.go
index caa39aa..b90b8fd 100644
--- a/aqlgraph/graph.go
+++ b/aqlgraph/graph.go
@@ -71,7 +71,8 @@ func QueryGraph(query string) (*Graph, error) {
 	ng := &namegraph{
 		Graph: g,
 	}
-	ng.SetLabel(query).
+	// backslashes in the label would start escape sequences
+	ng.SetLabel(strings.ReplaceAll(query, `\`, `\\`)).
 		SetLabelLocation(cgraph.TopLocation).
 		SetLabelJust(cgraph.CenteredJust).
 		SetNodeSeparator(0.5).
-- 
2.43.0

