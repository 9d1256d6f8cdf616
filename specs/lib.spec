// Assumed contracts of the libraries. Everything here is trusted: it is listed
// in the evidence of every check that relies on it.
package "github.com/flowchartsman/aql/jsonmatcher"

purepkg "bytes", "strings", "strconv", "regexp", "regexp/syntax", "math", "net/netip", "encoding/json", "unicode", "unicode/utf8"
purepkg "github.com/araddon/dateparse", "github.com/buger/jsonparser", "golang.org/x/text/search", "golang.org/x/text/language", "time"

extsort "bytes.Buffer" = seq int
extsort "strings.Builder" = seq int
extsort "go.uber.org/atomic.Int64" = int
extsort "time.Time" = int

// ---- buffers ----

extern "(*bytes.Buffer).WriteString"(b, s)(n, err) { modifies *b ensures *b == old(*b) ++ s ensures err == nil && n == len(s) }
extern "(*bytes.Buffer).WriteByte"(b, c)(err) { modifies *b ensures *b == old(*b) ++ unit(c) ensures err == nil }
extern "(*bytes.Buffer).WriteRune"(b, c)(n, err) { modifies *b ensures *b == old(*b) ++ runestr(c) ensures err == nil }
extern "(*bytes.Buffer).Write"(b, s)(n, err) { modifies *b ensures *b == old(*b) ++ seq(s) ensures err == nil && n == len(s) }
extern "(*bytes.Buffer).String"(b)(s) { ensures s == *b }
extern "(*bytes.Buffer).Len"(b)(n) { ensures n == len(*b) }
extern "(*bytes.Buffer).Bytes"(b)(s) { ensures seq(s) == *b }
extern "(*bytes.Buffer).Reset"(b)() { modifies *b ensures len(*b) == 0 }
extern "(*bytes.Buffer).Truncate"(b, n)() { modifies *b requires 0 <= n && n <= len(*b) ensures *b == old(*b)[:n] }
extern "(*strings.Builder).WriteString"(b, s)(n, err) { modifies *b ensures *b == old(*b) ++ s ensures err == nil && n == len(s) }
extern "(*strings.Builder).WriteByte"(b, c)(err) { modifies *b ensures *b == old(*b) ++ unit(c) ensures err == nil }
extern "(*strings.Builder).WriteRune"(b, c)(n, err) { modifies *b ensures *b == old(*b) ++ runestr(c) ensures err == nil }
extern "(*strings.Builder).String"(b)(s) { ensures s == *b }
extern "(*strings.Builder).Len"(b)(n) { ensures n == len(*b) }
extern "(*strings.Builder).Grow"(b, n)() { ensures *b == old(*b) }
extern "(*strings.Builder).Reset"(b)() { modifies *b ensures len(*b) == 0 }

// ---- atomics ----

// A comparison and swap may also fail because of others. What is assigned whatever
// the value was may lose what others added to it.
extern "(*go.uber.org/atomic.Int64).Inc"(a)(r) { modifies *a ensures *a == old(*a) + 1 ensures r == *a }
extern "(*go.uber.org/atomic.Int64).Dec"(a)(r) { modifies *a ensures *a == old(*a) - 1 ensures r == *a }
extern "(*go.uber.org/atomic.Int64).Add"(a, d)(r) { modifies *a ensures *a == old(*a) + d ensures r == *a }
extern "(*go.uber.org/atomic.Int64).Sub"(a, d)(r) { modifies *a ensures *a == old(*a) - d ensures r == *a }
extern "(*go.uber.org/atomic.Int64).Load"(a)(r) { ensures r == *a }
extern "(*go.uber.org/atomic.Int64).CAS"(a, o, n)(r) { modifies *a requires [C11 "an increment"] n == o + 1 ensures *a == (r ? n : old(*a)) ensures r ==> old(*a) == o }
extern "(*go.uber.org/atomic.Int64).Store"(a, n)() { modifies *a requires [C11 "an increment"] false ensures *a == n }
extern "(*go.uber.org/atomic.Int64).Swap"(a, n)(r) { modifies *a requires [C11 "an increment"] false ensures *a == n && r == old(*a) }
extsort "sync/atomic.Int64" = int
extern "(*sync/atomic.Int64).Add"(a, d)(r) { modifies *a ensures *a == old(*a) + d ensures r == *a }
extern "(*sync/atomic.Int64).Load"(a)(r) { ensures r == *a }
extern "(*sync/atomic.Int64).CompareAndSwap"(a, o, n)(r) { modifies *a requires [C11 "an increment"] n == o + 1 ensures *a == (r ? n : old(*a)) ensures r ==> old(*a) == o }
extern "(*sync/atomic.Int64).Store"(a, n)() { modifies *a requires [C11 "an increment"] false ensures *a == n }
extern "(*sync/atomic.Int64).Swap"(a, n)(r) { modifies *a requires [C11 "an increment"] false ensures *a == n && r == old(*a) }
extern "sync/atomic.AddInt64"(a, d)(r) { modifies *a ensures *a == old(*a) + d ensures r == *a }
extern "sync/atomic.LoadInt64"(a)(r) { ensures r == *a }
extern "sync/atomic.CompareAndSwapInt64"(a, o, n)(r) { modifies *a requires [C11 "an increment"] n == o + 1 ensures *a == (r ? n : old(*a)) ensures r ==> old(*a) == o }
extern "sync/atomic.StoreInt64"(a, n)() { modifies *a requires [C11 "an increment"] false ensures *a == n }

// ---- time: an instant is its number of nanoseconds ----

extern "(time.Time).Equal"(a, b)(r) { ensures r == (a == b) }
extern "(time.Time).Before"(a, b)(r) { ensures r == (a < b) }
extern "(time.Time).After"(a, b)(r) { ensures r == (a > b) }
extern "(time.Time).Compare"(a, b)(r) { ensures r == (a < b ? 0 - 1 : a > b ? 1 : 0) }
extern "(time.Time).Add"(a, d)(r) { ensures r == a + d }

// ---- jsonparser ----

// members of an object by name, first one first
fun jhas(d seq int, k string) bool
fun jget(d seq int, k string) seq int
fun jtyp(d seq int, k string) int
// elements of an array
fun aen(d seq int) int
fun aev(d seq int, k int) seq int
fun aet(d seq int, k int) int
fun aeerr(d seq int) error
axiom aen_nonneg : forall d seq int :: {aen(d)} aen(d) >= 0
// members of an object in order
fun oen(d seq int) int
fun oek(d seq int, k int) seq int
fun oev(d seq int, k int) seq int
fun oet(d seq int, k int) int
fun oeerr(d seq int) error
axiom oen_nonneg : forall d seq int :: {oen(d)} oen(d) >= 0

extern "github.com/buger/jsonparser.Get"(d, ks)(v, t, off, err) {
	ensures len(ks) == 1 ==> ((v == nil) == !jhas(d, ks[0]))
	ensures len(ks) == 1 && v != nil ==> seq(v) == jget(d, ks[0]) && t == jtyp(d, ks[0])
}

// ---- regexp ----

axiom re_findall : forall re *regexp.Regexp, s string, n int, i int :: {regexp.Regexp.FindAllStringIndex(re, s, n)[i]}
	0 <= i && i < len(regexp.Regexp.FindAllStringIndex(re, s, n)) ==>
	len(regexp.Regexp.FindAllStringIndex(re, s, n)[i]) == 2
	&& 0 <= regexp.Regexp.FindAllStringIndex(re, s, n)[i][0]
	&& regexp.Regexp.FindAllStringIndex(re, s, n)[i][0] <= regexp.Regexp.FindAllStringIndex(re, s, n)[i][1]
	&& regexp.Regexp.FindAllStringIndex(re, s, n)[i][1] <= len(s)

axiom quotemeta_empty : regexp.QuoteMeta("") == ""
axiom quotemeta_cat : forall a string, b string :: {regexp.QuoteMeta(a ++ b)} regexp.QuoteMeta(a ++ b) == regexp.QuoteMeta(a) ++ regexp.QuoteMeta(b)
axiom mustcompile : forall s string :: {regexp.MustCompile(s)} regexp.MustCompile(s) != nil
