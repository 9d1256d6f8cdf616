// The sampler: which key paths of a document are counted (C20), and what a
// sequence of calls leaves behind (C21).
package "github.com/flowchartsman/aql/sampler"

default nopanic C21

// ---- key paths of a document (C20) ------------------------------------------

axiom space_any : forall k seq int :: {bytes.ContainsAny(k, " ")} bytes.ContainsAny(k, " ") == bytes.Contains(k, " ")
axiom space_rune : forall k seq int :: {bytes.ContainsRune(k, ' ')} bytes.ContainsRune(k, ' ') == bytes.Contains(k, " ")
axiom space_byte : forall k seq int :: {bytes.IndexByte(k, ' ')} (bytes.IndexByte(k, ' ') >= 0) == bytes.Contains(k, " ")

def quoted(k seq int) seq int = bytes.Contains(k, " ") ? "\"" ++ k ++ "\"" : k

// occurrences of key in a value d of type t found at path p
rec cnt(key string, d seq int, t int, p seq int, depth int, max int) int open depth 2 =
	max >= 0 && depth > max ? 0
	: t == jsonparser.Object ? ocnt(key, d, 0, p, depth, max)
	: t == jsonparser.Array ? acnt(key, d, 0, p, depth, max)
	: t == jsonparser.Unknown ? 0
	: len(p) > 0 && p[1:] == key ? 1 : 0

rec ocnt(key string, d seq int, k int, p seq int, depth int, max int) int open depth 2 =
	0 <= k && k < oen(d) ? cnt(key, oev(d, k), oet(d, k), p ++ "." ++ quoted(oek(d, k)), depth + 1, max) + ocnt(key, d, k + 1, p, depth, max) : 0

rec acnt(key string, d seq int, k int, p seq int, depth int, max int) int open depth 2 =
	0 <= k && k < aen(d) ? (aet(d, k) == jsonparser.Array ? 0 : cnt(key, aev(d, k), aet(d, k), p, depth, max)) + acnt(key, d, k + 1, p, depth, max) : 0

// the value cannot be read
rec fails(d seq int, t int, depth int, max int) bool depth 2 =
	max >= 0 && depth > max ? false
	: t == jsonparser.Object ? ofails(d, 0, depth, max)
	: t == jsonparser.Array ? afails(d, 0, depth, max)
	: t == jsonparser.Unknown

rec ofails(d seq int, k int, depth int, max int) bool depth 2 =
	0 <= k && k < oen(d) ? fails(oev(d, k), oet(d, k), depth + 1, max) || ofails(d, k + 1, depth, max) : oeerr(d) != nil

rec afails(d seq int, k int, depth int, max int) bool depth 2 =
	0 <= k && k < aen(d) ? (aet(d, k) != jsonparser.Array && fails(aev(d, k), aet(d, k), depth, max)) || afails(d, k + 1, depth, max) : aeerr(d) != nil

def occ(m map[string]uint, k string) int = dom(m)[k] ? mval(m)[k] : 0

// every key in the map was seen
def seenonly(m map[string]uint) bool = forall k string :: {dom(m)[k]} dom(m)[k] ==> mval(m)[k] >= 1

func Sampler.sample(s, d, path, depth, t)(err) {
	tags C20 C21
	requires s != nil && path != nil && s.keys != nil && seenonly(s.keys)
	modifies *path, contents(s.keys)
	ensures [C20 "path restored"] err == nil ==> *path == old(*path)
	ensures [C20 "occurrences counted"] err == nil ==> (forall k string :: {dom(s.keys)[k]} {mval(s.keys)[k]} occ(s.keys, k) == old(occ(s.keys, k)) + cnt(k, d, t, old(*path), depth, s.maxDepth))
	ensures [C21 "fails iff unreadable"] (err != nil) == fails(d, t, depth, s.maxDepth)
	ensures seenonly(s.keys)
	inv *path == entry(*path)
	inv seenonly(s.keys)
	inv forall k string :: {dom(s.keys)[k]} {mval(s.keys)[k]} occ(s.keys, k) + ocnt(k, $data, $k, *path, depth, s.maxDepth) == entry(occ(s.keys, k)) + ocnt(k, $data, 0, entry(*path), depth, s.maxDepth)
	inv ofails($data, $k, depth, s.maxDepth) == ofails($data, 0, depth, s.maxDepth)
	inv (e error) e == nil ==> *path == entry(*path)
	inv (e error) e == nil ==> (forall k string :: {dom(s.keys)[k]} {mval(s.keys)[k]} occ(s.keys, k) + acnt(k, $data, $k, *path, depth, s.maxDepth) == entry(occ(s.keys, k)) + acnt(k, $data, 0, entry(*path), depth, s.maxDepth))
	inv (e error) (e != nil || afails($data, $k, depth, s.maxDepth)) == afails($data, 0, depth, s.maxDepth)
}

// ---- the sampler's state (C21) ----------------------------------------------

def sok(s *Sampler) bool = s != nil && s.keys != nil && seenonly(s.keys) && s.totalDocs >= 0 && (s.totalDocs == 0 ==> (forall k string :: {dom(s.keys)[k]} !dom(s.keys)[k]))

// no key seen, no document counted
def asnew(s *Sampler) bool = s.totalDocs == 0 && (forall k string :: {dom(s.keys)[k]} !dom(s.keys)[k])

def roottype(d seq int) int = d[0] == '{' ? jsonparser.Object : jsonparser.Array

// an object or array, terminated
def rooted(d seq int) bool = len(d) > 0 && (d[0] == '{' && d[len(d)-1] == '}' || d[0] == '[' && d[len(d)-1] == ']')

def sameocc(m map[string]uint, was map[string]uint) bool = forall k string :: {dom(m)[k]} occ(m, k) == old(occ(was, k))

func New(n)(s) {
	tags C20 C21
	ensures [C21 "as new"] sok(s) && asnew(s) && s.maxDepth == n && fresh(s.keys)
}

func Sampler.Sample(s, d)(err) {
	tags C20 C21
	requires sok(s)
	modifies s.keys, s.totalDocs, contents(s.keys)
	ensures sok(s)
	ensures [C21 "an accepted sample is counted, a rejected one is not"] s.totalDocs == old(s.totalDocs) + (err == nil ? 1 : 0)
	ensures [C21 "a rejected sample leaves no trace"] err != nil ==> (forall k string :: {dom(s.keys)[k]} occ(s.keys, k) == old(occ(s.keys, k)))
	ensures [C20 "occurrences counted"] err == nil ==> (forall k string :: {dom(s.keys)[k]} {mval(s.keys)[k]} occ(s.keys, k) == old(occ(s.keys, k)) + cnt(k, d, roottype(d), empty(int), 0, s.maxDepth))
	ensures [C21 "unreadable samples are rejected"] len(d) == 0 || d[0] != '{' && d[0] != '[' || fails(d, roottype(d), 0, s.maxDepth) ==> err != nil
	ensures [C20 "readable samples are accepted"] rooted(d) && !fails(d, roottype(d), 0, s.maxDepth) ==> err == nil
	inv (m map[string]uint) dom(m) == entry(dom(m)) && mval(m) == entry(mval(m))
	inv (m map[string]uint) seenonly(s.keys) && (forall k string :: {dom(s.keys)[k]} {mval(s.keys)[k]} occ(s.keys, k) == entry(occ(s.keys, k)) + ($seen[k] ? occ(m, k) : 0))
}

rec has(s seq string, k string, n int) bool = n <= 0 ? false : s[n-1] == k || has(s, k, n - 1)

lemma has_append [C21] induct (n) : forall s seq string, x string, k string, n int :: {has(s ++ unit(x), k, n)}
	n <= len(s) ==> has(s ++ unit(x), k, n) == has(s, k, n)

lemma has_at [C21] induct (n) : forall s seq string, k string, n int, i int :: {has(s, k, n), s[i]}
	0 <= i && i < n && n <= len(s) && s[i] == k ==> has(s, k, n)

def once(s seq string) bool = forall i int, j int :: {s[i], s[j]} 0 <= i && i < j && j < len(s) ==> s[i] != s[j]

func Sampler.Keys(s)(r) {
	tags C21
	uses has_append, has_at
	requires sok(s)
	ensures [C21 "every key seen"] forall k string :: {has(r, k, len(r))} has(r, k, len(r)) == dom(s.keys)[k]
	ensures [C21 "each once"] once(r)
	inv (out seq string) forall k string :: {has(out, k, len(out))} {$seen[k]} has(out, k, len(out)) == $seen[k]
	inv (out seq string) once(out)
}

// a quotient of integers reaches a percentage
axiom pct_ge : forall a int, b int, c int :: {i2f(a) / i2f(b), i2f(c) / i2f(100)} b > 0 ==> (i2f(a) / i2f(b) >= i2f(c) / i2f(100)) == (a * 100 >= c * b) && (i2f(a) / i2f(b) < i2f(c) / i2f(100)) == (a * 100 < c * b)

func Sampler.KeysAtThreshold(s, pct)(r) {
	tags C21
	uses has_append, has_at
	requires sok(s)
	ensures [C21 "keys that reach the percentage"] forall k string :: {has(r, k, len(r))} has(r, k, len(r)) == (dom(s.keys)[k] && mval(s.keys)[k] * 100 >= pct * s.totalDocs)
	ensures [C21 "each once"] once(r)
	inv (out seq string) forall k string :: {has(out, k, len(out))} {$seen[k]} has(out, k, len(out)) == ($seen[k] && mval(s.keys)[k] * 100 >= pct * s.totalDocs)
	inv (out seq string) once(out)
}

func Sampler.Reset(s)() {
	tags C21
	requires sok(s)
	modifies s.keys, s.totalDocs, contents(s.keys)
	ensures [C21 "as new"] sok(s) && asnew(s) && s.maxDepth == old(s.maxDepth)
	inv forall k string :: {dom(s.keys)[k]} dom(s.keys)[k] == (entry(dom(s.keys)[k]) && !$seen[k])
}

func Sampler.Scanned(s)(n) {
	tags C21
	requires s != nil
	ensures [C21 "accepted documents"] n == s.totalDocs
}
