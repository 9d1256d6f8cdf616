// The matcher: what a query means on a document, and that the code computes it.
package "github.com/flowchartsman/aql/jsonmatcher"

default nopanic C10
default frame C11

atomic nodeStats timesChecked
atomic nodeStats timesMatched

immutable Matcher, builder, andNode, orNode, notNode, exprNode, field, MatchStats
immutable exprDatetime, exprEqBool, exprExists, exprFloat, exprNet, exprNull, exprRegexp, unicodeMatcher

// ---- field paths (C02) -----------------------------------------------------

// vals: the values a path selects in d, of type t
rec vals(p seq string, d seq int, t int) seq jsonValue =
	t == jsonparser.Object ?
		(!jhas(d, p[0]) ? empty(jsonValue)
		: len(p) == 1 ? unit(mk(jsonValue, jget(d, p[0]), jtyp(d, p[0])))
		: vals(p[1:], jget(d, p[0]), jtyp(d, p[0])))
	: t == jsonparser.Array ? aevals(p, d, 0)
	: empty(jsonValue)

// aevals: the same for the elements of array d from the k-th on
rec aevals(p seq string, d seq int, k int) seq jsonValue =
	0 <= k && k < aen(d) ?
		(aet(d, k) == jsonparser.Object ? vals(p, aev(d, k), jsonparser.Object) : empty(jsonValue)) ++ aevals(p, d, k + 1)
	: empty(jsonValue)

def isobj(d seq int) bool = len(bytes.TrimLeft(d, " \t\r\n")) > 0 && bytes.TrimLeft(d, " \t\r\n")[0] == '{'

def fieldvals(p seq string, d seq int) seq jsonValue = isobj(d) ? vals(p, d, jsonparser.Object) : empty(jsonValue)

// scal: the scalars among values vs from the i-th on, arrays opened
rec scal(vs seq jsonValue, i int) seq jsonValue =
	0 <= i && i < len(vs) ?
		(vs[i].dataType == jsonparser.Object ? empty(jsonValue)
		: vs[i].dataType == jsonparser.Array ? aescal(vs[i].data, 0)
		: unit(vs[i])) ++ scal(vs, i + 1)
	: empty(jsonValue)

rec aescal(d seq int, k int) seq jsonValue =
	0 <= k && k < aen(d) ?
		(aet(d, k) == jsonparser.Object || aet(d, k) == jsonparser.Array ? empty(jsonValue) : unit(mk(jsonValue, aev(d, k), aet(d, k)))) ++ aescal(d, k + 1)
	: empty(jsonValue)

func getValues(path, data, t)(r) {
	tags C02 C03 C04 C05 C06 C07 C08 C09
	requires [C10 "path has a segment"] len(path) >= 1
	ensures [C02 "selected values"] seq(r) == vals(path, data, t)
	inv (out seq jsonValue) out ++ aevals(path, $data, $k) == entry(out) ++ aevals(path, $data, 0)
}

func getField(path, root)(r) {
	tags C02 C03 C04 C05 C06 C07 C08 C09
	requires [C10 "path has a segment"] len(path) >= 1
	ensures [C02 "selected values"] r != nil && r.values == fieldvals(path, root)
	inv (out seq jsonValue) out ++ aevals(path, $data, $k) == entry(out) ++ aevals(path, $data, 0)
}

func field.scalarValues(f)(r) {
	tags C02 C03 C04 C05 C06 C07 C08 C09
	requires f != nil
	ensures [C02 "scalars of the selected values"] seq(r) == scal(f.values, 0)
	inv (out seq jsonValue, i int) out ++ scal(f.values, i) == scal(f.values, 0)
	inv (out seq jsonValue) out ++ aescal($data, $k) == entry(out) ++ aescal($data, 0)
}

// ---- reading scalars -------------------------------------------------------

def isstr(v jsonValue) bool =
	v.dataType == jsonparser.String ? jsonparser.ParseString$1(v.data) == nil
	: v.dataType == jsonparser.Number ? jsonparser.ParseFloat$1(v.data) == nil
	: false

def strv(v jsonValue) string =
	v.dataType == jsonparser.String ? jsonparser.ParseString(v.data) : strconv.FormatFloat(jsonparser.ParseFloat(v.data), 'f', 0 - 1, 64)

def isnum(v jsonValue) bool =
	(v.dataType == jsonparser.String || v.dataType == jsonparser.Number) && jsonparser.ParseFloat$1(v.data) == nil

def numv(v jsonValue) float64 = jsonparser.ParseFloat(v.data)

def isbool(v jsonValue) bool = v.dataType == jsonparser.Boolean && jsonparser.ParseBoolean$1(v.data) == nil

def boolv(v jsonValue) bool = jsonparser.ParseBoolean(v.data)

def istime(v jsonValue) bool = isstr(v) && dateparse.ParseAny$1(strv(v)) == nil

def timev(v jsonValue) int = dateparse.ParseAny(strv(v))

// ---- comparisons of one scalar ---------------------------------------------

def fcmp(op string, x float64, a float64, b float64) bool =
	op == ast.EQ ? x == a : op == ast.LT ? x < a : op == ast.LTE ? x <= a : op == ast.GT ? x > a : op == ast.GTE ? x >= a
	: x >= a && x <= b

def tcmp(op string, x int, a int, b int) bool =
	op == ast.EQ ? x == a : op == ast.LT ? x < a : op == ast.LTE ? x <= a : op == ast.GT ? x > a : op == ast.GTE ? x >= a
	: x >= a && x <= b

def numop(op string) bool = op == ast.EQ || op == ast.LT || op == ast.LTE || op == ast.GT || op == ast.GTE || op == ast.BET

// what counts as an address or block in a text
def netre() *regexp.Regexp = regexp.MustCompile(`(?:\d{1,3}\.){3}\d{1,3}(?:/\d{1,2})?`)

def netone(p netip.Prefix, t string) bool =
	strings.Contains(t, `/`) ? netip.ParsePrefix$1(t) == nil && netip.Prefix.Overlaps(p, netip.ParsePrefix(t))
	: netip.ParseAddr$1(t) == nil && netip.Prefix.Contains(p, netip.ParseAddr(t))

rec anynet(p netip.Prefix, t string, ix seq []int, i int) bool =
	0 <= i && i < len(ix) ? netone(p, t[ix[i][0]:ix[i][1]]) || anynet(p, t, ix, i + 1) : false

def netsat(p netip.Prefix, t string) bool = anynet(p, t, regexp.Regexp.FindAllStringIndex(netre(), t, 0 - 1), 0)

// satv: does a scalar satisfy a matcher expression
rec satv(e fieldExpr, v jsonValue) bool =
	is(e,*exprFloat) ? isnum(v) && fcmp(as(e,*exprFloat).op, numv(v), as(e,*exprFloat).values[0], as(e,*exprFloat).values[1])
	: is(e,*exprDatetime) ? istime(v) && tcmp(as(e,*exprDatetime).op, timev(v), as(e,*exprDatetime).values[0], as(e,*exprDatetime).values[1])
	: is(e,*exprEqBool) ? isbool(v) && boolv(v) == as(e,*exprEqBool).value
	: is(e,*exprRegexp) ? isstr(v) && regexp.Regexp.MatchString(as(e,*exprRegexp).value, strv(v))
	: is(e,*unicodeMatcher) ? isstr(v) && search.Pattern.IndexString(as(e,*unicodeMatcher).pat, strv(v)) >= 0
	: is(e,*exprNet) ? isstr(v) && netsat(as(e,*exprNet).value, strv(v))
	: false

rec anysatv(e fieldExpr, s seq jsonValue, i int) bool =
	0 <= i && i < len(s) ? satv(e, s[i]) || anysatv(e, s, i + 1) : false

rec allnull(vs seq jsonValue, i int) bool =
	0 <= i && i < len(vs) ? vs[i].dataType == jsonparser.Null && allnull(vs, i + 1) : true

// sat: do the selected values satisfy a matcher expression
rec sat(e fieldExpr, vs seq jsonValue) bool =
	is(e,*exprExists) ? len(vs) > 0
	: is(e,*exprNull) ? allnull(vs, 0)
	: anysatv(e, scal(vs, 0), 0)

def scalarexpr(e fieldExpr) bool =
	is(e,*exprFloat) || is(e,*exprDatetime) || is(e,*exprEqBool) || is(e,*exprRegexp) || is(e,*unicodeMatcher) || is(e,*exprNet)

def wfe(e fieldExpr) bool = (scalarexpr(e) || is(e,*exprExists) || is(e,*exprNull)) && refof(e) != 0

invariant [C03 C10 "operator is numeric"] exprFloat(e) numop(e.op)
invariant [C04 C10 "operator is numeric"] exprDatetime(e) numop(e.op)
invariant [C06 C10 "operator is equality"] exprEqBool(e) e.op == ast.EQ
invariant [C08 C10 "expression present"] exprRegexp(e) e.value != nil

iface fieldExpr.matches(e, f)(r) {
	tags C03 C04 C05 C06 C07 C08 C09
	impltags exprFloat C03
	impltags exprDatetime C04
	impltags exprExists C05
	impltags exprNull C05
	impltags exprEqBool C06
	impltags unicodeMatcher C07
	impltags exprRegexp C07 C08
	impltags exprNet C09
	requires wfe(e) && f != nil
	ensures r == sat(e, f.values)
	inv (i int) anysatv(e, scal(f.values, 0), 0) == anysatv(e, scal(f.values, 0), i)
	inv (i int, b bool) anysatv(e, scal(f.values, 0), 0) == (b || anysatv(e, scal(f.values, 0), i))
	inv (i int) allnull(f.values, 0) == allnull(f.values, i)
	inv (i int, b bool) allnull(f.values, 0) == (b && allnull(f.values, i))
	inv (i int, t string, ix seq []int) anynet(as(e,*exprNet).value, t, ix, 0) == anynet(as(e,*exprNet).value, t, ix, i)
	inv (i int, t string, ix seq []int, b bool) anynet(as(e,*exprNet).value, t, ix, 0) == (b || anynet(as(e,*exprNet).value, t, ix, i))
}

// ---- compiled queries (C01) ------------------------------------------------

rec anysat(es seq fieldExpr, vs seq jsonValue, i int) bool =
	0 <= i && i < len(es) ? sat(es[i], vs) || anysat(es, vs, i + 1) : false

def cmpden(p seq string, es seq fieldExpr, d seq int) bool = len(fieldvals(p, d)) > 0 && anysat(es, fieldvals(p, d), 0)

rec den(n boolNode, d seq int) bool depth 1 =
	is(n,*andNode) ? den(as(n,*andNode).left, d) && den(as(n,*andNode).right, d)
	: is(n,*orNode) ? den(as(n,*orNode).left, d) || den(as(n,*orNode).right, d)
	: is(n,*notNode) ? !den(as(n,*notNode).sub, d)
	: cmpden(as(n,*exprNode).path, as(n,*exprNode).exprs, d)

def wfb(n boolNode) bool =
	(is(n,*andNode) || is(n,*orNode) || is(n,*notNode) || is(n,*exprNode)) && refof(n) != 0

invariant [C01 C10 "operands and counters present"] andNode(n) wfb(n.left) && wfb(n.right) && n.nodeStats != nil
invariant [C01 C10 "operands and counters present"] orNode(n) wfb(n.left) && wfb(n.right) && n.nodeStats != nil
invariant [C01 C10 "operand and counters present"] notNode(n) wfb(n.sub) && n.nodeStats != nil
invariant [C01 C10 "path, expressions and counters present"] exprNode(n)
	len(n.path) >= 1 && n.nodeStats != nil && (forall i int :: {n.exprs[i]} 0 <= i && i < len(n.exprs) ==> wfe(n.exprs[i]))

// counters after evaluating n on d (C12)
def nstats(n boolNode) *nodeStats =
	is(n,*andNode) ? as(n,*andNode).nodeStats : is(n,*orNode) ? as(n,*orNode).nodeStats
	: is(n,*notNode) ? as(n,*notNode).nodeStats : as(n,*exprNode).nodeStats

def bump(h arr int int, p *nodeStats) arr int int = upd(h, id(p), h[id(p)] + 1)

rec checked(n boolNode, d seq int, h arr int int) arr int int depth 1 =
	bump(is(n,*andNode) ? (den(as(n,*andNode).left, d) ? checked(as(n,*andNode).right, d, checked(as(n,*andNode).left, d, h)) : checked(as(n,*andNode).left, d, h))
	: is(n,*orNode) ? (den(as(n,*orNode).left, d) ? checked(as(n,*orNode).left, d, h) : checked(as(n,*orNode).right, d, checked(as(n,*orNode).left, d, h)))
	: is(n,*notNode) ? checked(as(n,*notNode).sub, d, h)
	: h, nstats(n))

def bumpif(c bool, h arr int int, p *nodeStats) arr int int = c ? bump(h, p) : h

rec matched(n boolNode, d seq int, h arr int int) arr int int depth 1 =
	bumpif(den(n, d), is(n,*andNode) ? (den(as(n,*andNode).left, d) ? matched(as(n,*andNode).right, d, matched(as(n,*andNode).left, d, h)) : matched(as(n,*andNode).left, d, h))
	: is(n,*orNode) ? (den(as(n,*orNode).left, d) ? matched(as(n,*orNode).left, d, h) : matched(as(n,*orNode).right, d, matched(as(n,*orNode).left, d, h)))
	: is(n,*notNode) ? matched(as(n,*notNode).sub, d, h)
	: h, nstats(n))

iface boolNode.result(n, root)(r) {
	tags C01
	requires wfb(n)
	ensures [C01 "verdict"] r == den(n, root)
	ensures [C12 "check counts"] heap(nodeStats,timesChecked) == checked(n, root, old(heap(nodeStats,timesChecked)))
	ensures [C12 "match counts"] heap(nodeStats,timesMatched) == matched(n, root, old(heap(nodeStats,timesMatched)))
	modifies heap(nodeStats,timesChecked), heap(nodeStats,timesMatched)
	inv (i int) anysat(as(n,*exprNode).exprs, fieldvals(as(n,*exprNode).path, root), 0) == anysat(as(n,*exprNode).exprs, fieldvals(as(n,*exprNode).path, root), i)
	inv (i int, b bool) anysat(as(n,*exprNode).exprs, fieldvals(as(n,*exprNode).path, root), 0) == (b || anysat(as(n,*exprNode).exprs, fieldvals(as(n,*exprNode).path, root), i))
}

// the statistics tree mirrors the query and shows the counters
rec statsok(n boolNode, s *MatchStats, hc arr int int, hm arr int int) bool depth 1 =
	s != nil && s.TimesChecked == hc[id(nstats(n))] && s.TimesMatched == hm[id(nstats(n))]
	&& (is(n,*andNode) ? len(s.Children) == 2 && statsok(as(n,*andNode).left, s.Children[0], hc, hm) && statsok(as(n,*andNode).right, s.Children[1], hc, hm)
	: is(n,*orNode) ? len(s.Children) == 2 && statsok(as(n,*orNode).left, s.Children[0], hc, hm) && statsok(as(n,*orNode).right, s.Children[1], hc, hm)
	: is(n,*notNode) ? len(s.Children) == 1 && statsok(as(n,*notNode).sub, s.Children[0], hc, hm)
	: len(s.Children) == 0)

// and carries the names of its nodes (C25)
rec statsnamed(n boolNode, s *MatchStats, h arr int string) bool depth 1 =
	s != nil && s.NodeName == h[id(nstats(n))]
	&& (is(n,*andNode) ? len(s.Children) == 2 && statsnamed(as(n,*andNode).left, s.Children[0], h) && statsnamed(as(n,*andNode).right, s.Children[1], h)
	: is(n,*orNode) ? len(s.Children) == 2 && statsnamed(as(n,*orNode).left, s.Children[0], h) && statsnamed(as(n,*orNode).right, s.Children[1], h)
	: is(n,*notNode) ? len(s.Children) == 1 && statsnamed(as(n,*notNode).sub, s.Children[0], h)
	: len(s.Children) == 0)

iface statsProvider.stats(n)(r) {
	tags C12 C25
	requires wfb(n)
	ensures [C25 "names of the nodes"] statsnamed(n, r, heap(nodeStats,nodeName))
	ensures [C12 "statistics tree"] statsok(n, r, heap(nodeStats,timesChecked), heap(nodeStats,timesMatched))
}

// ---- the meaning of a query ------------------------------------------------

rec isascii(s string, i int) bool = 0 <= i && i < len(s) ? s[i] < 128 && isascii(s, i + 1) : true

def haswild(s string) bool = strings.IndexAny(s, "?*") >= 0

func isASCII(s)(r) {
	tags C07
	ensures r == isascii(s, 0)
	inv (i int) isascii(s, 0) == isascii(s, i)
	inv (i int, b bool) isascii(s, 0) == (b && isascii(s, i))
}

// regular expression of a wildcard string, from its i-th character on
rec wild(rs seq int, i int) string =
	0 <= i && i < len(rs) ?
		(rs[i] == '\\' && i + 1 < len(rs) && (rs[i+1] == '?' || rs[i+1] == '*') ? regexp.QuoteMeta(runestr(rs[i+1])) ++ wild(rs, i + 2)
		: rs[i] == '?' ? "." ++ wild(rs, i + 1)
		: rs[i] == '*' ? ".*?" ++ wild(rs, i + 1)
		: regexp.QuoteMeta(runestr(rs[i])) ++ wild(rs, i + 1))
	: ""

def wordb(s string) string = isascii(s, 0) ? `\b` : ""

def wildre(s string) string =
	`(?i)` ++ wordb(strings.ToLower(s)) ++ wild(runes(strings.ToLower(s)), 0) ++ wordb(strings.ToLower(s))

func stringSearchRegexp(s)(r) {
	tags C07
	ensures r == regexp.MustCompile(wildre(s))
	inv (buf bytes.Buffer, acc bytes.Buffer, i int)
		buf ++ regexp.QuoteMeta(acc) ++ wild(runes(strings.ToLower(s)), i) == entry(buf) ++ wild(runes(strings.ToLower(s)), 0)
	inv (buf bytes.Buffer, i int)
		buf ++ wild(runes(strings.ToLower(s)), i) == entry(buf) ++ wild(runes(strings.ToLower(s)), 0)
}

def strsat(s string, v jsonValue) bool =
	isstr(v) && (!isascii(s, 0) && !haswild(s) ?
		search.Pattern.IndexString(search.Matcher.CompileString(search.New(language.Und, search.Loose), s), strv(v)) >= 0
	: regexp.Regexp.MatchString(regexp.MustCompile(wildre(s)), strv(v)))

// avsat: does a scalar stand in relation op to query value(s) a (and b)
rec avsat(op string, a ast.Val, b ast.Val, v jsonValue) bool =
	is(a,*ast.StringVal) ? strsat(as(a,*ast.StringVal).sv, v)
	: is(a,*ast.RegexpVal) ? isstr(v) && regexp.Regexp.MatchString(as(a,*ast.RegexpVal).rv, strv(v))
	: is(a,*ast.BoolVal) ? isbool(v) && boolv(v) == as(a,*ast.BoolVal).bv
	: is(a,*ast.NetVal) ? isstr(v) && netsat(as(a,*ast.NetVal).nv, strv(v))
	: is(a,*ast.TimeVal) ? istime(v) &&
		(op == ast.EQ && as(a,*ast.TimeVal).dayOnly ? timev(v) >= as(a,*ast.TimeVal).tv && timev(v) < as(a,*ast.TimeVal).tv + 86400000000000
		: tcmp(op, timev(v), as(a,*ast.TimeVal).tv, as(b,*ast.TimeVal).tv))
	: isnum(v) && fcmp(op, numv(v), numval(a), numval(b))

rec anyav(op string, a ast.Val, b ast.Val, s seq jsonValue, i int) bool =
	0 <= i && i < len(s) ? avsat(op, a, b, s[i]) || anyav(op, a, b, s, i + 1) : false

rec anyval(rv seq ast.Val, s seq jsonValue, i int) bool =
	0 <= i && i < len(rv) ? anyav(ast.EQ, rv[i], rv[i], s, 0) || anyval(rv, s, i + 1) : false

def opsat(op string, rv seq ast.Val, vs seq jsonValue) bool =
	op == ast.EXS ? true
	: op == ast.NUL ? allnull(vs, 0)
	: op == ast.BET ? anyav(op, rv[0], rv[1], scal(vs, 0), 0)
	: op == ast.EQ || op == ast.SIM ? anyval(rv, scal(vs, 0), 0)
	: anyav(op, rv[0], rv[0], scal(vs, 0), 0)

rec eval(n ast.Node, d seq int) bool depth 1 =
	is(n,*ast.AndNode) ? eval(as(n,*ast.AndNode).Left, d) && eval(as(n,*ast.AndNode).Right, d)
	: is(n,*ast.OrNode) ? eval(as(n,*ast.OrNode).Left, d) || eval(as(n,*ast.OrNode).Right, d)
	: is(n,*ast.NotNode) ? !eval(as(n,*ast.NotNode).Expr, d)
	: len(fieldvals(as(n,*ast.ExprNode).Field, d)) > 0
		&& opsat(as(n,*ast.ExprNode).Op, as(n,*ast.ExprNode).RVals, fieldvals(as(n,*ast.ExprNode).Field, d))

lemma any_lift [C01 C03 C04 C06 C07 C08 C09] induct (len(s) - i) :
	forall e fieldExpr, op string, a ast.Val, b ast.Val, s seq jsonValue, i int :: {anysatv(e, s, i), anyav(op, a, b, s, i)}
	(forall v jsonValue :: {satv(e, v)} satv(e, v) == avsat(op, a, b, v)) ==> anysatv(e, s, i) == anyav(op, a, b, s, i)

lemma list_lift [C01] induct (len(es) - i) uses any_lift :
	forall es seq fieldExpr, rv seq ast.Val, vs seq jsonValue, i int :: {anysat(es, vs, i), anyval(rv, scal(vs, 0), i)}
	len(es) == len(rv) && 0 <= i
	&& (forall j int :: {es[j]} 0 <= j && j < len(es) ==> scalarexpr(es[j]))
	&& (forall j int, v jsonValue :: {satv(es[j], v)} 0 <= j && j < len(es) ==> satv(es[j], v) == avsat(ast.EQ, rv[j], rv[j], v))
	==> anysat(es, vs, i) == anyval(rv, scal(vs, 0), i)

func getStringMatcher(s)(r) {
	tags C07
	ensures scalarexpr(r) && wfe(r)
	ensures [C07 "string search"] forall v jsonValue :: {satv(r, v)} satv(r, v) == strsat(s, v)
}

func exprNumeric(op, rv)(r) {
	tags C03 C04
	requires okcmp(op, rv) && (op == ast.LT || op == ast.LTE || op == ast.GT || op == ast.GTE) && wfval(rv[0])
	ensures scalarexpr(r) && wfe(r)
	ensures [C03 C04 "comparison"] forall v jsonValue :: {satv(r, v)} satv(r, v) == avsat(op, rv[0], rv[0], v)
}

func exprBetween(rv)(r) {
	tags C03 C04
	requires okcmp(ast.BET, rv) && wfval(rv[0]) && wfval(rv[1])
	ensures scalarexpr(r) && wfe(r)
	ensures [C03 C04 "range"] forall v jsonValue :: {satv(r, v)} satv(r, v) == avsat(ast.BET, rv[0], rv[1], v)
}

func exprEQ(rv)(r) {
	tags C03 C04 C06 C07 C08 C09
	requires len(rv) >= 1 && (forall i int :: {rv[i]} 0 <= i && i < len(rv) ==> wfval(rv[i]))
	ensures [C01 "one expression per value"] len(r) == len(rv)
	ensures forall j int :: {r[j]} 0 <= j && j < len(r) ==> scalarexpr(r[j]) && wfe(r[j])
	ensures [C03 C04 C06 C07 C08 C09 "equality"] forall j int, v jsonValue :: {satv(r[j], v)} 0 <= j && j < len(r) ==> satv(r[j], v) == avsat(ast.EQ, rv[j], rv[j], v)
	inv (out seq fieldExpr, i int) len(out) == i
	inv (out seq fieldExpr) forall j int :: {out[j]} 0 <= j && j < len(out) ==> scalarexpr(out[j]) && wfe(out[j])
	inv (out seq fieldExpr) forall j int, v jsonValue :: {satv(out[j], v)} 0 <= j && j < len(out) ==> satv(out[j], v) == avsat(ast.EQ, rv[j], rv[j], v)
}

// counters of different nodes are different objects
rec hasns(n boolNode, p int) bool depth 1 =
	p == id(nstats(n))
	|| (is(n,*andNode) ? hasns(as(n,*andNode).left, p) || hasns(as(n,*andNode).right, p)
	: is(n,*orNode) ? hasns(as(n,*orNode).left, p) || hasns(as(n,*orNode).right, p)
	: is(n,*notNode) ? hasns(as(n,*notNode).sub, p)
	: false)

def apart(a boolNode, b boolNode, p *nodeStats) bool =
	!hasns(a, id(p)) && !hasns(b, id(p)) && (forall q int :: {hasns(a, q)} {hasns(b, q)} !(hasns(a, q) && hasns(b, q)))

rec distinctns(n boolNode) bool depth 1 =
	is(n,*andNode) ? apart(as(n,*andNode).left, as(n,*andNode).right, nstats(n)) && distinctns(as(n,*andNode).left) && distinctns(as(n,*andNode).right)
	: is(n,*orNode) ? apart(as(n,*orNode).left, as(n,*orNode).right, nstats(n)) && distinctns(as(n,*orNode).left) && distinctns(as(n,*orNode).right)
	: is(n,*notNode) ? !hasns(as(n,*notNode).sub, id(nstats(n))) && distinctns(as(n,*notNode).sub)
	: true

// the compiled query has the shape of the query
rec shape(n boolNode, a ast.Node) bool depth 1 =
	is(a,*ast.AndNode) ? is(n,*andNode) && shape(as(n,*andNode).left, as(a,*ast.AndNode).Left) && shape(as(n,*andNode).right, as(a,*ast.AndNode).Right)
	: is(a,*ast.OrNode) ? is(n,*orNode) && shape(as(n,*orNode).left, as(a,*ast.OrNode).Left) && shape(as(n,*orNode).right, as(a,*ast.OrNode).Right)
	: is(a,*ast.NotNode) ? is(n,*notNode) && shape(as(n,*notNode).sub, as(a,*ast.NotNode).Expr)
	: is(n,*exprNode)

// the names of the counters are those of the query's nodes (C25)
rec hasnames(n boolNode, a ast.Node, h arr int string) bool depth 1 =
	is(a,*ast.AndNode) ? h[id(nstats(n))] == "AND" && hasnames(as(n,*andNode).left, as(a,*ast.AndNode).Left, h) && hasnames(as(n,*andNode).right, as(a,*ast.AndNode).Right, h)
	: is(a,*ast.OrNode) ? h[id(nstats(n))] == "OR" && hasnames(as(n,*orNode).left, as(a,*ast.OrNode).Left, h) && hasnames(as(n,*orNode).right, as(a,*ast.OrNode).Right, h)
	: is(a,*ast.NotNode) ? h[id(nstats(n))] == "NOT" && hasnames(as(n,*notNode).sub, as(a,*ast.NotNode).Expr, h)
	: h[id(nstats(n))] == friendly(as(a,*ast.ExprNode))

lemma ns_self [C25] : forall n boolNode, p int :: {hasns(n, p)} p == id(nstats(n)) ==> hasns(n, p)
lemma ns_and [C25] : forall n *andNode, p int :: {hasns(n.left, p), hasns(boxed(n,*andNode), p)} {hasns(n.right, p), hasns(boxed(n,*andNode), p)}
	hasns(n.left, p) || hasns(n.right, p) ==> hasns(boxed(n,*andNode), p)
lemma ns_or [C25] : forall n *orNode, p int :: {hasns(n.left, p), hasns(boxed(n,*orNode), p)} {hasns(n.right, p), hasns(boxed(n,*orNode), p)}
	hasns(n.left, p) || hasns(n.right, p) ==> hasns(boxed(n,*orNode), p)
lemma ns_not [C25] : forall n *notNode, p int :: {hasns(n.sub, p), hasns(boxed(n,*notNode), p)}
	hasns(n.sub, p) ==> hasns(boxed(n,*notNode), p)

func builder.build(b, node)(r) {
	tags C01
	uses any_lift, list_lift, ns_self, ns_and, ns_or, ns_not
	ensures [C25 "names of the nodes"] forall h arr int string :: {hasnames(r, node, h)}
		(forall p int :: {h[p]} hasns(r, p) ==> h[p] == heap(nodeStats,nodeName)[p]) ==> hasnames(r, node, h)
	requires b != nil && b.withStats && wfnode(node) && okast(node)
	ensures wfb(r)
	ensures [C01 "compiled query means the query"] forall d seq int :: {den(r, d)} den(r, d) == eval(node, d)
	ensures [C12 "counters are new"] forall p int :: {hasns(r, p)} hasns(r, p) ==> fresh(p)
	ensures [C12 "one counter per node"] distinctns(r)
	ensures [C12 "shape of the query"] shape(r, node)
}

invariant [C01 C10 "root present"] Matcher(m) wfb(m.root)

func Matcher.Match(m, data)(r, err) {
	tags C01 C10
	requires m != nil
	ensures [C10 "error iff not JSON"] (err != nil) == !json.Valid(data)
	ensures [C10 "no match without JSON"] err != nil ==> !r
	ensures [C01 "verdict"] err == nil ==> r == den(m.root, data)
	ensures [C12 "check counts"] heap(nodeStats,timesChecked) == (err == nil ? checked(m.root, data, old(heap(nodeStats,timesChecked))) : old(heap(nodeStats,timesChecked)))
	ensures [C12 "match counts"] heap(nodeStats,timesMatched) == (err == nil ? matched(m.root, data, old(heap(nodeStats,timesMatched))) : old(heap(nodeStats,timesMatched)))
	modifies heap(nodeStats,timesChecked), heap(nodeStats,timesMatched)
}

// from the query text: ParseQuery's contract (parser.spec) says what it parsed
func NewMatcher(q)(m, err) {
	tags C01 C10 C15 C24
	requires tapesok()
	modifies trace, heap(parser.MessageTape,firstErr), heap(parser.MessageTape,messages), parsed, parseErr, maps(grammar.storeDict)
	ensures [C01 C10 "a matcher or an error"] (err == nil) == (m != nil)
	ensures [C01 "matches what was parsed"] err == nil ==> m.query == q && parseErr == nil && (forall d seq int :: {den(m.root, d)} den(m.root, d) == eval(parsed, d))
	ensures [C12 "one counter per node"] err == nil ==> distinctns(m.root) && shape(m.root, parsed)
	ensures [C25 "names of the nodes"] err == nil ==> hasnames(m.root, parsed, heap(nodeStats,nodeName))
	ensures [C13 "comparisons are well formed"] err == nil ==> okast(parsed)
	ensures [C24 "advice on the query"] err == nil ==> advs(m.messages, len(m.messages)) == advall(parsed)
	ensures [C24 "advice is no error"] parseErr == nil && okast(parsed) ==> err == nil
	ensures [C15 "messages of the visitor"] err == nil ==> (exists t *parser.MessageTape :: {t.messages} fresh(t) && m.messages == t.messages)
}

func Matcher.Messages(m)(r) {
	tags C15 C24
	requires m != nil
	ensures [C15 C24 "messages kept"] r == m.messages
}

func Matcher.Stats(m)(r) {
	tags C12 C25
	requires m != nil
	ensures [C25 "names of the nodes"] statsnamed(m.root, r, heap(nodeStats,nodeName))
	ensures [C12 "statistics tree"] statsok(m.root, r, heap(nodeStats,timesChecked), heap(nodeStats,timesMatched))
}

// ---- messages about a query (C15) ------------------------------------------

axiom syntax_parse : forall s string, f syntax.Flags :: {syntax.Parse(s, f)} syntax.Parse$1(s, f) == nil ==> syntax.Parse(s, f) != nil
axiom syntax_sub : forall r *syntax.Regexp, i int :: {r.Sub[i]} r.Sub[i] != nil

// advice on the values of a comparison (C24)
def isadv(f int) bool = f == id(messageVisitor)
def when(c bool, m advmsg) seq advmsg = c ? unit(m) : empty(advmsg)

def dotstar(r *syntax.Regexp) bool =
	len(r.Sub) == 1 && r.Op == syntax.OpStar && (r.Sub[0].Op == syntax.OpAnyChar || r.Sub[0].Op == syntax.OpAnyCharNotNL)
rec special(r *syntax.Regexp) bool =
	len(r.Sub) == 1 ? !(r.Op == syntax.OpLiteral || r.Op == syntax.OpStar || r.Op == syntax.OpQuest) : specials(r.Sub, 0)
rec specials(rs seq *syntax.Regexp, k int) bool = 0 <= k && k < len(rs) && (special(rs[k]) || specials(rs, k + 1))

def grouped(r *syntax.Regexp) bool = len(r.Sub) == 1 && r.Op == syntax.OpCapture
def advtree(r *syntax.Regexp, p ast.Pos) seq advmsg =
	when(r.Op == syntax.OpAlternate && !special(r), adv(parser.MsgHint, p))
	++ when(len(r.Sub) >= 2 && dotstar(r.Sub[0]), adv(parser.MsgHint, p))
	++ when(len(r.Sub) >= 3 && dotstar(r.Sub[len(r.Sub)-1]), adv(parser.MsgHint, p))
def retree(v *ast.RegexpVal) *syntax.Regexp = syntax.Parse(regexp.Regexp.String(v.rv), syntax.Perl)
def rebody(v *ast.RegexpVal) string = strings.Trim(v.sv, `/`)
def starred(s string) bool = strings.HasPrefix(s, ".*") || strings.HasSuffix(s, ".*")

def advval(op ast.Op, v ast.Val) seq advmsg =
	is(v,*ast.StringVal) ? when(op == ast.SIM, adv(parser.MsgWarning, valpos(v)))
	: is(v,*ast.TimeVal) ? when(op == ast.EQ && !as(v,*ast.TimeVal).dayOnly, adv(parser.MsgWarning, valpos(v)))
	: is(v,*ast.RegexpVal) ?
		when(op == ast.SIM, adv(parser.MsgWarning, valpos(v)))
		++ when(strings.HasPrefix(rebody(as(v,*ast.RegexpVal)), "(?i)") && !isascii(as(v,*ast.RegexpVal).sv, 0), adv(parser.MsgWarning, valpos(v)))
		++ when(starred(strings.TrimPrefix(rebody(as(v,*ast.RegexpVal)), "(?i)")), adv(parser.MsgHint, valpos(v)))
		++ when(grouped(retree(as(v,*ast.RegexpVal))), adv(parser.MsgHint, valpos(v)))
		++ advtree(grouped(retree(as(v,*ast.RegexpVal))) ? retree(as(v,*ast.RegexpVal)).Sub[0] : retree(as(v,*ast.RegexpVal)), valpos(v))
	: empty(advmsg)
rec advvals(op ast.Op, vs seq ast.Val, k int) seq advmsg = k <= 0 ? empty(advmsg) : advvals(op, vs, k - 1) ++ advval(op, vs[k-1])
def advn(n ast.Node) seq advmsg =
	is(n,*ast.ExprNode) ? advvals(as(n,*ast.ExprNode).Op, as(n,*ast.ExprNode).RVals, len(as(n,*ast.ExprNode).RVals)) : empty(advmsg)

func doesSomethingSpecial(r)(b) {
	tags C15 C24
	requires r != nil
	ensures [C24 "special operators"] b == special(r)
	inv (i int) specials(r.Sub, 0) == specials(r.Sub, i)
	inv (i int, b bool) specials(r.Sub, 0) == (b || specials(r.Sub, i))
}
