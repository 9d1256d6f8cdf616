// The interpreter of the grammar's table: what every kind of expression
// recognises, where it ends, whether it reports errors, and which values it may
// yield, as functions of the expression, the text and the offset. The table
// itself is read off the package initialiser.
package "github.com/flowchartsman/aql/internal/grammar"

immutable grammar, rule, choiceExpr, actionExpr, recoveryExpr, seqExpr, throwExpr, labeledExpr, andExpr, notExpr, zeroOrOneExpr, zeroOrMoreExpr, oneOrMoreExpr, ruleRefExpr, stateCodeExpr, andCodeExpr, notCodeExpr, litMatcher, charClassMatcher, anyMatcher

table g

// ---- characters and positions -----------------------------------------------

axiom decode_width : forall s seq int :: {utf8.DecodeRune$1(s)} 0 <= utf8.DecodeRune$1(s) && utf8.DecodeRune$1(s) <= len(s) && (utf8.DecodeRune$1(s) == 0) == (len(s) == 0)
axiom decode_end : forall s seq int :: {utf8.DecodeRune(s)} len(s) == 0 ==> utf8.DecodeRune(s) == 65533
axiom decode_ascii : forall s seq int :: {utf8.DecodeRune(s)} len(s) > 0 && 0 <= s[0] && s[0] < 128 ==> utf8.DecodeRune(s) == s[0] && utf8.DecodeRune$1(s) == 1
axiom decode_ascii_only : forall s seq int :: {utf8.DecodeRune(s)} 0 <= utf8.DecodeRune(s) && utf8.DecodeRune(s) < 128 ==> len(s) > 0 && s[0] == utf8.DecodeRune(s) && utf8.DecodeRune$1(s) == 1
axiom lower_ascii : forall r int :: {unicode.ToLower(r)} 0 <= r && r < 128 ==> unicode.ToLower(r) == (65 <= r && r <= 90 ? r + 32 : r)
axiom lower_end : unicode.ToLower(65533) == 65533

// the character at an offset and its width
def rn(d seq int, o int) int = utf8.DecodeRune(d[o:])
def rw(d seq int, o int) int = utf8.DecodeRune$1(d[o:])
def okrune(d seq int, o int) bool = !(rn(d, o) == 65533 && rw(d, o) == 1)

// offsets at which a character starts, or the end; line and column of these
fun bnd(d seq int, o int) bool
fun lineat(d seq int, o int) int
fun colat(d seq int, o int) int
// the text is valid up to and including the character at an offset
fun vld(d seq int, o int) bool

axiom bnd_first local : forall d seq int :: {bnd(d, 0)} bnd(d, 0) && lineat(d, 0) == (rn(d, 0) == 10 ? 2 : 1) && colat(d, 0) == (rn(d, 0) == 10 ? 0 : 1) && vld(d, 0) == okrune(d, 0)
axiom bnd_next local : forall d seq int, o int :: {bnd(d, o), utf8.DecodeRune$1(d[o:])} bnd(d, o) && 0 <= o && o < len(d) ==>
	bnd(d, o + rw(d, o))
	&& lineat(d, o + rw(d, o)) == lineat(d, o) + (rn(d, o + rw(d, o)) == 10 ? 1 : 0)
	&& colat(d, o + rw(d, o)) == (rn(d, o + rw(d, o)) == 10 ? 0 : colat(d, o) + 1)
	&& vld(d, o + rw(d, o)) == (vld(d, o) && okrune(d, o + rw(d, o)))

def posat(d seq int, o int) position = mk(position, lineat(d, o), colat(d, o), o)
def savedat(d seq int, o int) savepoint = mk(savepoint, posat(d, o), rn(d, o), rw(d, o))
def atbnd(d seq int, o int) bool = 0 <= o && o <= len(d) && bnd(d, o)
def allvalid(d seq int) bool = forall o int :: {bnd(d, o)} atbnd(d, o) ==> okrune(d, o)

// ---- the kinds of expressions -----------------------------------------------

def wfx(e any) bool = refof(e) != 0 && (is(e,*actionExpr) || is(e,*andExpr) || is(e,*anyMatcher) || is(e,*charClassMatcher) || is(e,*choiceExpr)
	|| is(e,*labeledExpr) || is(e,*litMatcher) || is(e,*notExpr) || is(e,*oneOrMoreExpr) || is(e,*recoveryExpr) || is(e,*ruleRefExpr)
	|| is(e,*seqExpr) || is(e,*stateCodeExpr) || is(e,*throwExpr) || is(e,*zeroOrMoreExpr) || is(e,*zeroOrOneExpr))

// rules by name, actions by function
fun rule_of(n string) *rule
fun act_of(f ref) *actionExpr
witness rule(r) rule_of(r.name) == r
witness actionExpr(a) act_of(id(a.run)) == a

// what a rule recognises
rec rk(n string, d seq int, o int) bool depth 2 = pok(rule_of(n).expr, d, o)
rec re(n string, d seq int, o int) int depth 2 = pend(rule_of(n).expr, d, o)
rec rx(n string, d seq int, o int) bool depth 2 = perr(rule_of(n).expr, d, o)
rec rv(n string, d seq int, o int, v any) bool const depth 2 = rvx(n, d, o, v) && rt(n, v)
rec rvx(n string, d seq int, o int, v any) bool depth 3 = pv(rule_of(n).expr, d, o, v)

rec pok(e any, d seq int, o int) bool known depth 1 =
	is(e,*actionExpr) ? pok(as(e,*actionExpr).expr, d, o)
	: is(e,*andExpr) ? pok(as(e,*andExpr).expr, d, o)
	: is(e,*notExpr) ? !pok(as(e,*notExpr).expr, d, o)
	: is(e,*anyMatcher) ? o < len(d)
	: is(e,*charClassMatcher) ? o < len(d) && inclass(as(e,*charClassMatcher), rn(d, o))
	: is(e,*choiceExpr) ? chok(as(e,*choiceExpr), 0, d, o)
	: is(e,*labeledExpr) ? pok(as(e,*labeledExpr).expr, d, o)
	: is(e,*litMatcher) ? litok(as(e,*litMatcher).val, 0, as(e,*litMatcher).ignoreCase, d, o)
	: is(e,*oneOrMoreExpr) ? pok(as(e,*oneOrMoreExpr).expr, d, o)
	: is(e,*recoveryExpr) ? pok(as(e,*recoveryExpr).expr, d, o)
	: is(e,*ruleRefExpr) ? rk(as(e,*ruleRefExpr).name, d, o)
	: is(e,*seqExpr) ? sqok(as(e,*seqExpr), len(as(e,*seqExpr).exprs), d, o)
	: true

rec pend(e any, d seq int, o int) int known depth 1 =
	is(e,*actionExpr) ? pend(as(e,*actionExpr).expr, d, o)
	: is(e,*anyMatcher) || is(e,*charClassMatcher) ? o + rw(d, o)
	: is(e,*choiceExpr) ? chend(as(e,*choiceExpr), 0, d, o)
	: is(e,*labeledExpr) ? pend(as(e,*labeledExpr).expr, d, o)
	: is(e,*litMatcher) ? litend(as(e,*litMatcher).val, 0, d, o)
	: is(e,*oneOrMoreExpr) ? starend(as(e,*oneOrMoreExpr).expr, d, o)
	: is(e,*zeroOrMoreExpr) ? starend(as(e,*zeroOrMoreExpr).expr, d, o)
	: is(e,*zeroOrOneExpr) ? (pok(as(e,*zeroOrOneExpr).expr, d, o) ? pend(as(e,*zeroOrOneExpr).expr, d, o) : o)
	: is(e,*recoveryExpr) ? pend(as(e,*recoveryExpr).expr, d, o)
	: is(e,*ruleRefExpr) ? re(as(e,*ruleRefExpr).name, d, o)
	: is(e,*seqExpr) ? sqend(as(e,*seqExpr), len(as(e,*seqExpr).exprs), d, o)
	: o

// errors are reported on the way
rec perr(e any, d seq int, o int) bool known depth 1 =
	is(e,*actionExpr) ? perr(as(e,*actionExpr).expr, d, o) || pok(as(e,*actionExpr).expr, d, o) && aerr(id(as(e,*actionExpr).run), d, o, pend(as(e,*actionExpr).expr, d, o))
	: is(e,*andExpr) ? perr(as(e,*andExpr).expr, d, o)
	: is(e,*notExpr) ? perr(as(e,*notExpr).expr, d, o)
	: is(e,*choiceExpr) ? cherr(as(e,*choiceExpr), 0, d, o)
	: is(e,*labeledExpr) ? perr(as(e,*labeledExpr).expr, d, o)
	: is(e,*oneOrMoreExpr) ? starerr(as(e,*oneOrMoreExpr).expr, d, o)
	: is(e,*zeroOrMoreExpr) ? starerr(as(e,*zeroOrMoreExpr).expr, d, o)
	: is(e,*zeroOrOneExpr) ? perr(as(e,*zeroOrOneExpr).expr, d, o)
	: is(e,*recoveryExpr) ? perr(as(e,*recoveryExpr).expr, d, o)
	: is(e,*ruleRefExpr) ? rx(as(e,*ruleRefExpr).name, d, o)
	: is(e,*seqExpr) ? sqerr(as(e,*seqExpr), len(as(e,*seqExpr).exprs), d, o)
	: is(e,*stateCodeExpr) || is(e,*throwExpr)

// the value of a match without errors
rec pv(e any, d seq int, o int, v any) bool known depth 1 =
	is(e,*actionExpr) ? aval(id(as(e,*actionExpr).run), d, o, pend(as(e,*actionExpr).expr, d, o), v)
	: is(e,*choiceExpr) ? chv(as(e,*choiceExpr), 0, d, o, v)
	: is(e,*labeledExpr) ? pv(as(e,*labeledExpr).expr, d, o, v)
	: is(e,*oneOrMoreExpr) ? is(v,[]any) && len(as(v,[]any)) == starn(as(e,*oneOrMoreExpr).expr, d, o) && starv(as(e,*oneOrMoreExpr).expr, d, o, seq(as(v,[]any)), len(as(v,[]any)))
	: is(e,*zeroOrMoreExpr) ? is(v,[]any) && len(as(v,[]any)) == starn(as(e,*zeroOrMoreExpr).expr, d, o) && starv(as(e,*zeroOrMoreExpr).expr, d, o, seq(as(v,[]any)), len(as(v,[]any)))
	: is(e,*zeroOrOneExpr) ? (pok(as(e,*zeroOrOneExpr).expr, d, o) ? pv(as(e,*zeroOrOneExpr).expr, d, o, v) : v == nil)
	: is(e,*recoveryExpr) ? pv(as(e,*recoveryExpr).expr, d, o, v)
	: is(e,*ruleRefExpr) ? rv(as(e,*ruleRefExpr).name, d, o, v)
	: is(e,*seqExpr) ? is(v,[]any) && len(as(v,[]any)) == len(as(e,*seqExpr).exprs) && sqv(as(e,*seqExpr), len(as(e,*seqExpr).exprs), d, o, seq(as(v,[]any)))
	: true

// the first k parts of a sequence
rec sqok(s *seqExpr, k int, d seq int, o int) bool known depth 1 = k <= 0 ? true : sqok(s, k - 1, d, o) && pok(s.exprs[k-1], d, sqend(s, k - 1, d, o))
rec sqend(s *seqExpr, k int, d seq int, o int) int known depth 1 = k <= 0 ? o : pend(s.exprs[k-1], d, sqend(s, k - 1, d, o))
rec sqerr(s *seqExpr, k int, d seq int, o int) bool known depth 1 = k <= 0 ? false : sqerr(s, k - 1, d, o) || sqok(s, k - 1, d, o) && perr(s.exprs[k-1], d, sqend(s, k - 1, d, o))
rec sqv(s *seqExpr, k int, d seq int, o int, vs seq any) bool known depth 1 = k <= 0 ? true : sqv(s, k - 1, d, o, vs) && pv(s.exprs[k-1], d, sqend(s, k - 1, d, o), vs[k-1])

// alternatives from the i-th on
rec chok(c *choiceExpr, i int, d seq int, o int) bool known depth 1 = 0 <= i && i < len(c.alternatives) ? pok(c.alternatives[i], d, o) || chok(c, i + 1, d, o) : false
rec chend(c *choiceExpr, i int, d seq int, o int) int known depth 1 = 0 <= i && i < len(c.alternatives) ? (pok(c.alternatives[i], d, o) ? pend(c.alternatives[i], d, o) : chend(c, i + 1, d, o)) : o
rec cherr(c *choiceExpr, i int, d seq int, o int) bool known depth 1 = 0 <= i && i < len(c.alternatives) ? perr(c.alternatives[i], d, o) || !pok(c.alternatives[i], d, o) && cherr(c, i + 1, d, o) : false
rec chv(c *choiceExpr, i int, d seq int, o int, v any) bool known depth 1 = 0 <= i && i < len(c.alternatives) ? (pok(c.alternatives[i], d, o) ? pv(c.alternatives[i], d, o, v) : chv(c, i + 1, d, o, v)) : false

// repetitions
rec starend(x any, d seq int, o int) int depth 1 = pok(x, d, o) ? starend(x, d, pend(x, d, o)) : o
rec starn(x any, d seq int, o int) int depth 1 = pok(x, d, o) ? 1 + starn(x, d, pend(x, d, o)) : 0
rec starerr(x any, d seq int, o int) bool depth 2 = perr(x, d, o) || pok(x, d, o) && starerr(x, d, pend(x, d, o))
rec starat(x any, d seq int, o int, n int) int depth 2 = n <= 0 ? o : pend(x, d, starat(x, d, o, n - 1))
rec starv(x any, d seq int, o int, vs seq any, n int) bool depth 1 = n <= 0 ? true : starv(x, d, o, vs, n - 1) && pok(x, d, starat(x, d, o, n - 1)) && pv(x, d, starat(x, d, o, n - 1), vs[n-1])

// literals and classes
def low(ic bool, r int) int = ic ? unicode.ToLower(r) : r
rec litok(s string, k int, ic bool, d seq int, o int) bool known depth 1 = k >= len(s) ? true : low(ic, rn(d, o)) == s[k] && litok(s, k + 1, ic, d, o + rw(d, o))
rec litend(s string, k int, d seq int, o int) int known depth 1 = k >= len(s) ? o : litend(s, k + 1, d, o + rw(d, o))
def inclass(c *charClassMatcher, r int) bool = (inchars(c, 0, low(c.ignoreCase, r)) || inranges(c, 0, low(c.ignoreCase, r)) || inclasses(c, 0, low(c.ignoreCase, r))) != c.inverted
rec inchars(c *charClassMatcher, i int, r int) bool known depth 1 = 0 <= i && i < len(c.chars) ? c.chars[i] == r || inchars(c, i + 1, r) : false
rec inranges(c *charClassMatcher, i int, r int) bool known depth 1 = 0 <= i && i < len(c.ranges) ? c.ranges[i] <= r && r <= c.ranges[i+1] || inranges(c, i + 2, r) : false
rec inclasses(c *charClassMatcher, i int, r int) bool known depth 1 = 0 <= i && i < len(c.classes) ? unicode.Is(c.classes[i], r) || inclasses(c, i + 1, r) : false

// ---- labels -----------------------------------------------------------------

def islab(e any) bool = is(e,*labeledExpr) && as(e,*labeledExpr).label != ""
// the expression writes into the labels of its surroundings
def touches1(e any) bool = is(e,*labeledExpr) || is(e,*seqExpr) || is(e,*actionExpr) || is(e,*recoveryExpr)
def labx(e any, d seq int, o int, dm arr string bool, mv arr string any) bool =
	islab(e) ==> dm[as(e,*labeledExpr).label] && pv(as(e,*labeledExpr).expr, d, o, mv[as(e,*labeledExpr).label])
rec labs(s *seqExpr, k int, d seq int, o int, dm arr string bool, mv arr string any) bool known depth 1 =
	k <= 0 ? true : labs(s, k - 1, d, o, dm, mv) && labx(s.exprs[k-1], d, sqend(s, k - 1, d, o), dm, mv)
def labels(e any, d seq int, o int, dm arr string bool, mv arr string any) bool =
	is(e,*seqExpr) ? labs(as(e,*seqExpr), len(as(e,*seqExpr).exprs), d, o, dm, mv) : is(e,*labeledExpr) ? labx(e, d, o, dm, mv) : true

// ---- failures that are recovered from ---------------------------------------

rec throws(e any, l string) bool known depth 1 =
	is(e,*actionExpr) ? throws(as(e,*actionExpr).expr, l)
	: is(e,*andExpr) ? throws(as(e,*andExpr).expr, l)
	: is(e,*notExpr) ? throws(as(e,*notExpr).expr, l)
	: is(e,*choiceExpr) ? chthrows(as(e,*choiceExpr), len(as(e,*choiceExpr).alternatives), l)
	: is(e,*labeledExpr) ? throws(as(e,*labeledExpr).expr, l)
	: is(e,*oneOrMoreExpr) ? throws(as(e,*oneOrMoreExpr).expr, l)
	: is(e,*zeroOrMoreExpr) ? throws(as(e,*zeroOrMoreExpr).expr, l)
	: is(e,*zeroOrOneExpr) ? throws(as(e,*zeroOrOneExpr).expr, l)
	: is(e,*recoveryExpr) ? throws(as(e,*recoveryExpr).expr, l) && !among(as(e,*recoveryExpr).failureLabel, len(as(e,*recoveryExpr).failureLabel), l)
	: is(e,*ruleRefExpr) ? rthrows(as(e,*ruleRefExpr).name, l)
	: is(e,*seqExpr) ? sqthrows(as(e,*seqExpr), len(as(e,*seqExpr).exprs), l)
	: is(e,*throwExpr) ? as(e,*throwExpr).label == l
	: false
rec sqthrows(s *seqExpr, k int, l string) bool known depth 1 = k <= 0 ? false : sqthrows(s, k - 1, l) || throws(s.exprs[k-1], l)
rec chthrows(c *choiceExpr, k int, l string) bool known depth 1 = k <= 0 ? false : chthrows(c, k - 1, l) || throws(c.alternatives[k-1], l)
rec among(ls seq string, k int, l string) bool known depth 1 = k <= 0 ? false : among(ls, k - 1, l) || ls[k-1] == l
def rthrows(n string, l string) bool = n == "EndingQuote" && l == "errUntermStr" || n == "EndingSlash" && l == "errUntermRegex"

// always succeeds with an error, without throwing
def failing1(e any) bool = wfx(e) && !touches1(e) && (forall d seq int, o int :: {pok(e, d, o)} {perr(e, d, o)} pok(e, d, o) && perr(e, d, o) && pend(e, d, o) == o)
	&& (forall l string :: {throws(e, l)} !throws(e, l))
fun failing(e any) bool
axiom failing_def : forall e any :: {failing(e)} failing(e) == failing1(e)

// ---- what holds of the objects of the table ---------------------------------

def seqpart(e any) bool = !is(e,*seqExpr) && !is(e,*actionExpr) && !is(e,*recoveryExpr)

invariant [C16 "rules are expressions"] rule(r) wfx(r.expr) && (forall l string :: {throws(r.expr, l)} throws(r.expr, l) ==> rthrows(r.name, l))
invariant [C16 "type of the value"] rule(r) forall d seq int, o int, v any :: {pv(r.expr, d, o, v)} pv(r.expr, d, o, v) ==> rt(r.name, v)
invariant [C16 "rules are told apart by name"] grammar(t) len(t.rules) > 0 && (forall i int :: {t.rules[i]} 0 <= i && i < len(t.rules) ==> t.rules[i] != nil && rule_of(t.rules[i].name) == t.rules[i])
invariant [C16 "alternatives are expressions"] choiceExpr(c) forall i int :: {c.alternatives[i]} 0 <= i && i < len(c.alternatives) ==> wfx(c.alternatives[i])
invariant [C16 "has an expression and an action"] actionExpr(a) wfx(a.expr) && a.run != nil
invariant [C16 "recovery reports an error"] recoveryExpr(r) wfx(r.expr) && failing1(r.recoverExpr)
invariant [C16 "parts are expressions"] seqExpr(s) forall i int :: {s.exprs[i]} 0 <= i && i < len(s.exprs) ==> wfx(s.exprs[i]) && seqpart(s.exprs[i])
invariant [C16 "labels differ"] seqExpr(s) forall i int, j int :: {s.exprs[i], s.exprs[j]} 0 <= i && i < j && j < len(s.exprs) && islab(s.exprs[i]) && islab(s.exprs[j]) ==> as(s.exprs[i],*labeledExpr).label != as(s.exprs[j],*labeledExpr).label
invariant [C16 "labels an expression"] labeledExpr(l) wfx(l.expr)
invariant [C16 "looks ahead for an expression"] andExpr(e) wfx(e.expr)
invariant [C16 "looks ahead for an expression"] notExpr(e) wfx(e.expr)
invariant [C16 "has an expression"] zeroOrOneExpr(e) wfx(e.expr)
invariant [C16 "repeats an expression"] zeroOrMoreExpr(e) wfx(e.expr)
invariant [C16 "repeats an expression"] oneOrMoreExpr(e) wfx(e.expr)
invariant [C16 "names a rule"] ruleRefExpr(e) e.name != "" && rule_of(e.name) != nil && rule_of(e.name).name == e.name
	&& 0 <= tabidx(rule_of(e.name)) && tabidx(rule_of(e.name)) < len(g.rules) && g.rules[tabidx(rule_of(e.name))] == rule_of(e.name)
invariant [C16 "has code"] stateCodeExpr(e) e.run != nil
invariant [C16 "plain text"] litMatcher(m) forall i int :: {m.val[i]} 0 <= i && i < len(m.val) ==> 0 <= m.val[i] && m.val[i] < 128
invariant [C16 "ranges are pairs"] charClassMatcher(m) len(m.ranges) % 2 == 0

// ---- the state of the interpreter -------------------------------------------

def D(p *parser) seq int = seq(p.data)
def top(p *parser) map[string]any = p.vstack[len(p.vstack)-1]
def noerrs(p *parser) bool = len(*p.errs) == 0

// positions of errors
def errpos1(d seq int, q position) bool = atbnd(d, q.offset) && (q == posat(d, q.offset) || q == mk(position, 1, 1, 0))
// the error is about a token: its length is that of text from its position to another
def tokfit(d seq int, o int, err error) bool = is(err,*tokenError) ==> refof(err) != 0 && (exists e int :: {d[o:e]} o <= e && atbnd(d, e) && as(err,*tokenError).length == utf8.RuneCount(d[o:e]))
def errok(d seq int, e error) bool = is(e,*parserError) && refof(e) != 0 && errpos1(d, as(e,*parserError).pos)
	&& tokfit(d, as(e,*parserError).pos.offset, as(e,*parserError).Inner)

// of the first error, which is the one that is reported
def errsok(p *parser) bool = (len(*p.errs) > 0 ==> errok(D(p), (*p.errs)[0])) && (forall i int :: {(*p.errs)[i]} 0 <= i && i < len(*p.errs) ==> (*p.errs)[i] != nil)

// the maps that are older than the parser are none of its own
fun isold(p *parser, m ref) bool
def own(p *parser) bool = (forall m ref :: {isold(p, m)} isold(p, m) ==> allocated(m))
	&& (forall i int :: {p.vstack[i]} 0 <= i && i < len(p.vstack) ==> !isold(p, id(p.vstack[i])))
	&& (forall i int :: {p.recoveryStack[i]} 0 <= i && i < len(p.recoveryStack) ==> !isold(p, id(p.recoveryStack[i])))
	&& !isold(p, id(p.Stats.ChoiceAltCnt)) && (forall k string :: {mval(p.Stats.ChoiceAltCnt)[k]} dom(p.Stats.ChoiceAltCnt)[k] ==> !isold(p, id(mval(p.Stats.ChoiceAltCnt)[k])))
def oldmaps(p *parser) bool =
	(forall m map[string]any :: {dom(m)} {mval(m)} isold(p, id(m)) || m == nil ==> dom(m) == old(dom(m)) && mval(m) == old(mval(m)))
	&& (forall m map[string]int :: {dom(m)} {mval(m)} isold(p, id(m)) || m == nil ==> dom(m) == old(dom(m)) && mval(m) == old(mval(m)))
	&& (forall m map[string]map[string]int :: {dom(m)} {mval(m)} isold(p, id(m)) || m == nil ==> dom(m) == old(dom(m)) && mval(m) == old(mval(m)))

def onstk(p *parser, l string) bool = exists i int :: {p.recoveryStack[i]} 0 <= i && i < len(p.recoveryStack) && dom(p.recoveryStack[i])[l]

def eng0(p *parser) bool = p != nil && p.errs != nil && p.rules != nil && p.depth >= 0 && !p.memoize && !p.allowInvalidUTF8 && p.Stats != nil && p.Stats.ChoiceAltCnt != nil
	&& p.maxExprCnt == 18446744073709551615 && own(p)
	&& (forall i int :: {g.rules[i]} 0 <= i && i < len(g.rules) ==> g.rules[i] != nil && dom(p.rules)[g.rules[i].name] && mval(p.rules)[g.rules[i].name] == g.rules[i])
	&& (forall i int :: {p.rstack[i]} 0 <= i && i < len(p.rstack) ==> p.rstack[i] != nil)
	&& (forall i int :: {p.vstack[i]} 0 <= i && i < len(p.vstack) ==> p.vstack[i] != nil && allocated(p.vstack[i]))
	&& (forall i int :: {p.recoveryStack[i]} 0 <= i && i < len(p.recoveryStack) ==> allocated(p.recoveryStack[i]))
	&& (forall i int, j int :: {p.vstack[i], p.vstack[j]} 0 <= i && i < j && j < len(p.vstack) ==> p.vstack[i] != p.vstack[j])
	&& (forall i int, j int :: {p.vstack[i], p.recoveryStack[j]} 0 <= i && i < len(p.vstack) && 0 <= j && j < len(p.recoveryStack) ==> p.vstack[i] != p.recoveryStack[j])
	&& (forall i int, l string :: {dom(p.recoveryStack[i])[l]} 0 <= i && i < len(p.recoveryStack) && dom(p.recoveryStack[i])[l] ==> failing(mval(p.recoveryStack[i])[l]))

// the position is that of a character, and so are those of the errors
def engpos(p *parser) bool = atbnd(D(p), p.pt.offset) && p.pt == savedat(D(p), p.pt.offset)
	&& errpos1(D(p), p.maxFailPos)
	&& errsok(p)
	&& (noerrs(p) ==> vld(D(p), p.pt.offset))

def eng(p *parser) bool = eng0(p) && engpos(p) && len(p.rstack) >= 1 && len(p.vstack) >= 1

def gpre(p *parser, e any) bool = eng(p) && wfx(e) && (forall l string :: {throws(e, l)} throws(e, l) ==> onstk(p, l))

// the stacks are as before, but for the labels of the innermost scope
def kept(p *parser) bool = p.depth == old(p.depth) && keptst(p)
def keptst(p *parser) bool = oldmaps(p) && seq(p.vstack) == old(seq(p.vstack)) && seq(p.rstack) == old(seq(p.rstack)) && seq(p.recoveryStack) == old(seq(p.recoveryStack))
	&& (forall i int :: {p.recoveryStack[i]} 0 <= i && i < len(p.recoveryStack) ==> dom(p.recoveryStack[i]) == old(dom(p.recoveryStack[i])) && mval(p.recoveryStack[i]) == old(mval(p.recoveryStack[i])))
	&& (forall i int :: {p.vstack[i]} 0 <= i && i < len(p.vstack) - 1 ==> dom(p.vstack[i]) == old(dom(p.vstack[i])) && mval(p.vstack[i]) == old(mval(p.vstack[i])))
def keptop(p *parser) bool = dom(top(p)) == old(dom(top(p))) && mval(top(p)) == old(mval(top(p)))

def errsame(p *parser, x bool) bool = (old(!noerrs(p)) || x ==> !noerrs(p)) && (!noerrs(p) ==> old(!noerrs(p)) || x || !allvalid(D(p)))

def gpost(p *parser, e any, v any, ok bool) bool = eng(p) && kept(p)
	&& ok == pok(e, D(p), old(p.pt.offset))
	&& p.pt.offset == (ok ? pend(e, D(p), old(p.pt.offset)) : old(p.pt.offset))
	&& p.pt.offset >= old(p.pt.offset)
	&& (!ok ==> v == nil)
	&& errsame(p, perr(e, D(p), old(p.pt.offset)))
	&& (ok && noerrs(p) ==> pv(e, D(p), old(p.pt.offset), v))

def gpanic(p *parser, x bool) bool = oldmaps(p) && p.depth == old(p.depth) && !noerrs(p) && (old(!noerrs(p)) || x || !allvalid(D(p))) && eng0(p) && engpos(p)

func parser.addErrAt(p, err, q, expected)() {
	tags C16 C17 C18
	requires eng0(p) && err != nil && (noerrs(p) ==> tokfit(D(p), q.offset, err) && errpos1(D(p), q))
	requires errsok(p)
	modifies *p.errs
	ensures len(*p.errs) == old(len(*p.errs)) + 1
	ensures errsok(p)
}

func parser.failAt(p, fail, q, want)() {
	tags C16 C17 C18
	requires p != nil && errpos1(D(p), q) && errpos1(D(p), p.maxFailPos)
	modifies p.maxFailPos, p.maxFailExpected
	ensures errpos1(D(p), p.maxFailPos)
}

// no character was read yet
def unread(p *parser) bool = p.pt == mk(savepoint, mk(position, 1, 0, 0), 0, 0) && noerrs(p) && errpos1(D(p), p.maxFailPos)

// the next character is at the end of the current one
func parser.read(p)() {
	tags C16 C17 C18
	uses bnd_next, bnd_first
	requires eng0(p) && (engpos(p) && p.pt.offset < len(p.data) || unread(p))
	modifies p.pt, *p.errs
	ensures [C16 C18 "next character"] p.pt.offset == old(p.pt.offset) + old(p.pt.w) && engpos(p)
	ensures [C16 "invalid text is rejected"] errsame(p, false)
}

func parser.restore(p, q)() {
	tags C16 C17 C18
	requires p != nil && p.depth >= 0
	requires p.pt == savedat(D(p), p.pt.offset) && q == savedat(D(p), q.offset)
	modifies p.pt, p.depth
	ensures p.pt == q && p.depth == old(p.depth)
}

func parser.print(p, prefix, s)(r) {
	tags C16 C17 C18
	requires p != nil
	ensures r == s
}

func parser.in(p, s)(r) {
	tags C16 C17 C18
	requires p != nil && p.depth >= 0
	modifies p.depth
	ensures p.depth == old(p.depth) + 1
}

func parser.out(p, s)(r) {
	tags C16 C17 C18
	requires p != nil && p.depth >= 1
	modifies p.depth
	ensures p.depth == old(p.depth) - 1
}

func parser.sliceFrom(p, q)(r) {
	tags C16 C17 C18
	requires p != nil && 0 <= q.offset && q.offset <= p.pt.offset && p.pt.offset <= len(p.data)
	ensures seq(r) == D(p)[q.offset:p.pt.offset]
}

// ---- stacks: slots are recycled, a recycled map counts as new ---------------

owned parser vstack
owned parser recoveryStack

func parser.pushV(p)() {
	tags C16 C17 C18
	requires p != nil
	modifies p.vstack
	ensures seq(p.vstack) == old(seq(p.vstack)) ++ unit(top(p)) && top(p) != nil && fresh(top(p))
	ensures forall k string :: {dom(top(p))[k]} !dom(top(p))[k]
}

func parser.popV(p)() {
	tags C16 C17 C18
	requires p != nil && len(p.vstack) > 0
	modifies p.vstack
	ensures seq(p.vstack) == old(seq(p.vstack))[:old(len(p.vstack))-1]
}

func parser.pushRecovery(p, ls, e)() {
	tags C16 C17 C18
	requires p != nil
	modifies p.recoveryStack
	ensures len(p.recoveryStack) == old(len(p.recoveryStack)) + 1 && seq(p.recoveryStack) == old(seq(p.recoveryStack)) ++ unit(p.recoveryStack[old(len(p.recoveryStack))])
	ensures forall i int :: {old(p.recoveryStack[i])} 0 <= i && i < old(len(p.recoveryStack)) ==> p.recoveryStack[i] == old(p.recoveryStack[i])
	ensures p.recoveryStack[old(len(p.recoveryStack))] != nil && fresh(p.recoveryStack[old(len(p.recoveryStack))])
	ensures forall l string :: {dom(p.recoveryStack[old(len(p.recoveryStack))])[l]} dom(p.recoveryStack[old(len(p.recoveryStack))])[l] == among(ls, len(ls), l)
	ensures forall l string :: {mval(p.recoveryStack[old(len(p.recoveryStack))])[l]} among(ls, len(ls), l) ==> mval(p.recoveryStack[old(len(p.recoveryStack))])[l] == e
	inv (i int, m map[string]any) i <= len(ls) && m != nil && fresh(m) && (forall l string :: {dom(m)[l]} dom(m)[l] == among(ls, i, l)) && (forall l string :: {mval(m)[l]} among(ls, i, l) ==> mval(m)[l] == e)
}

func parser.popRecovery(p)() {
	tags C16 C17 C18
	requires p != nil && len(p.recoveryStack) > 0
	modifies p.recoveryStack
	ensures seq(p.recoveryStack) == old(seq(p.recoveryStack))[:old(len(p.recoveryStack))-1]
}

// no expression of the grammar uses the store
func parser.cloneState(p)(s) {
	tags C16 C17 C18
	requires p != nil && p.depth >= 0
	modifies p.depth, maps(storeDict)
	ensures p.depth == old(p.depth)
}

func parser.restoreState(p, s)() {
	tags C16 C17 C18
	requires p != nil && p.depth >= 0
	modifies p.cur, p.depth, maps(storeDict)
	ensures p.depth == old(p.depth)
	ensures p.cur.pos == old(p.cur.pos) && p.cur.text == old(p.cur.text) && p.cur.globalStore == old(p.cur.globalStore)
}

// the only pool is that of the stores
extern "(*sync.Pool).Get"(p)(v) {
	ensures is(v, storeDict) && refof(v) != 0
}

// ---- expressions ------------------------------------------------------------

def glab(p *parser, e any, v any, ok bool) bool =
	(!touches1(e) ==> keptop(p))
	&& (is(e,*labeledExpr) ==> (ok && as(e,*labeledExpr).label != ""
		? dom(top(p)) == upd(old(dom(top(p))), as(e,*labeledExpr).label, true) && mval(top(p)) == upd(old(mval(top(p))), as(e,*labeledExpr).label, v)
		: keptop(p)))
	&& (ok && noerrs(p) ==> labels(e, D(p), old(p.pt.offset), dom(top(p)), mval(top(p))))

lemma throws_part [C16] induct (k) : forall s *seqExpr, k int, i int, l string :: {throws(s.exprs[i], l), sqthrows(s, k, l)}
	0 <= i && i < k && throws(s.exprs[i], l) ==> sqthrows(s, k, l)
lemma throws_alt [C16] induct (k) : forall c *choiceExpr, k int, i int, l string :: {throws(c.alternatives[i], l), chthrows(c, k, l)}
	0 <= i && i < k && throws(c.alternatives[i], l) ==> chthrows(c, k, l)
lemma throws_actionExpr [C16] : forall e *actionExpr, l string :: {throws(e.expr, l)} throws(e.expr, l) ==> throws(boxed(e,*actionExpr), l)
lemma throws_andExpr [C16] : forall e *andExpr, l string :: {throws(e.expr, l)} throws(e.expr, l) ==> throws(boxed(e,*andExpr), l)
lemma throws_notExpr [C16] : forall e *notExpr, l string :: {throws(e.expr, l)} throws(e.expr, l) ==> throws(boxed(e,*notExpr), l)
lemma throws_labeledExpr [C16] : forall e *labeledExpr, l string :: {throws(e.expr, l)} throws(e.expr, l) ==> throws(boxed(e,*labeledExpr), l)
lemma throws_oneOrMoreExpr [C16] : forall e *oneOrMoreExpr, l string :: {throws(e.expr, l)} throws(e.expr, l) ==> throws(boxed(e,*oneOrMoreExpr), l)
lemma throws_zeroOrMoreExpr [C16] : forall e *zeroOrMoreExpr, l string :: {throws(e.expr, l)} throws(e.expr, l) ==> throws(boxed(e,*zeroOrMoreExpr), l)
lemma throws_zeroOrOneExpr [C16] : forall e *zeroOrOneExpr, l string :: {throws(e.expr, l)} throws(e.expr, l) ==> throws(boxed(e,*zeroOrOneExpr), l)
lemma throws_recoveryExpr [C16] : forall e *recoveryExpr, l string :: {throws(e.expr, l)} throws(e.expr, l) && !among(e.failureLabel, len(e.failureLabel), l) ==> throws(boxed(e,*recoveryExpr), l)
lemma throws_seqExpr [C16] uses throws_part : forall e *seqExpr, i int, l string :: {throws(e.exprs[i], l)} 0 <= i && i < len(e.exprs) && throws(e.exprs[i], l) ==> throws(boxed(e,*seqExpr), l)
lemma throws_choiceExpr [C16] uses throws_alt : forall e *choiceExpr, i int, l string :: {throws(e.alternatives[i], l)} 0 <= i && i < len(e.alternatives) && throws(e.alternatives[i], l) ==> throws(boxed(e,*choiceExpr), l)
lemma throws_ref [C16] : forall e *ruleRefExpr, r *rule, l string :: {throws(r.expr, l), e.name} r != nil && r.name == e.name && throws(r.expr, l) ==> throws(boxed(e,*ruleRefExpr), l)
lemma sq_stop [C16] induct (n) : forall s *seqExpr, k int, n int, d seq int, o int :: {sqok(s, k, d, o), sqok(s, n, d, o)} {sqok(s, k, d, o), sqerr(s, n, d, o)}
	0 <= k && k < n && !pok(s.exprs[k], d, sqend(s, k, d, o)) ==> !sqok(s, n, d, o) && sqerr(s, n, d, o) == (sqerr(s, k, d, o) || sqok(s, k, d, o) && perr(s.exprs[k], d, sqend(s, k, d, o)))
lemma sq_err [C16] induct (n) : forall s *seqExpr, k int, n int, d seq int, o int :: {sqerr(s, k, d, o), sqerr(s, n, d, o)}
	0 <= k && k <= n && sqerr(s, k, d, o) ==> sqerr(s, n, d, o)
lemma sq_err1 [C16] induct (n) : forall s *seqExpr, k int, n int, d seq int, o int :: {sqok(s, k, d, o), sqerr(s, n, d, o)}
	0 <= k && k < n && sqok(s, k, d, o) && perr(s.exprs[k], d, sqend(s, k, d, o)) ==> sqerr(s, n, d, o)
lemma sqv_app [C16] induct (k) : forall s *seqExpr, k int, d seq int, o int, vs seq any, v any :: {sqv(s, k, d, o, vs ++ unit(v))}
	k <= len(vs) ==> sqv(s, k, d, o, vs ++ unit(v)) == sqv(s, k, d, o, vs)
lemma starv_app [C16] induct (n) : forall x any, d seq int, o int, vs seq any, v any, n int :: {starv(x, d, o, vs ++ unit(v), n)}
	n <= len(vs) ==> starv(x, d, o, vs ++ unit(v), n) == starv(x, d, o, vs, n)
lemma labs_all [C16] induct (k) : forall s *seqExpr, k int, d seq int, o int, dm arr string bool, mv arr string any :: {labs(s, k, d, o, dm, mv)}
	(forall j int :: {s.exprs[j]} 0 <= j && j < k ==> labx(s.exprs[j], d, sqend(s, j, d, o), dm, mv)) ==> labs(s, k, d, o, dm, mv)
lemma chv_at [C16] induct (i - k) : forall c *choiceExpr, k int, i int, d seq int, o int, v any :: {chv(c, k, d, o, v), pv(c.alternatives[i], d, o, v)}
	0 <= k && k <= i && i < len(c.alternatives) && pok(c.alternatives[i], d, o) && (forall j int :: {c.alternatives[j]} k <= j && j < i ==> !pok(c.alternatives[j], d, o)) ==> chv(c, k, d, o, v) == pv(c.alternatives[i], d, o, v)
lemma labs_upd [C16] induct (k) : forall s *seqExpr, k int, d seq int, o int, dm arr string bool, mv arr string any, n string, v any :: {labs(s, k, d, o, upd(dm, n, true), upd(mv, n, v))}
	labs(s, k, d, o, dm, mv) && (forall j int :: {s.exprs[j]} 0 <= j && j < k && islab(s.exprs[j]) ==> as(s.exprs[j],*labeledExpr).label != n) ==> labs(s, k, d, o, upd(dm, n, true), upd(mv, n, v))

func parser.parseExpr(p, e)(v, ok) {
	tags C16 C17 C18
	split
	wrap64
	requires gpre(p, e)
	modifies p.pt, p.cur, p.vstack, p.rstack, p.recoveryStack, p.depth, p.maxFailPos, p.maxFailExpected, p.maxFailInvertExpected, *p.errs, p.Stats.ExprCnt, maps(string, any), maps(string, int), maps(string, map[string]int), maps(storeDict)
	ensures [C16 C17 "result of an expression"] gpost(p, e, v, ok)
	ensures [C18 "position"] engpos(p)
	ensures [C16 "labels"] glab(p, e, v, ok)
	onpanic gpanic(p, perr(e, D(p), old(p.pt.offset)))
}

func parser.parseAnyMatcher(p, e)(v, ok) {
	tags C16 C17 C18
	split
	requires gpre(p, e)
	modifies p.pt, p.depth, p.maxFailPos, p.maxFailExpected, *p.errs
	ensures [C16 C17 "any character"] gpost(p, e, v, ok)
	ensures [C18 "position"] engpos(p)
}

func parser.parseCharClassMatcher(p, e)(v, ok) {
	tags C16 C17 C18
	split
	requires gpre(p, e)
	modifies p.pt, p.depth, p.maxFailPos, p.maxFailExpected, *p.errs
	ensures [C16 C17 "character of a class"] gpost(p, e, v, ok)
	ensures [C18 "position"] engpos(p)
	inv p.pt == old(p.pt) && *p.errs == old(*p.errs) && p.maxFailPos == old(p.maxFailPos)
	inv (i int, r rune) inchars(e, 0, r) == inchars(e, i, r)
	inv (i int, r rune) inranges(e, 0, r) == inranges(e, i, r)
	inv (i int) i % 2 == 0
	inv (i int, r rune) inclasses(e, 0, r) == inclasses(e, i, r)
	inv (i int, r rune, b bool) inchars(e, 0, r) == (b || inchars(e, i, r))
	inv (i int, r rune, b bool) inranges(e, 0, r) == (b || inranges(e, i, r))
	inv (i int, r rune, b bool) inclasses(e, 0, r) == (b || inclasses(e, i, r))
}

func parser.parseLitMatcher(p, e)(v, ok) {
	tags C16 C17 C18
	split
	requires gpre(p, e)
	modifies p.pt, p.depth, p.maxFailPos, p.maxFailExpected, *p.errs
	ensures [C16 C17 "literal text"] gpost(p, e, v, ok)
	ensures [C18 "position"] engpos(p)
	inv eng(p) && keptst(p) && p.depth == entry(p.depth) && p.pt.offset >= old(p.pt.offset)
	inv errsame(p, false)
	inv (i int) 0 <= i && i <= len(e.val)
	inv (i int) litok(e.val, 0, e.ignoreCase, D(p), old(p.pt.offset)) == litok(e.val, i, e.ignoreCase, D(p), p.pt.offset)
	inv (i int) litend(e.val, 0, D(p), old(p.pt.offset)) == litend(e.val, i, D(p), p.pt.offset)
}

func parser.incChoiceAltCnt(p, e, i)() {
	tags C16 C17 C18
	split
	requires p != nil && p.Stats != nil && p.Stats.ChoiceAltCnt != nil && len(p.rstack) > 0 && p.rstack[len(p.rstack)-1] != nil && e != nil && own(p)
	modifies maps(string, int), maps(string, map[string]int)
	ensures own(p) && oldmaps(p)
}

func parser.parseNotExpr(p, e)(v, ok) {
	tags C16 C17 C18
	split
	uses throws_notExpr
	requires gpre(p, e)
	modifies p.pt, p.cur, p.vstack, p.rstack, p.recoveryStack, p.depth, p.maxFailPos, p.maxFailExpected, p.maxFailInvertExpected, *p.errs, p.Stats.ExprCnt, maps(string, any), maps(string, int), maps(string, map[string]int), maps(storeDict)
	ensures [C16 C17 "looking ahead for nothing"] gpost(p, e, v, ok)
	ensures [C18 "position"] engpos(p)
	ensures keptop(p)
	onpanic gpanic(p, perr(e, D(p), old(p.pt.offset)))
}

func parser.parseAndExpr(p, e)(v, ok) {
	tags C16 C17 C18
	split
	uses throws_andExpr
	requires gpre(p, e)
	modifies p.pt, p.cur, p.vstack, p.rstack, p.recoveryStack, p.depth, p.maxFailPos, p.maxFailExpected, p.maxFailInvertExpected, *p.errs, p.Stats.ExprCnt, maps(string, any), maps(string, int), maps(string, map[string]int), maps(storeDict)
	ensures [C16 C17 "looking ahead"] gpost(p, e, v, ok)
	ensures [C18 "position"] engpos(p)
	ensures keptop(p)
	onpanic gpanic(p, perr(e, D(p), old(p.pt.offset)))
}

func parser.parseZeroOrOneExpr(p, e)(v, ok) {
	tags C16 C17 C18
	split
	uses throws_zeroOrOneExpr
	requires gpre(p, e)
	modifies p.pt, p.cur, p.vstack, p.rstack, p.recoveryStack, p.depth, p.maxFailPos, p.maxFailExpected, p.maxFailInvertExpected, *p.errs, p.Stats.ExprCnt, maps(string, any), maps(string, int), maps(string, map[string]int), maps(storeDict)
	ensures [C16 C17 "option"] gpost(p, e, v, ok)
	ensures [C18 "position"] engpos(p)
	ensures keptop(p)
	onpanic gpanic(p, perr(e, D(p), old(p.pt.offset)))
}

func parser.parseChoiceExpr(p, e)(v, ok) {
	tags C16 C17 C18
	split
	uses throws_choiceExpr, chv_at
	requires gpre(p, e)
	modifies p.pt, p.cur, p.vstack, p.rstack, p.recoveryStack, p.depth, p.maxFailPos, p.maxFailExpected, p.maxFailInvertExpected, *p.errs, p.Stats.ExprCnt, maps(string, any), maps(string, int), maps(string, map[string]int), maps(storeDict)
	ensures [C16 C17 "first alternative that matches"] gpost(p, e, v, ok)
	ensures [C18 "position"] engpos(p)
	ensures keptop(p)
	onpanic gpanic(p, perr(e, D(p), old(p.pt.offset)))
	inv eng(p) && keptst(p) && p.depth == entry(p.depth) && keptop(p) && p.pt.offset == old(p.pt.offset)
	inv (i int) chok(e, 0, D(p), p.pt.offset) == chok(e, i, D(p), p.pt.offset) && chend(e, 0, D(p), p.pt.offset) == chend(e, i, D(p), p.pt.offset)
	inv (i int) old(!noerrs(p)) || cherr(e, 0, D(p), p.pt.offset) ==> !noerrs(p) || cherr(e, i, D(p), p.pt.offset)
	inv (i int) !noerrs(p) || cherr(e, i, D(p), p.pt.offset) ==> old(!noerrs(p)) || cherr(e, 0, D(p), p.pt.offset) || !allvalid(D(p))
	inv (i int) forall j int :: {e.alternatives[j]} 0 <= j && j < i ==> !pok(e.alternatives[j], D(p), p.pt.offset)
}

func parser.parseZeroOrMoreExpr(p, e)(v, ok) {
	tags C16 C17 C18
	split
	uses throws_zeroOrMoreExpr, starv_app
	requires gpre(p, e)
	modifies p.pt, p.cur, p.vstack, p.rstack, p.recoveryStack, p.depth, p.maxFailPos, p.maxFailExpected, p.maxFailInvertExpected, *p.errs, p.Stats.ExprCnt, maps(string, any), maps(string, int), maps(string, map[string]int), maps(storeDict)
	ensures [C16 C17 "repetition"] gpost(p, e, v, ok)
	ensures [C18 "position"] engpos(p)
	ensures keptop(p)
	onpanic gpanic(p, perr(e, D(p), old(p.pt.offset)))
	inv eng(p) && keptst(p) && p.depth == entry(p.depth) && keptop(p) && p.pt.offset >= old(p.pt.offset)
	inv starend(e.expr, D(p), old(p.pt.offset)) == starend(e.expr, D(p), p.pt.offset)
	inv old(!noerrs(p)) || starerr(e.expr, D(p), old(p.pt.offset)) ==> !noerrs(p) || starerr(e.expr, D(p), p.pt.offset)
	inv !noerrs(p) || starerr(e.expr, D(p), p.pt.offset) ==> old(!noerrs(p)) || starerr(e.expr, D(p), old(p.pt.offset)) || !allvalid(D(p))
	inv (vs []any) starn(e.expr, D(p), old(p.pt.offset)) == len(vs) + starn(e.expr, D(p), p.pt.offset)
	inv (vs []any) p.pt.offset == starat(e.expr, D(p), old(p.pt.offset), len(vs))
	inv (vs []any) noerrs(p) ==> starv(e.expr, D(p), old(p.pt.offset), seq(vs), len(vs))
	// the same for a loop that has the result of the next try at its head
	inv (b bool) starend(e.expr, D(p), old(p.pt.offset)) == (b ? starend(e.expr, D(p), p.pt.offset) : p.pt.offset)
	inv (b bool) old(!noerrs(p)) || starerr(e.expr, D(p), old(p.pt.offset)) ==> !noerrs(p) || b && starerr(e.expr, D(p), p.pt.offset)
	inv (b bool) !noerrs(p) || b && starerr(e.expr, D(p), p.pt.offset) ==> old(!noerrs(p)) || starerr(e.expr, D(p), old(p.pt.offset)) || !allvalid(D(p))
	inv (vs []any, b bool) starn(e.expr, D(p), old(p.pt.offset)) == len(vs) + (b ? 1 + starn(e.expr, D(p), p.pt.offset) : 0)
	inv (vs []any, b bool) b ==> p.pt.offset == starat(e.expr, D(p), old(p.pt.offset), len(vs) + 1)
	inv (vs []any, b bool) !b ==> p.pt.offset == starat(e.expr, D(p), old(p.pt.offset), len(vs))
	inv (vs []any, v any, b bool) b ==> pok(e.expr, D(p), starat(e.expr, D(p), old(p.pt.offset), len(vs)))
	inv (vs []any, v any, b bool) noerrs(p) && b ==> pv(e.expr, D(p), starat(e.expr, D(p), old(p.pt.offset), len(vs)), v)
}

func parser.parseOneOrMoreExpr(p, e)(v, ok) {
	tags C16 C17 C18
	split
	uses throws_oneOrMoreExpr, starv_app
	requires gpre(p, e)
	modifies p.pt, p.cur, p.vstack, p.rstack, p.recoveryStack, p.depth, p.maxFailPos, p.maxFailExpected, p.maxFailInvertExpected, *p.errs, p.Stats.ExprCnt, maps(string, any), maps(string, int), maps(string, map[string]int), maps(storeDict)
	ensures [C16 C17 "repetition"] gpost(p, e, v, ok)
	ensures [C18 "position"] engpos(p)
	ensures keptop(p)
	onpanic gpanic(p, perr(e, D(p), old(p.pt.offset)))
	inv eng(p) && keptst(p) && p.depth == entry(p.depth) && keptop(p) && p.pt.offset >= old(p.pt.offset)
	inv starend(e.expr, D(p), old(p.pt.offset)) == starend(e.expr, D(p), p.pt.offset)
	inv old(!noerrs(p)) || starerr(e.expr, D(p), old(p.pt.offset)) ==> !noerrs(p) || starerr(e.expr, D(p), p.pt.offset)
	inv !noerrs(p) || starerr(e.expr, D(p), p.pt.offset) ==> old(!noerrs(p)) || starerr(e.expr, D(p), old(p.pt.offset)) || !allvalid(D(p))
	inv (vs []any) starn(e.expr, D(p), old(p.pt.offset)) == len(vs) + starn(e.expr, D(p), p.pt.offset)
	inv (vs []any) p.pt.offset == starat(e.expr, D(p), old(p.pt.offset), len(vs))
	inv (vs []any) noerrs(p) ==> starv(e.expr, D(p), old(p.pt.offset), seq(vs), len(vs))
	inv (vs []any) len(vs) > 0 ==> pok(e.expr, D(p), old(p.pt.offset))
	inv (vs []any) len(vs) == 0 ==> p.pt.offset == old(p.pt.offset)
}

func parser.parseLabeledExpr(p, e)(v, ok) {
	tags C16 C17 C18
	split
	uses throws_labeledExpr
	requires gpre(p, e)
	modifies p.pt, p.cur, p.vstack, p.rstack, p.recoveryStack, p.depth, p.maxFailPos, p.maxFailExpected, p.maxFailInvertExpected, *p.errs, p.Stats.ExprCnt, maps(string, any), maps(string, int), maps(string, map[string]int), maps(storeDict)
	ensures [C16 C17 "labeled expression"] gpost(p, e, v, ok)
	ensures [C18 "position"] engpos(p)
	ensures [C16 "labels"] glab(p, e, v, ok)
	onpanic gpanic(p, perr(e, D(p), old(p.pt.offset)))
}

func parser.parseRecoveryExpr(p, e)(v, ok) {
	tags C16 C17 C18
	split
	uses throws_recoveryExpr
	requires gpre(p, e)
	modifies p.pt, p.cur, p.vstack, p.rstack, p.recoveryStack, p.depth, p.maxFailPos, p.maxFailExpected, p.maxFailInvertExpected, *p.errs, p.Stats.ExprCnt, maps(string, any), maps(string, int), maps(string, map[string]int), maps(storeDict)
	ensures [C16 C17 "expression with recovery"] gpost(p, e, v, ok)
	ensures [C18 "position"] engpos(p)
	ensures [C16 "labels"] glab(p, e, v, ok)
	onpanic gpanic(p, perr(e, D(p), old(p.pt.offset)))
}

func parser.parseRuleRefExpr(p, e)(v, ok) {
	tags C16 C17 C18
	split
	uses throws_ref
	requires gpre(p, e)
	modifies p.pt, p.cur, p.vstack, p.rstack, p.recoveryStack, p.depth, p.maxFailPos, p.maxFailExpected, p.maxFailInvertExpected, *p.errs, p.Stats.ExprCnt, maps(string, any), maps(string, int), maps(string, map[string]int), maps(storeDict)
	ensures [C16 C17 "rule"] gpost(p, e, v, ok)
	ensures [C18 "position"] engpos(p)
	ensures keptop(p)
	onpanic gpanic(p, perr(e, D(p), old(p.pt.offset)))
}

func parser.parseThrowExpr(p, e)(v, ok) {
	tags C16 C17 C18
	split
	requires gpre(p, e) && throws(e, e.label)
	modifies p.pt, p.cur, p.vstack, p.rstack, p.recoveryStack, p.depth, p.maxFailPos, p.maxFailExpected, p.maxFailInvertExpected, *p.errs, p.Stats.ExprCnt, maps(string, any), maps(string, int), maps(string, map[string]int), maps(storeDict)
	ensures [C16 C17 "failure that is recovered from"] gpost(p, e, v, ok)
	ensures [C18 "position"] engpos(p)
	ensures keptop(p)
	onpanic gpanic(p, perr(e, D(p), old(p.pt.offset)))
	inv eng(p) && keptst(p) && p.depth == entry(p.depth) && keptop(p) && p.pt.offset == old(p.pt.offset) && errsame(p, false)
	inv (i int) exists j int :: {old(p.recoveryStack[j])} 0 <= j && j <= i && old(dom(p.recoveryStack[j])[e.label])
	inv (i int) exists j int :: {old(p.recoveryStack[j])} 0 <= j && j < i && old(dom(p.recoveryStack[j])[e.label])
}

func parser.parseStateCodeExpr(p, e)(v, ok) {
	tags C16 C17 C18
	split
	requires gpre(p, e)
	modifies p.pt, p.cur, p.vstack, p.rstack, p.recoveryStack, p.depth, p.maxFailPos, p.maxFailExpected, p.maxFailInvertExpected, *p.errs, p.Stats.ExprCnt, maps(string, any), maps(string, int), maps(string, map[string]int), maps(storeDict)
	ensures [C16 C17 "code"] gpost(p, e, v, ok)
	ensures [C18 "position"] engpos(p)
	ensures keptop(p)
	onpanic gpanic(p, perr(e, D(p), old(p.pt.offset)))
}

func parser.parseSeqExpr(p, e)(v, ok) {
	tags C16 C17 C18
	split
	uses throws_seqExpr, sqv_app, labs_upd, sq_stop, sq_err, sq_err1
	requires gpre(p, e)
	modifies p.pt, p.cur, p.vstack, p.rstack, p.recoveryStack, p.depth, p.maxFailPos, p.maxFailExpected, p.maxFailInvertExpected, *p.errs, p.Stats.ExprCnt, maps(string, any), maps(string, int), maps(string, map[string]int), maps(storeDict)
	ensures [C16 C17 "all parts in order"] gpost(p, e, v, ok)
	ensures [C18 "position"] engpos(p)
	ensures [C16 "labels"] glab(p, e, v, ok)
	onpanic gpanic(p, perr(e, D(p), old(p.pt.offset)))
	inv eng(p) && keptst(p) && p.depth == entry(p.depth) && p.pt.offset >= old(p.pt.offset)
	inv (i int) sqok(e, i, D(p), old(p.pt.offset)) && p.pt.offset == sqend(e, i, D(p), old(p.pt.offset))
	inv (i int) old(!noerrs(p)) || sqerr(e, i, D(p), old(p.pt.offset)) ==> !noerrs(p)
	inv (i int) !noerrs(p) ==> old(!noerrs(p)) || sqerr(e, i, D(p), old(p.pt.offset)) || !allvalid(D(p))
	inv (i int) i <= len(e.exprs)
	inv (i int, vs []any) len(vs) == i && (noerrs(p) ==> sqv(e, i, D(p), old(p.pt.offset), seq(vs)))
	inv (i int) noerrs(p) ==> labs(e, i, D(p), old(p.pt.offset), dom(top(p)), mval(top(p)))
}

func parser.parseActionExpr(p, e)(v, ok) {
	tags C16 C17 C18
	split
	uses throws_actionExpr
	requires gpre(p, e)
	modifies p.pt, p.cur, p.vstack, p.rstack, p.recoveryStack, p.depth, p.maxFailPos, p.maxFailExpected, p.maxFailInvertExpected, *p.errs, p.Stats.ExprCnt, maps(string, any), maps(string, int), maps(string, map[string]int), maps(storeDict)
	ensures [C16 C17 "expression with an action"] gpost(p, e, v, ok)
	ensures [C18 "position"] engpos(p)
	ensures [C16 "labels"] glab(p, e, v, ok)
	onpanic gpanic(p, perr(e, D(p), old(p.pt.offset)))
}


functype stateCodeExpr.run(f, p)(err) {
	tags C16
	split
	requires p != nil && len(p.vstack) > 0
	ensures [C16 "code reports an error"] err != nil && !is(err,*tokenError)
}

func parser.parseRule(p, r)(v, ok) {
	tags C16 C17 C18
	split
	requires r != nil && eng0(p) && engpos(p) && (forall l string :: {throws(r.expr, l)} throws(r.expr, l) ==> onstk(p, l))
	modifies p.pt, p.cur, p.vstack, p.rstack, p.recoveryStack, p.depth, p.maxFailPos, p.maxFailExpected, p.maxFailInvertExpected, *p.errs, p.Stats.ExprCnt, maps(string, any), maps(string, int), maps(string, map[string]int), maps(storeDict)
	ensures [C18 "position"] engpos(p)
	ensures eng0(p) && engpos(p) && kept(p) && (len(p.vstack) > 0 ==> keptop(p))
	ensures [C16 C17 "result of a rule"] ok == pok(r.expr, D(p), old(p.pt.offset)) && p.pt.offset == (ok ? pend(r.expr, D(p), old(p.pt.offset)) : old(p.pt.offset)) && p.pt.offset >= old(p.pt.offset)
	ensures [C16 C17 "errors of a rule"] errsame(p, perr(r.expr, D(p), old(p.pt.offset)))
	ensures [C16 C17 "value of a rule"] (!ok ==> v == nil) && (ok && noerrs(p) ==> pv(r.expr, D(p), old(p.pt.offset), v))
	onpanic gpanic(p, perr(r.expr, D(p), old(p.pt.offset)))
}

// ---- the whole text ---------------------------------------------------------

func errList.dedupe(e)() {
	tags C18
	requires e != nil && (forall i int :: {(*e)[i]} 0 <= i && i < len(*e) ==> (*e)[i] != nil)
	modifies *e
	ensures [C18 "the first error stays the first"] old(len(*e)) > 0 ==> len(*e) > 0 && (*e)[0] == old((*e)[0])
	inv (c []error, i int) i >= 0 ? len(c) > 0 && c[0] == (*e)[0] : len(c) == 0
	inv (c []error, m map[string]bool) len(c) == 0 ==> (forall k string :: {dom(m)[k]} !dom(m)[k])
}

func errList.err(e)(r) {
	tags C18
	requires forall i int :: {e[i]} 0 <= i && i < len(e) ==> e[i] != nil
	ensures (r == nil) == (len(e) == 0)
	ensures [C18 "the first error stays the first"] len(e) > 0 ==> is(r,errList) && len(as(r,errList)) > 0 && as(r,errList)[0] == e[0]
}

def indexed(m map[string]*rule, t *grammar, n int) bool = forall i int :: {t.rules[i]} 0 <= i && i < n ==> dom(m)[t.rules[i].name] && mval(m)[t.rules[i].name] == t.rules[i]

func parser.buildRulesTable(p, t)() {
	tags C16
	requires p != nil && t != nil
	modifies p.rules
	ensures [C16 "rules by name"] p.rules != nil && indexed(p.rules, t, len(t.rules))
	inv p.rules != nil
	inv (i int) i <= len(t.rules)
	inv (i int) indexed(p.rules, t, i)
}

// options: only the one for debugging is ever used; the others must not be
// called, so that nothing is said of their functions
fun dbgonly(o int) bool
functype Option(o, p)(r) {
	tags C16
	requires p != nil && dbgonly(id(o))
	modifies p.debug
}
func MaxExpressions(n)(o) { vacuous defines !dbgonly(id(o)) ensures o != nil }
func Entrypoint(n)(o) { vacuous defines !dbgonly(id(o)) ensures o != nil }
func Statistics(s, n)(o) { vacuous defines !dbgonly(id(o)) ensures o != nil }
func Memoize(b)(o) { vacuous defines !dbgonly(id(o)) ensures o != nil }
func AllowInvalidUTF8(b)(o) { vacuous defines !dbgonly(id(o)) ensures o != nil }
func Recover(b)(o) { vacuous defines !dbgonly(id(o)) ensures o != nil }
func GlobalStore(k, v)(o) { vacuous defines !dbgonly(id(o)) ensures o != nil }
func InitState(k, v)(o) { vacuous defines !dbgonly(id(o)) ensures o != nil }
func Debug(b)(o) {
	tags C16
	defines dbgonly(id(o))
	ensures o != nil
}

def plain(opts seq Option) bool = forall i int :: {opts[i]} 0 <= i && i < len(opts) ==> opts[i] != nil && dbgonly(id(opts[i]))

func parser.setOptions(p, opts)() {
	tags C16
	requires p != nil && plain(opts)
	modifies p.debug
}

// a parser that has not started
def ready(p *parser, d seq int) bool = p != nil && p.errs != nil && len(*p.errs) == 0 && p.depth == 0 && !p.memoize && !p.allowInvalidUTF8 && p.recover
	&& p.Stats != nil && p.Stats.ChoiceAltCnt != nil && p.maxExprCnt == 18446744073709551615 && D(p) == d
	&& p.pt == mk(savepoint, mk(position, 1, 0, 0), 0, 0) && p.maxFailPos == mk(position, 1, 1, 0) && p.entrypoint == "Start" && g.rules[0].name == "Start"
	&& len(p.rstack) == 0 && len(p.vstack) == 0 && len(p.recoveryStack) == 0 && own(p)

func newParser(filename, b, opts)(p) {
	tags C16
	uses g
	requires plain(opts)
	defines forall m ref :: {isold(p, m)} isold(p, m) == old(allocated(m))
	ensures ready(p, seq(b)) && fresh(p) && fresh(p.errs) && fresh(p.Stats)
}

// the text is a sentence of the language
def sentence(d seq int) bool = rk("Start", d, 0) && !rx("Start", d, 0)
def parsedas(d seq int, v any, err error) bool = (err == nil ==> sentence(d) && rv("Start", d, 0, v)) && (allvalid(d) && sentence(d) ==> err == nil)

func parser.parse(p, t)(v, err) {
	tags C16 C17 C18
	uses bnd_first
	requires ready(p, D(p)) && t == g && t != nil
	modifies p.rules, p.pt, p.cur, p.vstack, p.rstack, p.recoveryStack, p.depth, p.maxFailPos, p.maxFailExpected, p.maxFailInvertExpected, *p.errs, p.Stats.ExprCnt, maps(string, any), maps(string, int), maps(string, map[string]int), maps(storeDict)
	ensures [C16 "sentences and their values"] parsedas(D(p), v, err)
	ensures oldmaps(p)
	ensures [C18 "position of the error"] err != nil ==> okerr(err) && is(err,errList) && isperr(err) && errok(D(p), as(err,errList)[0])
}

func Parse(filename, b, opts)(v, err) {
	tags C16 C18
	uses g
	requires plain(opts)
	modifies maps(storeDict)
	ensures [C16 "sentences and their values"] parsedas(seq(b), v, err)
	ensures [C18 "position of the error"] err != nil ==> okerr(err) && is(err,errList) && isperr(err) && errok(seq(b), as(err,errList)[0])
}
