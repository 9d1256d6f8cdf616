// Parsing a query: operand validation (C13), visitors (C14), messages (C15).
package "github.com/flowchartsman/aql/internal/grammar"

default nopanic C10

immutable ParseError

// what the grammar made of the query
ghostvar parsed ast.Node
ghostvar parseErr error

// what a reader gives when it is read to the end
fun rdtext(r any) seq int
fun rderr(r any) error

extern "io/ioutil.ReadAll"(r)(b, err) { ensures seq(b) == rdtext(r) && err == rderr(r) && !is(err,errList) }
extern "io.ReadAll"(r)(b, err) { ensures seq(b) == rdtext(r) && err == rderr(r) && !is(err,errList) }
extern "strings.NewReader"(s)(r) { ensures r != nil && rdtext(boxed(r,*strings.Reader)) == s && rderr(boxed(r,*strings.Reader)) == nil }

func ParseReader(filename, r, opts)(v, err) {
	tags C16 C17 C18
	requires plain(opts)
	modifies parsed, parseErr, maps(storeDict)
	effect parseErr == err
	effect err == nil ==> v == parsed
	ensures [C16 "only sentences are accepted"] err == nil ==> sentence(rdtext(r))
	ensures [C16 "every sentence is accepted"] rderr(r) == nil && allvalid(rdtext(r)) && sentence(rdtext(r)) ==> err == nil
	ensures [C16 C17 "value of the text"] err == nil ==> rv("Start", rdtext(r), 0, v)
	ensures [C18 "position of the error"] err != nil ==> okerr(err) && (rderr(r) == nil ==> isperr(err)) && (isperr(err) ==> errok(rdtext(r), as(err,errList)[0]))
	ensures err == nil ==> wfnode(v)
}

package "github.com/flowchartsman/aql/parser"

default nopanic C10

immutable MessageVisitor, ParserMessage

// ---- operand validation (C13) ----------------------------------------------

def numtype(v ast.Val) bool = is(v,*ast.IntVal) || is(v,*ast.FloatVal) || is(v,*ast.TimeVal)
def simtype(v ast.Val) bool = is(v,*ast.StringVal) || is(v,*ast.RegexpVal) || is(v,*ast.BoolVal)
def isnumop(o ast.Op) bool = o == ast.LT || o == ast.LTE || o == ast.GT || o == ast.GTE || o == ast.BET

// the i-th value of a comparison breaks a rule
def offends(o ast.Op, vs seq ast.Val, i int) bool =
	isnumop(o) && !numtype(vs[i])
	|| o == ast.SIM && !simtype(vs[i])
	|| o == ast.BET && i == 1
	|| (exists j int :: {valkey(vs[j])} 0 <= j && j < i && valkey(vs[j]) == valkey(vs[i]))
	|| o == ast.EQ && (valkey(vs[i]) == "true" || valkey(vs[i]) == "false")

// an error may be positioned there
def errpos(e *ast.ExprNode, p ast.Pos) bool =
	p == e.Position || (exists i int :: {e.RVals[i]} 0 <= i && i < len(e.RVals) && p == valpos(e.RVals[i]) && offends(e.Op, e.RVals, i))

def validated(e *ast.ExprNode, err *ParseError) bool = err != nil ==> errpos(e, err.Position)

fun upos(n Positioned) ast.Pos

def posof(n Positioned) ast.Pos =
	is(n,*ast.ExprNode) ? as(n,*ast.ExprNode).Position : is(n,*ParserMessage) ? as(n,*ParserMessage).Position : is(n,*ParseError) ? as(n,*ParseError).Position : wfval(n) ? valpos(n) : upos(n)

iface Positioned.Pos(n)(r) {
	tags C13 C15
	requires (is(n,*ast.ExprNode) || is(n,*ParserMessage) || is(n,*ParseError) ==> refof(n) != 0)
	ensures r == posof(n)
}

def goodvalues(o ast.Op, vs seq ast.Val) bool =
	(isnumop(o) ==> (forall i int :: {vs[i]} 0 <= i && i < len(vs) ==> numtype(vs[i])))
	&& (o == ast.SIM ==> (forall i int :: {vs[i]} 0 <= i && i < len(vs) ==> simtype(vs[i])))

def goodarity(o ast.Op, n int) bool =
	o == ast.EXS || o == ast.NUL ? n == 0
	: o == ast.LT || o == ast.LTE || o == ast.GT || o == ast.GTE ? n == 1
	: o == ast.BET ? n == 2
	: n >= 1

func checkValues(e)(r) {
	tags C13
	uses oneof3
	requires e != nil
	ensures [C13 "values have the operator's types"] (r == nil) == goodvalues(e.Op, e.RVals)
	ensures [C13 "error position"] validated(e, r)
}

func checkArity(e)(r) {
	tags C13
	requires e != nil
	ensures [C13 "number of values"] (r == nil) == goodarity(e.Op, len(e.RVals))
	ensures [C13 "error position"] validated(e, r)
}

func checkRVals(e)(r) {
	tags C13
	requires e != nil
	ensures [C13 "no duplicates, no conflict"] (r == nil) == (nodup(e.RVals) && (e.Op == ast.EQ && len(e.RVals) > 1 ==> noconflict(e.RVals)))
	ensures [C13 "error position"] validated(e, r)
	inv (seen map[string]struct{}, i int) forall s string :: {dom(seen)[s]} dom(seen)[s] == (exists j int :: {valkey(e.RVals[j])} 0 <= j && j < i && valkey(e.RVals[j]) == s)
	inv (i int) forall a int, b int :: {valkey(e.RVals[a]), valkey(e.RVals[b])} 0 <= a && a < b && b < i ==> valkey(e.RVals[a]) != valkey(e.RVals[b])
	inv (i int) e.Op == ast.EQ ==> (forall a int, b int :: {valkey(e.RVals[a]), valkey(e.RVals[b])} 0 <= a && a < i && 0 <= b && b < i ==> !(valkey(e.RVals[a]) == "true" && valkey(e.RVals[b]) == "false"))
}

func checkBetween(e)(r) {
	tags C13
	requires e != nil
	requires [C13 "two values, numbers or times"] e.Op == ast.BET ==> goodarity(e.Op, len(e.RVals)) && goodvalues(e.Op, e.RVals)
	ensures [C13 "bounds in order"] e.Op == ast.BET ==> (r == nil) == (is(e.RVals[0],*ast.TimeVal) && is(e.RVals[1],*ast.TimeVal) && as(e.RVals[0],*ast.TimeVal).tv < as(e.RVals[1],*ast.TimeVal).tv
		|| isnumv(e.RVals[0]) && isnumv(e.RVals[1]) && numval(e.RVals[0]) < numval(e.RVals[1]))
	ensures e.Op != ast.BET ==> r == nil
	ensures [C13 "error position"] validated(e, r)
}

rec oneof(ts seq ast.ValType, t ast.ValType, i int) bool depth 5 = 0 <= i && i < len(ts) ? ts[i] == t || oneof(ts, t, i + 1) : false

lemma oneof3 [C13] : forall ts seq ast.ValType, t ast.ValType :: {oneof(ts, t, 0)}
	len(ts) == 3 ==> oneof(ts, t, 0) == (ts[0] == t || ts[1] == t || ts[2] == t)

func mustBeOneOf(vs, ts)(r) {
	tags C13
	requires len(ts) >= 1 && (forall i int :: {vs[i]} 0 <= i && i < len(vs) ==> wfval(vs[i]))
	ensures r >= 0 ==> r < len(vs) && !oneof(ts, valtype(vs[r]), 0)
	ensures r < 0 ==> (forall i int :: {vs[i]} 0 <= i && i < len(vs) ==> oneof(ts, valtype(vs[i]), 0))
	inv (n int) forall i int :: {vs[i]} 0 <= i && i < n ==> oneof(ts, valtype(vs[i]), 0)
	inv (n int, i int) oneof(ts, valtype(vs[i]), 0) == oneof(ts, valtype(vs[i]), n)
	inv (n int, v ast.Val) oneof(ts, valtype(v), 0) == oneof(ts, valtype(v), n)
	inv (n int, v ast.Val, b bool) oneof(ts, valtype(v), 0) == (b || oneof(ts, valtype(v), n))
	inv (n int, i int, b bool) oneof(ts, valtype(vs[i]), 0) == (b || oneof(ts, valtype(vs[i]), n))
}

// ---- messages (C15) --------------------------------------------------------

// index of the first error among the first n messages
rec fei(ms seq *ParserMessage, n int) int =
	n <= 0 ? 0 - 1 : fei(ms, n - 1) >= 0 ? fei(ms, n - 1) : ms[n-1].Type == MsgError ? n - 1 : 0 - 1

lemma fei_range [C15] induct (n) : forall ms seq *ParserMessage, n int :: {fei(ms, n)} n <= len(ms) ==> 0 - 1 <= fei(ms, n) && (fei(ms, n) >= 0 ==> fei(ms, n) < n)

lemma fei_append [C15] induct (n) : forall ms seq *ParserMessage, m *ParserMessage, n int :: {fei(ms ++ unit(m), n)}
	n <= len(ms) ==> fei(ms ++ unit(m), n) == fei(ms, n)

def tapeok(t *MessageTape) bool =
	(t.firstErr == nil) == (fei(t.messages, len(t.messages)) < 0)
	&& (t.firstErr != nil ==> t.firstErr.Position == t.messages[fei(t.messages, len(t.messages))].Position
		&& t.firstErr.Msg == t.messages[fei(t.messages, len(t.messages))].Msg)

def tapesok() bool = forall t *MessageTape :: {t.firstErr} {t.messages} tapeok(t)

def added(t *MessageTape, was seq *ParserMessage, k MessageType, p ast.Pos, s string) bool =
	len(t.messages) == len(was) + 1
	&& (forall i int :: {t.messages[i]} 0 <= i && i < len(was) ==> t.messages[i] == was[i])
	&& t.messages[len(was)] != nil && t.messages[len(was)].Type == k && t.messages[len(was)].Position == p && t.messages[len(was)].Msg == s

// kinds and positions of the first n messages (C24)
sort advmsg
fun adv(k MessageType, p ast.Pos) advmsg
rec advs(ms seq *ParserMessage, n int) seq advmsg = n <= 0 ? empty(advmsg) : advs(ms, n - 1) ++ unit(adv(ms[n-1].Type, ms[n-1].Position))

lemma advs_append [C24] induct (n) : forall ms seq *ParserMessage, m *ParserMessage, n int :: {advs(ms ++ unit(m), n)}
	n <= len(ms) ==> advs(ms ++ unit(m), n) == advs(ms, n)

def onTape(t *MessageTape) seq advmsg = advs(t.messages, len(t.messages))

def nopos() ast.Pos = mk(ast.Pos, 0, 0, 0 - 1, 0)

def valuetype(n Positioned) bool = is(n,*ast.IntVal) || is(n,*ast.FloatVal) || is(n,*ast.StringVal) || is(n,*ast.BoolVal) || is(n,*ast.RegexpVal) || is(n,*ast.NetVal) || is(n,*ast.TimeVal)

func MessageTape.addMsg(t, k, p, msg, v)() {
	tags C15
	uses fei_range, fei_append, advs_append
	requires tapesok()
	modifies t.messages, t.firstErr
	ensures [C15 "message appended"] added(t, old(t.messages), k, p, fmt.Sprintf(msg, v))
	ensures [C15 "first error kept"] tapesok()
	ensures [C15 C24 "kind and position"] onTape(t) == old(onTape(t)) ++ unit(adv(k, p)) && (k != MsgError ==> t.firstErr == old(t.firstErr))
}

func MessageTape.HintAt(t, p, msg, v)() {
	tags C15
	requires tapesok()
	modifies t.messages, t.firstErr
	ensures [C15 "hint added"] added(t, old(t.messages), MsgHint, p, fmt.Sprintf(msg, v))
	ensures [C15 C24 "kind and position"] onTape(t) == old(onTape(t)) ++ unit(adv(MsgHint, p)) && t.firstErr == old(t.firstErr)
	ensures tapesok()
}

func MessageTape.Hint(t, msg, v)() {
	tags C15
	requires tapesok()
	modifies t.messages, t.firstErr
	ensures [C15 "hint added"] added(t, old(t.messages), MsgHint, nopos(), fmt.Sprintf(msg, v))
	ensures tapesok()
}

func MessageTape.HintWith(t, n, msg, v)() {
	tags C15
	requires n != nil && (is(n,*ast.ExprNode) || is(n,*ParserMessage) || is(n,*ParseError) || valuetype(n) ==> refof(n) != 0)
	requires tapesok()
	modifies t.messages, t.firstErr
	ensures [C15 "hint added"] added(t, old(t.messages), MsgHint, posof(n), fmt.Sprintf(msg, v))
	ensures tapesok()
}

func MessageTape.Warning(t, msg, v)() {
	tags C15
	requires tapesok()
	modifies t.messages, t.firstErr
	ensures [C15 "warning added"] added(t, old(t.messages), MsgWarning, nopos(), fmt.Sprintf(msg, v))
	ensures tapesok()
}

func MessageTape.WarningWith(t, n, msg, v)() {
	tags C15
	requires n != nil && (is(n,*ast.ExprNode) || is(n,*ParserMessage) || is(n,*ParseError) || valuetype(n) ==> refof(n) != 0)
	requires tapesok()
	modifies t.messages, t.firstErr
	ensures [C15 "warning added"] added(t, old(t.messages), MsgWarning, posof(n), fmt.Sprintf(msg, v))
	ensures tapesok()
}

func MessageTape.WarningAt(t, p, msg, v)() {
	tags C15
	requires tapesok()
	modifies t.messages, t.firstErr
	ensures [C15 "warning added"] added(t, old(t.messages), MsgWarning, p, fmt.Sprintf(msg, v))
	ensures [C15 C24 "kind and position"] onTape(t) == old(onTape(t)) ++ unit(adv(MsgWarning, p)) && t.firstErr == old(t.firstErr)
	ensures tapesok()
}

func MessageTape.Error(t, msg, v)() {
	tags C15
	requires tapesok()
	modifies t.messages, t.firstErr
	ensures [C15 "error added"] added(t, old(t.messages), MsgError, nopos(), fmt.Sprintf(msg, v))
	ensures tapesok()
}

func MessageTape.ErrorWith(t, n, msg, v)() {
	tags C15
	requires n != nil && (is(n,*ast.ExprNode) || is(n,*ParserMessage) || is(n,*ParseError) || valuetype(n) ==> refof(n) != 0)
	requires tapesok()
	modifies t.messages, t.firstErr
	ensures [C15 "error added"] added(t, old(t.messages), MsgError, posof(n), fmt.Sprintf(msg, v))
	ensures tapesok()
}

func MessageTape.ErrorAt(t, p, msg, v)() {
	tags C15
	requires tapesok()
	modifies t.messages, t.firstErr
	ensures [C15 "error added"] added(t, old(t.messages), MsgError, p, fmt.Sprintf(msg, v))
	ensures tapesok()
}

// ---- visitors (C14) --------------------------------------------------------

// every call of a visitor's function is an event; time is the number of events
sort vevent
fun evf(f int, n ast.Node) vevent
fun evm(f int, n ast.Node, t *MessageTape) vevent
fun evu(v Visitor, n ast.Node) vevent
ghostvar trace seq vevent

// what the t-th call returned, and the first error of a tape after it
fun vres(t int) error
fun tapeerr(t int, tape int) *ParserMessage

def now() bool = forall m *MessageTape :: {m.firstErr} m.firstErr == tapeerr(len(trace), id(m))

def vev(v Visitor, n ast.Node) vevent =
	is(v,VisitorFunc) ? evf(id(as(v,VisitorFunc)), n)
	: is(v,*MessageVisitor) ? evm(id(as(v,*MessageVisitor).f), n, as(v,*MessageVisitor).tape)
	: evu(v, n)

def okvisitor(v Visitor) bool =
	v != nil && (is(v,VisitorFunc) ==> as(v,VisitorFunc) != nil) && (is(v,*MessageVisitor) ==> refof(v) != 0)

invariant [C10 C14 "function and tape present"] MessageVisitor(v) v.f != nil && v.tape != nil

// v is the operand validation
def isval(v Visitor) bool = is(v,VisitorFunc) && as(v,VisitorFunc) == opValidator

def oknode(n ast.Node) bool = is(n,*ast.ExprNode) ==> okcmp(as(n,*ast.ExprNode).Op, as(n,*ast.ExprNode).RVals)

// p is the position of an error in a comparison of n that breaks the rules
rec badat(n ast.Node, p ast.Pos) bool depth 1 =
	is(n,*ast.AndNode) ? badat(as(n,*ast.AndNode).Left, p) || badat(as(n,*ast.AndNode).Right, p)
	: is(n,*ast.OrNode) ? badat(as(n,*ast.OrNode).Left, p) || badat(as(n,*ast.OrNode).Right, p)
	: is(n,*ast.NotNode) ? badat(as(n,*ast.NotNode).Expr, p)
	: !oknode(n) && errpos(as(n,*ast.ExprNode), p)

def positioned(n ast.Node, err error) bool = err != nil ==> is(err,*ParseError) && refof(err) != 0 && badat(n, as(err,*ParseError).Position)

// v gives the advice of matchers: isadv and advn are in jsonmatcher.spec
def isadvv(v Visitor) bool = is(v,*MessageVisitor) && isadv(id(as(v,*MessageVisitor).f))
def tapeof(v Visitor) *MessageTape = as(v,*MessageVisitor).tape

rec advall(n ast.Node) seq advmsg depth 1 =
	is(n,*ast.AndNode) ? advall(as(n,*ast.AndNode).Left) ++ advall(as(n,*ast.AndNode).Right)
	: is(n,*ast.OrNode) ? advall(as(n,*ast.OrNode).Left) ++ advall(as(n,*ast.OrNode).Right)
	: is(n,*ast.NotNode) ? advall(as(n,*ast.NotNode).Expr)
	: advn(n)

functype VisitorFunc(f, n)(err) {
	tags C13 C14
	requires wfnode(n)
	requires tapesok()
	modifies trace, heap(MessageTape,firstErr), heap(MessageTape,messages)
	effect trace == old(trace) ++ unit(evf(id(f), n))
	effect err == vres(len(old(trace)))
	effect now()
	ensures [C13 "accepted iff the comparison is well formed"] f == opValidator ==> (err == nil) == oknode(n)
	ensures [C13 "error at the offending place"] f == opValidator ==> positioned(n, err)
	ensures [C24 "no advice"] f == opValidator ==> heap(MessageTape,messages) == old(heap(MessageTape,messages)) && heap(MessageTape,firstErr) == old(heap(MessageTape,firstErr))
	ensures [C15 "tapes stay consistent"] tapesok()
}

functype MessageVisitor.f(f, n, t)(err) {
	tags C15
	requires wfnode(n) && t != nil
	requires tapesok()
	modifies trace, heap(MessageTape,firstErr), heap(MessageTape,messages)
	inv tapesok()
	inv (i int) isadv(id(f)) && is(n,*ast.ExprNode) ==> onTape(t) == old(onTape(t)) ++ advvals(as(n,*ast.ExprNode).Op, as(n,*ast.ExprNode).RVals, i)
	inv isadv(id(f)) ==> t.firstErr == old(t.firstErr)
	effect trace == old(trace) ++ unit(evm(id(f), n, t))
	effect err == vres(len(old(trace)))
	effect now()
	ensures [C15 "tapes stay consistent"] tapesok()
	ensures [C24 "advice on the node"] isadv(id(f)) ==> err == nil && onTape(t) == old(onTape(t)) ++ advn(n) && t.firstErr == old(t.firstErr)
}

iface Visitor.Visit(v, n)(err) {
	tags C13 C14
	requires wfnode(n) && okvisitor(v)
	requires tapesok()
	modifies trace, heap(MessageTape,firstErr), heap(MessageTape,messages)
	ensures [C14 "one call with the node"] trace == old(trace) ++ unit(vev(v, n))
	ensures [C14 "result passed on"] err == vres(len(old(trace)))
	ensures now()
	ensures [C13 "accepted iff the comparison is well formed"] isval(v) ==> (err == nil) == oknode(n)
	ensures [C13 "error at the offending place"] isval(v) ==> positioned(n, err)
	ensures [C24 "no advice"] isval(v) ==> heap(MessageTape,messages) == old(heap(MessageTape,messages)) && heap(MessageTape,firstErr) == old(heap(MessageTape,firstErr))
	ensures [C24 "advice"] isadvv(v) ==> err == nil && onTape(tapeof(v)) == old(onTape(tapeof(v))) ++ advn(n) && tapeof(v).firstErr == old(tapeof(v).firstErr)
	ensures [C15 "tapes stay consistent"] tapesok()
}

// calls made by a walk of v over n starting at time t, and its result
rec wtr(v Visitor, n ast.Node, t int) seq vevent depth 1 =
	vres(t) != nil ? unit(vev(v, n))
	: is(n,*ast.AndNode) ? unit(vev(v, n)) ++ wtr2(v, as(n,*ast.AndNode).Left, as(n,*ast.AndNode).Right, t + 1)
	: is(n,*ast.OrNode) ? unit(vev(v, n)) ++ wtr2(v, as(n,*ast.OrNode).Left, as(n,*ast.OrNode).Right, t + 1)
	: is(n,*ast.NotNode) ? unit(vev(v, n)) ++ wtr(v, as(n,*ast.NotNode).Expr, t + 1)
	: unit(vev(v, n))

rec wtr2(v Visitor, l ast.Node, r ast.Node, t int) seq vevent depth 2 =
	werr(v, l, t) != nil ? wtr(v, l, t) : wtr(v, l, t) ++ wtr(v, r, t + len(wtr(v, l, t)))

rec werr(v Visitor, n ast.Node, t int) error depth 1 =
	vres(t) == Skip ? nil
	: vres(t) != nil ? vres(t)
	: is(n,*ast.AndNode) ? werr2(v, as(n,*ast.AndNode).Left, as(n,*ast.AndNode).Right, t + 1)
	: is(n,*ast.OrNode) ? werr2(v, as(n,*ast.OrNode).Left, as(n,*ast.OrNode).Right, t + 1)
	: is(n,*ast.NotNode) ? werr(v, as(n,*ast.NotNode).Expr, t + 1)
	: nil

rec werr2(v Visitor, l ast.Node, r ast.Node, t int) error depth 2 =
	werr(v, l, t) != nil ? werr(v, l, t) : werr(v, r, t + len(wtr(v, l, t)))

func walkr(v, n)(err) {
	tags C13 C14
	requires wfnode(n) && okvisitor(v)
	requires tapesok()
	modifies trace, heap(MessageTape,firstErr), heap(MessageTape,messages)
	ensures [C14 "calls made"] trace == old(trace) ++ wtr(v, n, len(old(trace)))
	ensures [C14 "result"] err == werr(v, n, len(old(trace)))
	ensures err != Skip
	ensures now()
	ensures [C13 "accepted iff every comparison is well formed"] isval(v) ==> (err == nil) == okast(n)
	ensures [C13 "error at the offending place"] isval(v) ==> positioned(n, err)
	ensures [C24 "no advice"] isval(v) ==> heap(MessageTape,messages) == old(heap(MessageTape,messages)) && heap(MessageTape,firstErr) == old(heap(MessageTape,firstErr))
	ensures [C24 "advice"] isadvv(v) ==> err == nil && onTape(tapeof(v)) == old(onTape(tapeof(v))) ++ advall(n) && tapeof(v).firstErr == old(tapeof(v).firstErr)
	ensures [C15 "tapes stay consistent"] tapesok()
}

// result of a visitor's walk
def wend(v Visitor, n ast.Node, t int) error = werr(v, n, t) == SkipAll ? nil : werr(v, n, t)

func walk(v, n)(err) {
	tags C13 C14
	requires wfnode(n) && okvisitor(v)
	requires tapesok()
	modifies trace, heap(MessageTape,firstErr), heap(MessageTape,messages)
	ensures [C14 "calls made"] trace == old(trace) ++ wtr(v, n, len(old(trace)))
	ensures [C14 "result"] err == wend(v, n, len(old(trace)))
	ensures now()
	ensures [C13 "accepted iff every comparison is well formed"] isval(v) ==> (err == nil) == okast(n)
	ensures [C13 "error at the offending place"] isval(v) ==> positioned(n, err)
	ensures [C24 "no advice"] isval(v) ==> heap(MessageTape,messages) == old(heap(MessageTape,messages)) && heap(MessageTape,firstErr) == old(heap(MessageTape,firstErr))
	ensures [C24 "advice"] isadvv(v) ==> err == nil && onTape(tapeof(v)) == old(onTape(tapeof(v))) ++ advall(n) && tapeof(v).firstErr == old(tapeof(v).firstErr)
	ensures [C15 "tapes stay consistent"] tapesok()
}

// the first error on the tape of a visitor at time t
def vtape(v Visitor, t int) *ParserMessage = is(v,*MessageVisitor) ? tapeerr(t, id(as(v,*MessageVisitor).tape)) : nil

def stepok(v Visitor, n ast.Node, t int) bool = wend(v, n, t) == nil && vtape(v, t + len(wtr(v, n, t))) == nil

// calls made by the visitors from the k-th on
rec runtr(vs seq Visitor, k int, n ast.Node, t int) seq vevent =
	0 <= k && k < len(vs) ?
		(stepok(vs[k], n, t) ? wtr(vs[k], n, t) ++ runtr(vs, k + 1, n, t + len(wtr(vs[k], n, t))) : wtr(vs[k], n, t))
	: empty(vevent)

// the first visitor from the k-th on that fails, and when it starts
rec runk(vs seq Visitor, k int, n ast.Node, t int) int =
	0 <= k && k < len(vs) ? (stepok(vs[k], n, t) ? runk(vs, k + 1, n, t + len(wtr(vs[k], n, t))) : k) : len(vs)
rec runt(vs seq Visitor, k int, n ast.Node, t int) int =
	0 <= k && k < len(vs) ? (stepok(vs[k], n, t) ? runt(vs, k + 1, n, t + len(wtr(vs[k], n, t))) : t) : t

fun optv(o int) seq Visitor
rec optvs(os seq Option, i int) seq Visitor = 0 <= i && i < len(os) ? optv(id(os[i])) ++ optvs(os, i + 1) : empty(Visitor)

functype Option(o, p)() {
	tags C14
	requires p != nil
	modifies p.visitors, p.debug
	ensures [C14 "visitors added in order"] seq(p.visitors) == seq(old(p.visitors)) ++ optv(id(o))
}

func Visitors(vs)(o) {
	tags C14
	defines optv(id(o)) == vs
	ensures o != nil
}

func Debug()(o) {
	tags C14
	defines optv(id(o)) == empty(Visitor)
	ensures o != nil
}

// the error of a failing step
def steperr(v Visitor, n ast.Node, t int, err error) bool =
	is(err,*ParseError)
	&& (wend(v, n, t) != nil ?
		(is(wend(v, n, t),*ParseError) ? err == wend(v, n, t)
		: as(err,*ParseError).Position == nopos() && as(err,*ParseError).Msg == "validation failure: " ++ errtext(wend(v, n, t)))
	: as(err,*ParseError).Position == vtape(v, t + len(wtr(v, n, t))).Position
		&& as(err,*ParseError).Msg == vtape(v, t + len(wtr(v, n, t))).Msg)

def allv(os seq Option) seq Visitor = unit(boxed(opValidator, VisitorFunc)) ++ optvs(os, 0)

def onlyadv(os seq Option) bool = len(optvs(os, 0)) == 1 && isadvv(optvs(os, 0)[0])
def advtape(os seq Option) *MessageTape = tapeof(optvs(os, 0)[0])

func ParseQueryReader(r, options)(n, err) {
	tags C13 C14 C15 C16 C18 C24
	uses v_start
	requires forall i int :: {options[i]} 0 <= i && i < len(options) ==> options[i] != nil
	requires forall i int :: {optvs(options, 0)[i]} 0 <= i && i < len(optvs(options, 0)) ==> okvisitor(optvs(options, 0)[i])
	requires tapesok()
	modifies trace, heap(MessageTape,firstErr), heap(MessageTape,messages), parsed, parseErr, maps(grammar.storeDict)
	ensures err == nil ==> wfnode(n) && n == parsed && parseErr == nil
	ensures [C16 "only sentences are accepted"] err == nil ==> sentence(rdtext(r))
	ensures [C16 C17 "tree of the text"] err == nil ==> rv("OrClause", rdtext(r), wsend(rdtext(r), 0), n)
	ensures [C16 "only sentences are accepted by the grammar"] parseErr == nil ==> sentence(rdtext(r))
	ensures [C16 "every sentence is accepted by the grammar"] rderr(r) == nil && allvalid(rdtext(r)) && sentence(rdtext(r)) ==> parseErr == nil
	ensures [C18 "position of a syntax error"] rderr(r) == nil && parseErr != nil ==> is(err,*ParseError) && isperr(parseErr) && errok(rdtext(r), as(parseErr,grammar.errList)[0]) && as(err,*ParseError).Position == astpos(perrof(parseErr).pos, toklen(perrof(parseErr).Inner))
	ensures err != nil ==> n == nil
	ensures [C13 "well-formed comparisons only"] err == nil ==> okast(n)
	ensures [C13 "rejected with a position"] parseErr == nil && !okast(parsed) ==> err != nil && positioned(parsed, err)
	ensures [C13 "validation rejects nothing else"] parseErr == nil && okast(parsed) && len(optvs(options, 0)) == 0 ==> err == nil
	ensures [C14 "visitors called in order"] parseErr == nil ==> trace == old(trace) ++ runtr(allv(options), 0, parsed, len(old(trace)))
	ensures parseErr != nil ==> trace == old(trace)
	ensures [C14 C15 "fails iff a visitor fails"] parseErr == nil ==> (err == nil) == (runk(allv(options), 0, parsed, len(old(trace))) == len(allv(options)))
	ensures [C14 C15 "error of the first visitor that fails"] parseErr == nil && err != nil ==>
		steperr(allv(options)[runk(allv(options), 0, parsed, len(old(trace)))], parsed, runt(allv(options), 0, parsed, len(old(trace))), err)
	inv (p ParserOpts, i int) p.visitors ++ optvs(options, i) == entry(seq(p.visitors)) ++ optvs(options, 0)
	inv (vs seq Visitor, i int) trace ++ runtr(vs, i, parsed, len(trace)) == entry(trace) ++ runtr(vs, 0, parsed, len(entry(trace)))
	inv (vs seq Visitor, i int) runk(vs, i, parsed, len(trace)) == runk(vs, 0, parsed, len(entry(trace)))
	inv (vs seq Visitor, i int) runt(vs, i, parsed, len(trace)) == runt(vs, 0, parsed, len(entry(trace)))
	inv (i int) i >= 1 ==> okast(parsed)
	inv (vs seq Visitor, i int) i >= 0 ==> len(vs) >= 1 && isval(vs[0])
	inv tapesok()
	ensures [C15 "tapes stay consistent"] tapesok()
	ensures [C24 "advice on the query"] parseErr == nil && okast(parsed) && onlyadv(options) && old(advtape(options).firstErr) == nil ==>
		err == nil && onTape(advtape(options)) == old(onTape(advtape(options))) ++ advall(parsed)
	inv (i int) onlyadv(options) ==> onTape(advtape(options)) == (i <= 1 ? old(onTape(advtape(options))) : old(onTape(advtape(options))) ++ advall(parsed))
	inv onlyadv(options) ==> advtape(options).firstErr == old(advtape(options).firstErr)
}

func ParseQuery(q, options)(n, err) {
	tags C13 C14 C15 C16 C18 C24
	uses v_start
	requires forall i int :: {options[i]} 0 <= i && i < len(options) ==> options[i] != nil
	requires forall i int :: {optvs(options, 0)[i]} 0 <= i && i < len(optvs(options, 0)) ==> okvisitor(optvs(options, 0)[i])
	requires tapesok()
	modifies trace, heap(MessageTape,firstErr), heap(MessageTape,messages), parsed, parseErr, maps(grammar.storeDict)
	ensures err == nil ==> wfnode(n) && n == parsed && parseErr == nil
	ensures [C16 "only sentences are accepted"] err == nil ==> sentence(q)
	ensures [C16 C17 "tree of the text"] err == nil ==> rv("OrClause", q, wsend(q, 0), n)
	ensures [C16 "only sentences are accepted by the grammar"] parseErr == nil ==> sentence(q)
	ensures [C16 "every sentence is accepted by the grammar"] allvalid(q) && sentence(q) ==> parseErr == nil
	ensures [C18 "position of a syntax error"] parseErr != nil ==> is(err,*ParseError) && isperr(parseErr) && errok(q, as(parseErr,grammar.errList)[0]) && as(err,*ParseError).Position == astpos(perrof(parseErr).pos, toklen(perrof(parseErr).Inner))
	ensures err != nil ==> n == nil
	ensures [C13 "well-formed comparisons only"] err == nil ==> okast(n)
	ensures [C13 "rejected with a position"] parseErr == nil && !okast(parsed) ==> err != nil && positioned(parsed, err)
	ensures [C13 "validation rejects nothing else"] parseErr == nil && okast(parsed) && len(optvs(options, 0)) == 0 ==> err == nil
	ensures [C14 "visitors called in order"] parseErr == nil ==> trace == old(trace) ++ runtr(allv(options), 0, parsed, len(old(trace)))
	ensures parseErr != nil ==> trace == old(trace)
	ensures [C14 C15 "fails iff a visitor fails"] parseErr == nil ==> (err == nil) == (runk(allv(options), 0, parsed, len(old(trace))) == len(allv(options)))
	ensures [C14 C15 "error of the first visitor that fails"] parseErr == nil && err != nil ==>
		steperr(allv(options)[runk(allv(options), 0, parsed, len(old(trace)))], parsed, runt(allv(options), 0, parsed, len(old(trace))), err)
	ensures [C15 "tapes stay consistent"] tapesok()
	ensures [C24 "advice on the query"] parseErr == nil && okast(parsed) && onlyadv(options) && old(advtape(options).firstErr) == nil ==>
		err == nil && onTape(advtape(options)) == old(onTape(advtape(options))) ++ advall(parsed)
}

func NewMessageVisitor(f)(v) {
	tags C15
	requires f != nil && tapesok()
	modifies heap(MessageTape,firstErr), heap(MessageTape,messages)
	ensures v != nil && v.f == f && fresh(v.tape) && len(v.tape.messages) == 0
	ensures [C15 C24 "tape empty"] v.tape.firstErr == nil && onTape(v.tape) == empty(advmsg)
	ensures [C15 "tapes stay consistent"] tapesok()
	ensures forall m *MessageTape :: {m.messages} !fresh(m) ==> m.messages == old(m.messages)
}

func MessageVisitor.Messages(v)(r) {
	tags C15
	ensures [C15 "messages of the tape"] r == v.tape.messages
}

// ---- text of messages (C25) ----------------------------------------------------

def kindok(t MessageType) bool = t == MsgHint || t == MsgWarning || t == MsgError
def typetext(t MessageType) string = t == MsgHint ? "HINT" : t == MsgWarning ? "WARNING" : "ERROR"

func ParserMessage.String(p)(r) {
	tags C25
	requires p != nil
	ensures [C25 "text of a message"] kindok(p.Type) && p.Position == nopos() ==> r == typetext(p.Type) ++ ": " ++ p.Msg
	ensures [C25 "text of a message with a position"] kindok(p.Type) && p.Position.Line > 0 && p.Position.Col > 0 && p.Position.Offset >= 0 ==>
		r == typetext(p.Type) ++ " [" ++ strconv.Itoa(p.Position.Line) ++ ":" ++ strconv.Itoa(p.Position.Col) ++ "(" ++ strconv.Itoa(p.Position.Offset) ++ ")]: " ++ p.Msg
}
