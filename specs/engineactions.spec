// The code of the grammar: what every rule yields, and which matches are
// rejected.
package "github.com/flowchartsman/aql/internal/grammar"

// ---- the value of a rule ----------------------------------------------------

def isvals(v any) bool = is(v,[]ast.Val) && (forall i int :: {as(v,[]ast.Val)[i]} 0 <= i && i < len(as(v,[]ast.Val)) ==> wfval(as(v,[]ast.Val)[i]))
def isop(v any) bool = is(v,ast.Op) && wfop(as(v,ast.Op))
def isfield(v any) bool = is(v,[]string) && len(as(v,[]string)) >= 1

// the type of the value of a rule
rec rt(n string, v any) bool const =
	n == "Start" || n == "Query" || n == "OrClause" || n == "AndClause" || n == "NotClause" || n == "Comparison" ? wfnode(v)
	: n == "Field" ? isfield(v)
	: n == "FieldPiece" || n == "UnquotedFieldPiece" || n == "QuotedFieldPiece" || n == "Star" ? is(v,string)
	: n == "ValueList" ? isvals(v)
	: n == "QuotedValue" ? is(v,*ast.StringVal) && refof(v) != 0
	: n == "Value" || n == "RegexValue" || n == "BareValue" || n == "BoolValue" || n == "FloatValue" || n == "IntValue" || n == "IPValue" || n == "Timestamp" ? wfval(v)
	: n == "opNoArgs" || n == "opComp" ? isop(v)
	: true

lemma rt_query [C16] : forall d seq int, o int, v any :: {rv("Query", d, o, v)} rv("Query", d, o, v) ==> wfnode(v)
lemma rt_or [C16] : forall d seq int, o int, v any :: {rv("OrClause", d, o, v)} rv("OrClause", d, o, v) ==> wfnode(v)
lemma rt_and [C16] : forall d seq int, o int, v any :: {rv("AndClause", d, o, v)} rv("AndClause", d, o, v) ==> wfnode(v)
lemma rt_not [C16] : forall d seq int, o int, v any :: {rv("NotClause", d, o, v)} rv("NotClause", d, o, v) ==> wfnode(v)
lemma rt_comparison [C16] : forall d seq int, o int, v any :: {rv("Comparison", d, o, v)} rv("Comparison", d, o, v) ==> wfnode(v)
lemma rt_field [C16] : forall d seq int, o int, v any :: {rv("Field", d, o, v)} rv("Field", d, o, v) ==> isfield(v)
lemma rt_piece [C16] : forall d seq int, o int, v any :: {rv("FieldPiece", d, o, v)} rv("FieldPiece", d, o, v) ==> is(v,string)
lemma rt_values [C16] : forall d seq int, o int, v any :: {rv("ValueList", d, o, v)} rv("ValueList", d, o, v) ==> isvals(v)
lemma rt_quoted [C16] : forall d seq int, o int, v any :: {rv("QuotedValue", d, o, v)} rv("QuotedValue", d, o, v) ==> is(v,*ast.StringVal) && refof(v) != 0
lemma rt_regex [C16] : forall d seq int, o int, v any :: {rv("RegexValue", d, o, v)} rv("RegexValue", d, o, v) ==> wfval(v)
lemma rt_bare [C16] : forall d seq int, o int, v any :: {rv("BareValue", d, o, v)} rv("BareValue", d, o, v) ==> wfval(v)
lemma rt_value [C16] : forall d seq int, o int, v any :: {rv("Value", d, o, v)} rv("Value", d, o, v) ==> wfval(v)
lemma rt_noargs [C16] : forall d seq int, o int, v any :: {rv("opNoArgs", d, o, v)} rv("opNoArgs", d, o, v) ==> isop(v)
lemma rt_comp [C16] : forall d seq int, o int, v any :: {rv("opComp", d, o, v)} rv("opComp", d, o, v) ==> isop(v)

// ---- tokens -----------------------------------------------------------------

def tok(d seq int, o int, end int) seq int = d[o:end]
def nx(d seq int, o int) int = o + rw(d, o)
def tpos(d seq int, o int, end int) ast.Pos = astpos(posat(d, o), utf8.RuneCount(tok(d, o, end)))

// ---- clauses ----------------------------------------------------------------

def or1(d seq int, o int) int = re("AndClause", d, o)
def or2(d seq int, o int) int = re("space", d, or1(d, o))
def or3(d seq int, o int) int = re("logicalOR", d, or2(d, o))
def or4(d seq int, o int) int = re("space", d, or3(d, o))
def and1(d seq int, o int) int = re("NotClause", d, o)
def and2(d seq int, o int) int = re("space", d, and1(d, o))
def and3(d seq int, o int) int = re("logicalAND", d, and2(d, o))
def and4(d seq int, o int) int = re("space", d, and3(d, o))

// ---- comparisons ------------------------------------------------------------

// behind the colon
def colon(d seq int, o int) int = re("_", d, re("Field", d, o))
def operand(d seq int, o int) int = re("_", d, nx(d, colon(d, o)))
// the values of a comparison
def operands(d seq int, o int) int = re("_", d, rk("opComp", d, operand(d, o)) ? re("opComp", d, operand(d, o)) : operand(d, o))

def noargop(t seq int) ast.Op = t == "exists" ? ast.EXS : ast.NUL
def compop(t seq int) ast.Op = t == "><" ? ast.BET : t == "~" ? ast.SIM : t == "<" ? ast.LT : t == "<=" ? ast.LTE : t == ">" ? ast.GT : ast.GTE
def opword(n string, d seq int, o int) seq int = tok(d, o, re(n, d, o))

def iscomparison(v any, d seq int, o int, end int) bool = is(v,*ast.ExprNode) && refof(v) != 0
	&& seq(as(v,*ast.ExprNode).Field) == fieldpath(d, o) && as(v,*ast.ExprNode).Position == tpos(d, o, end)

// ---- fields -----------------------------------------------------------------

// a further segment
def fx() any = as(as(as(as(rule_of("Field").expr,*actionExpr).expr,*labeledExpr).expr,*seqExpr).exprs[1],*zeroOrMoreExpr).expr
def fseg(d seq int, o int) string =
	rk("QuotedValue", d, o) ? strconv.Unquote(tok(d, o, re("QuotedValue", d, o)))
	: rk("UnquotedFieldPiece", d, o) ? tok(d, o, re("UnquotedFieldPiece", d, o)) : "*"
rec fsegs(d seq int, o int, n int) seq string depth 1 = n <= 0 ? unit(fseg(d, o)) : fsegs(d, o, n - 1) ++ unit(fseg(d, nx(d, starat(fx(), d, re("FieldPiece", d, o), n - 1))))
def fmore(d seq int, o int) int = starn(fx(), d, re("FieldPiece", d, o))
def fieldpath(d seq int, o int) seq string = uns(fsegs(d, o, fmore(d, o)), fmore(d, o) + 1)

// ---- values -----------------------------------------------------------------

// a further value
def vx() any = as(as(as(as(as(rule_of("ValueList").expr,*choiceExpr).alternatives[0],*actionExpr).expr,*seqExpr).exprs[3],*labeledExpr).expr,*zeroOrMoreExpr).expr
def vfirst(d seq int, o int) int = re("_", d, nx(d, o))
def vrest(d seq int, o int) int = re("Value", d, vfirst(d, o))
def vmore(d seq int, o int) int = starn(vx(), d, vrest(d, o))
def vnext(d seq int, e int) int = re("_", d, nx(d, re("_", d, e)))
rec restv(d seq int, e int, vs seq ast.Val, n int) bool depth 1 = n <= 0 ? true : restv(d, e, vs, n - 1) && rv("Value", d, vnext(d, starat(vx(), d, e, n - 1)), vs[n])
def manyvals(d seq int, o int, vs seq ast.Val) bool = len(vs) == vmore(d, o) + 1 && rv("Value", d, vfirst(d, o), vs[0]) && restv(d, vrest(d, o), vs, vmore(d, o))
// several values in parentheses
def inparens(d seq int, o int) bool = rn(d, o) == 40 && rk("Value", d, vfirst(d, o)) && rn(d, re("_", d, starend(vx(), d, vrest(d, o)))) == 41
def valuelist(d seq int, o int, vs seq ast.Val) bool = inparens(d, o) ? manyvals(d, o, vs) : len(vs) == 1 && rv("Value", d, o, vs[0])

lemma starv_at [C16] induct (n) : forall x any, d seq int, o int, vs seq any, n int, i int :: {starv(x, d, o, vs, n), vs[i]}
	0 <= i && i < n && starv(x, d, o, vs, n) ==> pok(x, d, starat(x, d, o, i)) && pv(x, d, starat(x, d, o, i), vs[i])
lemma restv_app [C16] induct (n) : forall d seq int, e int, vs seq ast.Val, v ast.Val, n int :: {restv(d, e, vs ++ unit(v), n)}
	n < len(vs) ==> restv(d, e, vs ++ unit(v), n) == restv(d, e, vs, n)

// ---- which matches are rejected ---------------------------------------------

rec aerr(f ref, d seq int, o int, end int) bool const =
	f == funcval("callonQuotedValue2") ? strconv.Unquote$1(tok(d, o, end)) != nil
	: f == funcval("callonRegexValue2") ? regexp.Compile$1(retext(tok(d, o, end))) != nil
	: f == funcval("callonFloatValue1") ? !(strconv.ParseFloat$1(tok(d, o, end), 64) == nil && !isNaN(strconv.ParseFloat(tok(d, o, end), 64)))
	: f == funcval("callonIntValue1") ? strconv.ParseInt$1(tok(d, o, end), 10, 64) != nil
	: f == funcval("callonIPValue1") ? netip.ParsePrefix$1(nettext(tok(d, o, end))) != nil
	: f == funcval("callonTimestamp1") ? time.Parse$1(timelayout(tok(d, o, end)), tok(d, o, end)) != nil
	: f == funcval("callonField1") ? len(fieldpath(d, o)) == 0
	: f == funcval("callonValueList2") ? vmore(d, o) == 0
	: f == funcval("callonValue8")

rec aval(f ref, d seq int, o int, end int, v any) bool const =
	f == funcval("callonStart1") ? rv("Query", d, o, v)
	: f == funcval("callonQuery1") ? rv("OrClause", d, re("_", d, o), v)
	: f == funcval("callonOrClause2") ? is(v,*ast.OrNode) && refof(v) != 0 && rv("AndClause", d, o, as(v,*ast.OrNode).Left) && rv("OrClause", d, or4(d, o), as(v,*ast.OrNode).Right)
	: f == funcval("callonAndClause2") ? is(v,*ast.AndNode) && refof(v) != 0 && rv("NotClause", d, o, as(v,*ast.AndNode).Left) && rv("AndClause", d, and4(d, o), as(v,*ast.AndNode).Right)
	: f == funcval("callonNotClause2") ? is(v,*ast.NotNode) && refof(v) != 0 && rv("Comparison", d, re("logicalNOT", d, o), as(v,*ast.NotNode).Expr)
	: f == funcval("callonComparison2") ? rv("OrClause", d, re("_", d, nx(d, o)), v)
	: f == funcval("callonComparison10") ? iscomparison(v, d, o, end) && as(v,*ast.ExprNode).Op == noargop(opword("opNoArgs", d, operand(d, o))) && len(as(v,*ast.ExprNode).RVals) == 0
	: f == funcval("callonComparison19") ? iscomparison(v, d, o, end) && as(v,*ast.ExprNode).Op == (rk("opComp", d, operand(d, o)) ? compop(opword("opComp", d, operand(d, o))) : ast.EQ)
		&& valuelist(d, operands(d, o), seq(as(v,*ast.ExprNode).RVals))
	: f == funcval("callonField1") ? isfield(v) && seq(as(v,[]string)) == fieldpath(d, o)
	: f == funcval("callonUnquotedFieldPiece1") ? is(v,string) && as(v,string) == tok(d, o, end)
	: f == funcval("callonQuotedFieldPiece1") ? is(v,string) && as(v,string) == strconv.Unquote(tok(d, o, end))
	: f == funcval("callonStar1") ? is(v,string) && as(v,string) == "*"
	: f == funcval("callonValueList2") ? isvals(v) && manyvals(d, o, seq(as(v,[]ast.Val)))
	: f == funcval("callonValueList17") ? isvals(v) && len(as(v,[]ast.Val)) == 1 && rv("Value", d, o, as(v,[]ast.Val)[0])
	: f == funcval("callonValue2") ? (rk("QuotedValue", d, o) ? rv("QuotedValue", d, o, v) : rk("RegexValue", d, o) ? rv("RegexValue", d, o, v) : rv("BareValue", d, o, v))
	: f == funcval("callonQuotedValue2") ? is(v,*ast.StringVal) && strlit(as(v,*ast.StringVal), strconv.Unquote(tok(d, o, end)), tpos(d, o, end))
	: f == funcval("callonRegexValue2") ? is(v,*ast.RegexpVal) && relit(as(v,*ast.RegexpVal), tok(d, o, end), tpos(d, o, end))
	: f == funcval("callonFloatValue1") ? is(v,*ast.FloatVal) && fltlit(as(v,*ast.FloatVal), tok(d, o, end), tpos(d, o, end))
	: f == funcval("callonIntValue1") ? is(v,*ast.IntVal) && intlit(as(v,*ast.IntVal), tok(d, o, end), tpos(d, o, end))
	: f == funcval("callonIPValue1") ? is(v,*ast.NetVal) && netlit(as(v,*ast.NetVal), tok(d, o, end), tpos(d, o, end))
	: f == funcval("callonTimestamp1") ? is(v,*ast.TimeVal) && timelit(as(v,*ast.TimeVal), tok(d, o, end), tpos(d, o, end))
	: f == funcval("callonBoolValue1") ? is(v,*ast.BoolVal) && boollit(as(v,*ast.BoolVal), tok(d, o, end), tpos(d, o, end)) && as(v,*ast.BoolVal).bv == (tok(d, o, end) == "true")
	: f == funcval("callonopNoArgs1") ? is(v,ast.Op) && as(v,ast.Op) == noargop(tok(d, o, end))
	: f == funcval("callonopComp1") ? is(v,ast.Op) && as(v,ast.Op) == compop(tok(d, o, end))
	: false

functype actionExpr.run(f, p)(v, err) {
	tags C16
	split
	uses g, rt_query, rt_or, rt_and, rt_not, rt_comparison, rt_field, rt_piece, rt_values, rt_quoted, rt_regex, rt_bare, rt_value, rt_noargs, rt_comp
	uses v_quoted, v_piece, v_fpiece, v_vrest, v_field, v_values, v_noargs, v_comp, starv_at, restv_app, regex_text, unknown_text, noargs_text, comp_text, bool_text
	requires p != nil && len(p.vstack) > 0 && top(p) != nil && p.errs != nil
	requires atbnd(D(p), p.cur.pos.offset) && p.cur.pos == posat(D(p), p.cur.pos.offset) && seq(p.cur.text) == tok(D(p), p.cur.pos.offset, p.pt.offset)
	requires p.cur.pos.offset <= p.pt.offset && p.pt.offset <= len(p.data)
	requires noerrs(p) ==> pok(act_of(f).expr, D(p), p.cur.pos.offset) && !perr(act_of(f).expr, D(p), p.cur.pos.offset) && p.pt.offset == pend(act_of(f).expr, D(p), p.cur.pos.offset)
	requires noerrs(p) ==> labels(act_of(f).expr, D(p), p.cur.pos.offset, dom(top(p)), mval(top(p)))
	owed noerrs(p)
	ensures [C16 C17 "rejected or not"] noerrs(p) ==> (err != nil) == aerr(f, D(p), p.cur.pos.offset, p.pt.offset)
	ensures [C16 C17 C18 "value of the match"] noerrs(p) && err == nil ==> aval(f, D(p), p.cur.pos.offset, p.pt.offset, v)
	ensures [C18 "token of the error"] is(err,*tokenError) ==> refof(err) != 0 && as(err,*tokenError).length == utf8.RuneCount(seq(p.cur.text))
	onpanic !noerrs(p)
	inv (vs []string, i int) noerrs(p) ==> seq(vs) == fsegs(D(p), p.cur.pos.offset, i) && len(vs) == i + 1
	inv (vs []ast.Val, i int) noerrs(p) ==> len(vs) == i + 1 && rv("Value", D(p), vfirst(D(p), p.cur.pos.offset), vs[0]) && restv(D(p), vrest(D(p), p.cur.pos.offset), seq(vs), i)
	inv (vs []ast.Val) noerrs(p) ==> (forall j int :: {vs[j]} 0 <= j && j < len(vs) ==> wfval(vs[j]))
}

// ---- values of the rules ----------------------------------------------------

lemma v_quoted [C16 C17] uses g : forall d seq int, o int, v any :: {rv("QuotedValue", d, o, v)}
	rv("QuotedValue", d, o, v) ==> is(v,*ast.StringVal) && strlit(as(v,*ast.StringVal), strconv.Unquote(opword("QuotedValue", d, o)), tpos(d, o, re("QuotedValue", d, o)))
lemma v_quotedpiece [C16] uses g : forall d seq int, o int, v any :: {rv("QuotedFieldPiece", d, o, v)}
	rk("QuotedFieldPiece", d, o) == rk("QuotedValue", d, o) && re("QuotedFieldPiece", d, o) == re("QuotedValue", d, o)
	&& (rv("QuotedFieldPiece", d, o, v) ==> is(v,string) && as(v,string) == strconv.Unquote(opword("QuotedValue", d, o)))
lemma v_unquotedpiece [C16] uses g : forall d seq int, o int, v any :: {rv("UnquotedFieldPiece", d, o, v)}
	rv("UnquotedFieldPiece", d, o, v) ==> is(v,string) && as(v,string) == opword("UnquotedFieldPiece", d, o)
lemma v_star [C16] uses g : forall d seq int, o int, v any :: {rv("Star", d, o, v)} rv("Star", d, o, v) ==> is(v,string) && as(v,string) == "*"
lemma v_piece [C16] uses g, v_quotedpiece, v_unquotedpiece, v_star : forall d seq int, o int, v any :: {rv("FieldPiece", d, o, v)}
	rv("FieldPiece", d, o, v) ==> is(v,string) && as(v,string) == fseg(d, o)
lemma v_fpiece [C16] uses g, v_piece : forall d seq int, e int, v any :: {pv(fx(), d, e, v)}
	pv(fx(), d, e, v) && pok(fx(), d, e) ==> is(v,[]any) && len(as(v,[]any)) == 2 && is(as(v,[]any)[1],string) && as(as(v,[]any)[1],string) == fseg(d, nx(d, e))
lemma v_vrest [C16] uses g : forall d seq int, e int, v any :: {pv(vx(), d, e, v)}
	pv(vx(), d, e, v) && pok(vx(), d, e) ==> is(v,[]any) && len(as(v,[]any)) == 4 && rv("Value", d, vnext(d, e), as(v,[]any)[3])
lemma v_field [C16] uses g : forall d seq int, o int, v any :: {rv("Field", d, o, v)} rv("Field", d, o, v) ==> seq(as(v,[]string)) == fieldpath(d, o)
lemma k_ws [C16] uses g : forall d seq int, o int :: {rk("_", d, o)} {re("_", d, o)} rk("_", d, o)
lemma v_values [C16] uses g, k_ws : forall d seq int, o int, v any :: {rv("ValueList", d, o, v)} rv("ValueList", d, o, v) ==> valuelist(d, o, seq(as(v,[]ast.Val)))
lemma v_noargs [C16] uses g : forall d seq int, o int, v any :: {rv("opNoArgs", d, o, v)} rv("opNoArgs", d, o, v) ==> as(v,ast.Op) == noargop(opword("opNoArgs", d, o))
lemma v_comp [C16] uses g : forall d seq int, o int, v any :: {rv("opComp", d, o, v)} rv("opComp", d, o, v) ==> as(v,ast.Op) == compop(opword("opComp", d, o))

// repetitions do not go back
def rxx() any = as(as(as(as(rule_of("RegexValue").expr,*recoveryExpr).expr,*actionExpr).expr,*seqExpr).exprs[1],*zeroOrMoreExpr).expr
def ux() any = as(as(as(rule_of("Value").expr,*choiceExpr).alternatives[1],*actionExpr).expr,*oneOrMoreExpr).expr
lemma regexescape [C16] uses g : forall d seq int, o int :: {rk("RegexEscape", d, o)} 0 <= o ==> (rk("RegexEscape", d, o) ==> o < len(d) && re("RegexEscape", d, o) == o + rw(d, o))
lemma regexchar [C16] uses g, regexescape : forall d seq int, o int :: {rk("RegexChar", d, o)} 0 <= o ==> (rk("RegexChar", d, o) ==> o < len(d) && re("RegexChar", d, o) > o && re("RegexChar", d, o) <= len(d))
lemma star_regex [C16] induct (len(d) - o) uses g, regexchar : forall d seq int, o int :: {starend(rxx(), d, o)} 0 <= o && o <= len(d) ==> starend(rxx(), d, o) >= o && starend(rxx(), d, o) <= len(d)
lemma star_unknown [C16] induct (len(d) - o) uses g : forall d seq int, o int :: {starend(ux(), d, o)} 0 <= o && o <= len(d) ==> starend(ux(), d, o) >= o && starend(ux(), d, o) <= len(d)

// the text of tokens
def rgx() any = as(as(rule_of("RegexValue").expr,*recoveryExpr).expr,*actionExpr).expr
def ukx() any = as(as(rule_of("Value").expr,*choiceExpr).alternatives[1],*actionExpr).expr
def nax() any = as(rule_of("opNoArgs").expr,*actionExpr).expr
def opx() any = as(rule_of("opComp").expr,*actionExpr).expr
def bx() any = as(rule_of("BoolValue").expr,*actionExpr).expr
lemma lit_text [C16] induct (len(s) - k) : forall s string, k int, d seq int, o int :: {litok(s, k, false, d, o)}
	0 <= k && k <= len(s) && 0 <= o && o <= len(d) && (forall i int :: {s[i]} 0 <= i && i < len(s) ==> 0 <= s[i] && s[i] < 128) && litok(s, k, false, d, o)
	==> litend(s, k, d, o) == o + len(s) - k && o + len(s) - k <= len(d) && d[o:o + len(s) - k] == s[k:]
lemma star_unknown1 [C16] uses g, star_unknown : forall d seq int, o int :: {starend(ux(), d, o)} 0 <= o && o <= len(d) && pok(ux(), d, o) ==> starend(ux(), d, o) > o
lemma unknown_text [C16] uses g, star_unknown1 : forall d seq int, o int :: {pok(ukx(), d, o)} 0 <= o && o <= len(d) && pok(ukx(), d, o) ==> pend(ukx(), d, o) > o
lemma endingslash [C16] uses g : forall d seq int, o int :: {rk("EndingSlash", d, o)} rk("EndingSlash", d, o) && !rx("EndingSlash", d, o) ==> rn(d, o) == 47 && re("EndingSlash", d, o) == o + rw(d, o)
lemma regex_text [C16] uses g, star_regex, endingslash : forall d seq int, o int :: {pok(rgx(), d, o)} 0 <= o && o <= len(d) && pok(rgx(), d, o) && !perr(rgx(), d, o) ==> slashed(tok(d, o, pend(rgx(), d, o)))
lemma noargs_text [C16] uses g : forall d seq int, o int :: {pok(nax(), d, o)} 0 <= o && o <= len(d) && pok(nax(), d, o) ==> tok(d, o, pend(nax(), d, o)) == (rn(d, o) == 101 ? "exists" : "null")
lemma bool_text [C16] uses g : forall d seq int, o int :: {pok(bx(), d, o)} 0 <= o && o <= len(d) && pok(bx(), d, o) ==> tok(d, o, pend(bx(), d, o)) == (rn(d, o) == 102 ? "false" : "true")
lemma comp_text [C16] uses g : forall d seq int, o int :: {pok(opx(), d, o)} 0 <= o && o <= len(d) && pok(opx(), d, o) ==> tok(d, o, pend(opx(), d, o)) ==
	(rn(d, o) == 126 ? "~" : rn(d, o) == 60 ? (rn(d, nx(d, o)) == 61 ? "<=" : "<") : rn(d, nx(d, o)) == 60 ? "><" : rn(d, nx(d, o)) == 61 ? ">=" : ">")
