// Syntax trees: what nodes and values are, when they are well formed, and the
// operand rules (C13) that operand validation enforces and the matcher relies on.
package "github.com/flowchartsman/aql/parser/ast"

default nopanic C10

immutable AndNode, OrNode, NotNode, SubdocNode, ExprNode
immutable IntVal, FloatVal, StringVal, BoolVal, RegexpVal, NetVal, TimeVal

// ---- well-formedness -------------------------------------------------------

def wfval(v Val) bool =
	(is(v,*IntVal) || is(v,*FloatVal) || is(v,*StringVal) || is(v,*BoolVal) || is(v,*RegexpVal) || is(v,*NetVal) || is(v,*TimeVal))
	&& refof(v) != 0

def wfnode(n Node) bool =
	(is(n,*AndNode) || is(n,*OrNode) || is(n,*NotNode) || is(n,*ExprNode)) && refof(n) != 0

def wfop(o Op) bool = o == EQ || o == LT || o == LTE || o == GT || o == GTE || o == BET || o == SIM || o == EXS || o == NUL

invariant [C10 C16 "operands are nodes"] AndNode(n) wfnode(n.Left) && wfnode(n.Right)
invariant [C10 C16 "operands are nodes"] OrNode(n) wfnode(n.Left) && wfnode(n.Right)
invariant [C10 C16 "operand is a node"] NotNode(n) wfnode(n.Expr)
invariant [C10 C16 "comparison has a field, an operator and values"] ExprNode(n)
	len(n.Field) >= 1 && wfop(n.Op) && (forall i int :: {n.RVals[i]} 0 <= i && i < len(n.RVals) ==> wfval(n.RVals[i]))
invariant [C10 C17 "compiled expression present"] RegexpVal(v) v.rv != nil && syntax.Parse$1(regexp.Regexp.String(v.rv), syntax.Perl) == nil
invariant [C03 C13 C17 "number is not NaN"] FloatVal(v) !isNaN(v.fv)

axiom i2f_nan : forall i int :: {i2f(i)} !isNaN(i2f(i))

// ---- values ----------------------------------------------------------------

def valtype(v Val) ValType =
	is(v,*IntVal) ? TypeInt : is(v,*FloatVal) ? TypeFloat : is(v,*StringVal) ? TypeString : is(v,*BoolVal) ? TypeBool
	: is(v,*RegexpVal) ? TypeRegex : is(v,*NetVal) ? TypeNet : TypeTime

def valstr(v Val) string =
	is(v,*IntVal) ? as(v,*IntVal).sv : is(v,*FloatVal) ? as(v,*FloatVal).sv : is(v,*StringVal) ? as(v,*StringVal).qsv
	: is(v,*BoolVal) ? as(v,*BoolVal).sv : is(v,*RegexpVal) ? as(v,*RegexpVal).sv : is(v,*NetVal) ? as(v,*NetVal).sv
	: as(v,*TimeVal).sv

def valpos(v Val) Pos =
	is(v,*IntVal) ? as(v,*IntVal).pos : is(v,*FloatVal) ? as(v,*FloatVal).pos : is(v,*StringVal) ? as(v,*StringVal).pos
	: is(v,*BoolVal) ? as(v,*BoolVal).pos : is(v,*RegexpVal) ? as(v,*RegexpVal).pos : is(v,*NetVal) ? as(v,*NetVal).pos
	: as(v,*TimeVal).pos

// number of an integer or floating literal, as a 64-bit float
def numval(v Val) float64 = is(v,*FloatVal) ? as(v,*FloatVal).fv : i2f(as(v,*IntVal).iv)

def isnumv(v Val) bool = is(v,*IntVal) || is(v,*FloatVal)

iface Val.Type(v)(r) {
	tags C13
	requires wfval(v)
	ensures r == valtype(v)
}

iface Val.String(v)(r) {
	tags C13 C25
	requires wfval(v)
	ensures r == valstr(v) && r == valkey(v)
}

iface Val.Pos(v)(r) {
	tags C13 C18
	requires wfval(v)
	ensures r == valpos(v)
}

// ---- operand rules (C13) ---------------------------------------------------

def nodup(vs seq Val) bool =
	forall i int, j int :: {valkey(vs[i]), valkey(vs[j])} 0 <= i && i < j && j < len(vs) ==> valkey(vs[i]) != valkey(vs[j])

rec valkey(v Val) string = valstr(v)

def noconflict(vs seq Val) bool =
	forall i int, j int :: {valkey(vs[i]), valkey(vs[j])} 0 <= i && i < len(vs) && 0 <= j && j < len(vs) ==> !(valkey(vs[i]) == "true" && valkey(vs[j]) == "false")

def allsim(vs seq Val) bool =
	forall i int :: {vs[i]} 0 <= i && i < len(vs) ==> is(vs[i],*StringVal) || is(vs[i],*RegexpVal) || is(vs[i],*BoolVal)

def okcmp(o Op, vs seq Val) bool =
	(o == EXS || o == NUL ? len(vs) == 0
	: o == LT || o == LTE || o == GT || o == GTE ? len(vs) == 1 && (isnumv(vs[0]) || is(vs[0],*TimeVal))
	: o == BET ? len(vs) == 2
		&& (is(vs[0],*TimeVal) && is(vs[1],*TimeVal) && as(vs[0],*TimeVal).tv < as(vs[1],*TimeVal).tv
			|| isnumv(vs[0]) && isnumv(vs[1]) && numval(vs[0]) < numval(vs[1]))
	: o == SIM ? len(vs) >= 1 && allsim(vs)
	: len(vs) >= 1 && (len(vs) > 1 ==> noconflict(vs)))
	&& nodup(vs)

rec okast(n Node) bool depth 1 =
	is(n,*AndNode) ? okast(as(n,*AndNode).Left) && okast(as(n,*AndNode).Right)
	: is(n,*OrNode) ? okast(as(n,*OrNode).Left) && okast(as(n,*OrNode).Right)
	: is(n,*NotNode) ? okast(as(n,*NotNode).Expr)
	: okcmp(as(n,*ExprNode).Op, as(n,*ExprNode).RVals)

// ---- printed forms (C25) -----------------------------------------------------

// texts joined with a separator
rec joined(ss seq string, sep string, k int) string =
	k <= 0 ? "" : joined(ss, sep, k - 1) ++ (k > 1 ? sep : "") ++ ss[k - 1]
axiom join_def : forall ss seq string, sep string :: {strings.Join(ss, sep)} strings.Join(ss, sep) == joined(ss, sep, len(ss))
lemma join_app [C25] induct (k) : forall ss seq string, s string, sep string, k int :: {joined(ss ++ unit(s), sep, k)}
	k <= len(ss) ==> joined(ss ++ unit(s), sep, k) == joined(ss, sep, k)

// names joined with dots, quoted where they would not be read back as one
def parttext(p string) string = strings.ContainsAny(p, " .\"") ? strconv.Quote(p) : p
rec fieldtext(ps seq string, k int) string =
	k <= 0 ? "" : fieldtext(ps, k - 1) ++ (k > 1 ? "." : "") ++ parttext(ps[k - 1])
rec valtexts(vs seq Val, sep string, k int) string =
	k <= 0 ? "" : valtexts(vs, sep, k - 1) ++ (k > 1 ? sep : "") ++ valkey(vs[k - 1])

// the same with the separator behind each but the last
rec fieldpost(ps seq string, k int) string =
	k <= 0 ? "" : fieldpost(ps, k - 1) ++ parttext(ps[k - 1]) ++ (k < len(ps) ? "." : "")
rec valposts(vs seq Val, sep string, k int) string =
	k <= 0 ? "" : valposts(vs, sep, k - 1) ++ valkey(vs[k - 1]) ++ (k < len(vs) ? sep : "")
lemma field_post [C25] induct (k) : forall ps seq string, k int :: {fieldpost(ps, k)}
	k <= len(ps) ==> fieldpost(ps, k) == fieldtext(ps, k) ++ (0 < k && k < len(ps) ? "." : "")
lemma val_post [C25] induct (k) : forall vs seq Val, sep string, k int :: {valposts(vs, sep, k)}
	k <= len(vs) ==> valposts(vs, sep, k) == valtexts(vs, sep, k) ++ (0 < k && k < len(vs) ? sep : "")

def cmptext(e *ExprNode) string =
	"(" ++ e.Op ++ " " ++ fieldtext(e.Field, len(e.Field))
	++ (len(e.RVals) == 0 ? "" : len(e.RVals) == 1 ? " " ++ valkey(e.RVals[0]) : " [" ++ valtexts(e.RVals, ", ", len(e.RVals)) ++ "]")
	++ ")"
def friendly(e *ExprNode) string =
	fieldtext(e.Field, len(e.Field)) ++ ":" ++ (e.Op == EQ ? "" : e.Op) ++ " "
	++ (len(e.RVals) == 0 ? "" : len(e.RVals) == 1 ? valkey(e.RVals[0]) : "(" ++ valtexts(e.RVals, ",", len(e.RVals)) ++ ")")

rec nodetext(n Node) string depth 1 =
	is(n,*AndNode) ? "(&& " ++ nodetext(as(n,*AndNode).Left) ++ " " ++ nodetext(as(n,*AndNode).Right) ++ ")"
	: is(n,*OrNode) ? "(|| " ++ nodetext(as(n,*OrNode).Left) ++ " " ++ nodetext(as(n,*OrNode).Right) ++ ")"
	: is(n,*NotNode) ? "(! " ++ nodetext(as(n,*NotNode).Expr) ++ ")"
	: cmptext(as(n,*ExprNode))

iface Node.String(n)(r) {
	tags C25
	uses val_post, join_app
	requires wfnode(n)
	inv (sb strings.Builder, i int) is(n,*ExprNode) ==> sb == entry(sb) ++ valposts(as(n,*ExprNode).RVals, ", ", i)
	inv (sb strings.Builder, i int) is(n,*ExprNode) ==> sb == entry(sb) ++ valtexts(as(n,*ExprNode).RVals, ", ", i)
	inv (out seq string, i int) is(n,*ExprNode) ==> len(out) == i && joined(out, ", ", i) == valtexts(as(n,*ExprNode).RVals, ", ", i)
	ensures [C25 "text of the tree"] r == nodetext(n)
}

func ExprNode.FriendlyString(e)(r) {
	tags C25
	uses val_post, join_app
	requires e != nil
	inv (sb strings.Builder, i int) sb == entry(sb) ++ valposts(e.RVals, ",", i)
	inv (sb strings.Builder, i int) sb == entry(sb) ++ valtexts(e.RVals, ",", i)
	inv (out seq string, i int) len(out) == i && joined(out, ",", i) == valtexts(e.RVals, ",", i)
	ensures [C25 "text of the comparison"] r == friendly(e)
}
func FieldString(p)(r) {
	tags C25
	uses field_post, join_app
	inv (sb strings.Builder, i int) sb == fieldpost(p, i)
	inv (sb strings.Builder, i int) sb == fieldtext(p, i)
	inv (out seq string, i int) len(out) == i && joined(out, ".", i) == fieldtext(p, i)
	ensures [C25 "text of the field"] r == fieldtext(p, len(p))
}
