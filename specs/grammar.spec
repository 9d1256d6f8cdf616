// The parser generated from the grammar: positions, errors and literals.
package "github.com/flowchartsman/aql/internal/grammar"

default nopanic C10

immutable parserError, tokenError

// ---- positions (C18) -------------------------------------------------------

def astpos(p position, n int) ast.Pos = mk(ast.Pos, p.line, p.col, p.offset, n)

func getpos(c)(r) {
	tags C18
	requires c != nil
	ensures [C18 "position of the match, length in characters"] r == astpos(c.pos, utf8.RuneCount(c.text))
}

func tokErr(pos, err)(r) {
	tags C18
	requires err != nil
	ensures [C18 "length of the token"] r != nil && r.length == pos.Len && r.err == err
}

func tokErrf(pos, msg, v)(r) {
	tags C18
	ensures [C18 "length of the token"] r != nil && r.length == pos.Len
}

invariant [C10 "cause present"] parserError(e) e.Inner != nil
invariant [C10 "cause present"] tokenError(e) e.err != nil

def okerr(err error) bool =
	err != nil && (is(err,errList) ==> len(as(err,errList)) > 0 && (is(as(err,errList)[0],*parserError) ==> refof(as(err,errList)[0]) != 0
		&& (is(perrof(err).Inner,*tokenError) ==> refof(perrof(err).Inner) != 0)))
def perrof(err error) *parserError = as(as(err,errList)[0],*parserError)
def isperr(err error) bool = is(err,errList) && is(as(err,errList)[0],*parserError)
def toklen(err error) int = is(err,*tokenError) ? as(err,*tokenError).length : 1

func GetParseError(err)(r) {
	tags C18
	requires okerr(err)
	ensures r != nil
	ensures [C18 "position of the first error"] isperr(err) ==> r.Position == astpos(perrof(err).pos, toklen(perrof(err).Inner))
}

// ---- fields (C16) ----------------------------------------------------------

// segments among the first n that are not stars
rec uns(ss seq string, n int) seq string =
	n <= 0 ? empty(string) : ss[n-1] == "*" ? uns(ss, n - 1) : uns(ss, n - 1) ++ unit(ss[n-1])

lemma uns_del1 [C16] induct (m) : forall ss seq string, i int, m int :: {uns(ss[:i] ++ ss[i+1:], m)} 0 <= m && m <= i && i < len(ss) ==> uns(ss[:i] ++ ss[i+1:], m) == uns(ss, m)
lemma uns_del [C16] induct (m - i) uses uns_del1 : forall ss seq string, i int, m int :: {uns(ss[:i] ++ ss[i+1:], m)} 0 <= i && i <= m && m < len(ss) && ss[i] == "*" ==> uns(ss[:i] ++ ss[i+1:], m) == uns(ss, m + 1)
lemma uns_none [C16] induct (n) : forall ss seq string, n int :: {uns(ss, n)} 0 <= n && n <= len(ss) && (forall i int :: {ss[i]} 0 <= i && i < n ==> ss[i] != "*") ==> uns(ss, n) == ss[:n]

func findStarIdx(ss)(i) {
	tags C16
	ensures [C16 "first star"] i >= 0 ==> i < len(ss) && ss[i] == "*"
	ensures [C16 "none left"] i < 0 ==> (forall j int :: {ss[j]} 0 <= j && j < len(ss) ==> ss[j] != "*")
	inv (n int) forall j int :: {ss[j]} 0 <= j && j < n ==> ss[j] != "*"
}

func removeStars(ss)(r) {
	tags C16
	uses uns_del, uns_none
	ensures [C16 "segments that are not stars, in order"] seq(r) == uns(ss, len(ss))
	inv (s []string) uns(s, len(s)) == uns(ss, len(ss))
}

// ---- text of errors (C25) ------------------------------------------------------

func ParseError.Error(p)(r) {
	tags C25
	requires p != nil
	ensures [C25 "text of an error"] r == strconv.Itoa(p.Position.Line) ++ ":" ++ strconv.Itoa(p.Position.Col) ++ "(" ++ strconv.Itoa(p.Position.Offset) ++ "): " ++ p.Msg
}
