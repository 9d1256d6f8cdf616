// What the values of a query denote (C17) and where they are (C18).
package "github.com/flowchartsman/aql/parser/ast"

default nopanic C10

axiom hasprefix1 : forall s string, p string :: {strings.HasPrefix(s, p)} len(p) == 1 ==> strings.HasPrefix(s, p) == (len(s) >= 1 && s[0] == p[0])
axiom hassuffix1 : forall s string, p string :: {strings.HasSuffix(s, p)} len(p) == 1 ==> strings.HasSuffix(s, p) == (len(s) >= 1 && s[len(s)-1] == p[0])
axiom trimprefix1 : forall s string, p string :: {strings.TrimPrefix(s, p)} len(p) == 1 ==> strings.TrimPrefix(s, p) == (len(s) >= 1 && s[0] == p[0] ? s[1:] : s)
axiom trimsuffix1 : forall s string, p string :: {strings.TrimSuffix(s, p)} len(p) == 1 ==> strings.TrimSuffix(s, p) == (len(s) >= 1 && s[len(s)-1] == p[0] ? s[:len(s)-1] : s)
axiom lower_true : strings.ToLower("true") == "true" && strings.ToLower("false") == "false"
axiom parsebool_true : strconv.ParseBool("true") && strconv.ParseBool$1("true") == nil
axiom parsebool_false : !strconv.ParseBool("false") && strconv.ParseBool$1("false") == nil
axiom compile_ok : forall s string :: {regexp.Compile(s)} regexp.Compile$1(s) == nil ==> regexp.Compile(s) != nil

// ---- literals --------------------------------------------------------------

def intlit(v *IntVal, t string, p Pos) bool = v != nil && v.iv == strconv.ParseInt(t, 10, 64) && v.sv == t && v.pos == p
def fltlit(v *FloatVal, t string, p Pos) bool = v != nil && v.fv == strconv.ParseFloat(t, 64) && v.pos == p
def strlit(v *StringVal, t string, p Pos) bool = v != nil && v.sv == t && v.qsv == strconv.Quote(t) && v.pos == p
def boollit(v *BoolVal, t string, p Pos) bool = v != nil && v.pos == p && v.sv == (v.bv ? "true" : "false") && (t == "true" ==> v.bv) && (t == "false" ==> !v.bv)
def relit(v *RegexpVal, t string, p Pos) bool = v != nil && v.pos == p && v.sv == t && v.rv == regexp.Compile(retext(t))
def netlit(v *NetVal, t string, p Pos) bool = v != nil && v.pos == p && v.nv == netip.ParsePrefix(nettext(t)) && v.sv == nettext(t)
def timelit(v *TimeVal, t string, p Pos) bool = v != nil && v.pos == p && v.sv == t && v.dayOnly == (len(t) == 10) && v.tv == time.Parse(timelayout(t), t)

// a regular expression is what stands between the slashes
def slashed(t string) bool = len(t) >= 2 && t[0] == 47 && t[len(t)-1] == 47
def retext(t string) string = t[1:len(t)-1]
def nettext(t string) string = strings.Contains(t, "/") ? t : t ++ "/32"
def timelayout(t string) string = len(t) == 10 ? "2006-01-02" : "2006-01-02T15:04:05Z07:00"

func NewIntVal(b, pos)(v, err) {
	tags C17
	ensures [C17 "rejected iff not an integer of 64 bits"] (err == nil) == (strconv.ParseInt$1(seq(b), 10, 64) == nil)
	ensures [C17 C18 C25 "integer"] err == nil ==> intlit(v, seq(b), pos)
	ensures [C18 "no token of its own"] !is(err,*grammar.tokenError)
}

func NewFloatVal(b, pos)(v, err) {
	tags C17
	ensures [C17 "rejected iff not a number"] (err == nil) == (strconv.ParseFloat$1(seq(b), 64) == nil && !isNaN(strconv.ParseFloat(seq(b), 64)))
	ensures [C17 C18 C25 "floating-point number"] err == nil ==> fltlit(v, seq(b), pos)
}

func NewStringVal(b, pos)(v, err) {
	tags C17
	ensures [C17 "accepted"] err == nil
	ensures [C17 C18 C25 "string"] strlit(v, seq(b), pos)
}

func NewBoolVal(b, pos)(v, err) {
	tags C17
	ensures [C17 "accepted"] seq(b) == "true" || seq(b) == "false" ==> err == nil
	ensures [C17 C18 C25 "boolean"] err == nil ==> boollit(v, seq(b), pos)
	ensures [C18 "no token of its own"] !is(err,*grammar.tokenError)
}

// what compiles is what the syntax package parses
axiom re_syntax : forall s string :: {regexp.Compile(s)} regexp.Compile$1(s) == nil ==> syntax.Parse$1(regexp.Regexp.String(regexp.Compile(s)), syntax.Perl) == nil

func NewRegexpVal(b, pos)(v, err) {
	tags C17
	ensures [C17 "rejected iff it does not compile"] slashed(seq(b)) ==> (err == nil) == (regexp.Compile$1(retext(seq(b))) == nil)
	ensures [C17 C18 C25 "regular expression"] err == nil && slashed(seq(b)) ==> relit(v, seq(b), pos)
	ensures err == nil ==> v != nil
}

func NewNetVal(b, pos)(v, err) {
	tags C17
	ensures [C17 "rejected iff not an address block"] (err == nil) == (netip.ParsePrefix$1(nettext(seq(b))) == nil)
	ensures [C17 C18 C25 "address block"] err == nil ==> netlit(v, seq(b), pos)
}

func NewTimeVal(b, pos)(v, err) {
	tags C17
	ensures [C17 "rejected iff not a time"] (err == nil) == (time.Parse$1(timelayout(seq(b)), seq(b)) == nil)
	ensures [C17 C18 C25 "time"] err == nil ==> timelit(v, seq(b), pos)
}
