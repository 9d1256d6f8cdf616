// The query language, rule by rule: which texts a rule recognises (rk), where the
// match ends (re), which are rejected (rx) and what the value is (rv), in terms of
// characters and other rules, without the table.
package "github.com/flowchartsman/aql/internal/grammar"

// ---- characters -------------------------------------------------------------

def ch(d seq int, o int, c int) bool = rn(d, o) == c
def isws(d seq int, o int) bool = rn(d, o) == 32 || rn(d, o) == 10 || rn(d, o) == 9 || rn(d, o) == 13
def dg(d seq int, o int) bool = 48 <= rn(d, o) && rn(d, o) <= 57
def hexlow(r int) bool = 48 <= r && r <= 57 || 97 <= r && r <= 102
def hex(d seq int, o int) bool = o < len(d) && hexlow(unicode.ToLower(rn(d, o)))
def idlow(r int) bool = r == 95 || r == 45 || 97 <= r && r <= 122 || 48 <= r && r <= 57
def idch(d seq int, o int) bool = o < len(d) && idlow(unicode.ToLower(rn(d, o)))

rec wsend(d seq int, o int) int depth 1 = isws(d, o) ? wsend(d, o + 1) : o
rec dgend(d seq int, o int) int depth 1 = dg(d, o) ? dgend(d, o + 1) : o
rec idend(d seq int, o int) int depth 1 = idch(d, o) ? idend(d, nx(d, o)) : o

def in(d seq int, o int) bool = 0 <= o && o <= len(d)

lemma wsend_fwd [C16] induct (len(d) - o) : forall d seq int, o int :: {wsend(d, o)} in(d, o) ==> o <= wsend(d, o) && wsend(d, o) <= len(d) && !isws(d, wsend(d, o))
lemma dgend_fwd [C16] induct (len(d) - o) : forall d seq int, o int :: {dgend(d, o)} in(d, o) ==> o <= dgend(d, o) && dgend(d, o) <= len(d) && !dg(d, dgend(d, o))
lemma idend_fwd [C16] induct (len(d) - o) : forall d seq int, o int :: {idend(d, o)} in(d, o) ==> o <= idend(d, o) && idend(d, o) <= len(d)

// ---- white space and end ----------------------------------------------------

def wsx() any = as(rule_of("_").expr,*zeroOrMoreExpr).expr
def spx() any = as(rule_of("space").expr,*oneOrMoreExpr).expr
lemma star_ws [C16] induct (len(d) - o) uses g : forall d seq int, o int :: {starend(wsx(), d, o)} {starerr(wsx(), d, o)} in(d, o) ==> starend(wsx(), d, o) == wsend(d, o) && !starerr(wsx(), d, o)
lemma star_space [C16] induct (len(d) - o) uses g : forall d seq int, o int :: {starend(spx(), d, o)} {starerr(spx(), d, o)} in(d, o) ==> starend(spx(), d, o) == wsend(d, o) && !starerr(spx(), d, o)
lemma lang_ws [C16 "white space"] uses g, star_ws : forall d seq int, o int :: {rk("_", d, o)} {re("_", d, o)} {rx("_", d, o)} in(d, o) ==> rk("_", d, o) && !rx("_", d, o) && re("_", d, o) == wsend(d, o)
lemma lang_space [C16 "separating white space"] uses g, star_space : forall d seq int, o int :: {rk("space", d, o)} {re("space", d, o)} {rx("space", d, o)} in(d, o) ==> rk("space", d, o) == isws(d, o) && !rx("space", d, o) && re("space", d, o) == wsend(d, o)
lemma lang_eof [C16 "end of the query"] uses g : forall d seq int, o int :: {rk("EOF", d, o)} {re("EOF", d, o)} {rx("EOF", d, o)} in(d, o) ==> rk("EOF", d, o) == (o == len(d)) && !rx("EOF", d, o) && re("EOF", d, o) == o
lemma lang_eol [C16 "end of a line"] uses g : forall d seq int, o int :: {rk("EOL", d, o)} {re("EOL", d, o)} {rx("EOL", d, o)} in(d, o) ==> rk("EOL", d, o) == ch(d, o, 10) && !rx("EOL", d, o) && (ch(d, o, 10) ==> re("EOL", d, o) == o + 1)

// ---- logical operators ------------------------------------------------------

lemma lang_lor [C16 "OR"] uses g : forall d seq int, o int :: {rk("logicalOR", d, o)} {re("logicalOR", d, o)} {rx("logicalOR", d, o)} in(d, o) ==>
	rk("logicalOR", d, o) == (ch(d, o, 79) && ch(d, o + 1, 82)) && !rx("logicalOR", d, o) && (rk("logicalOR", d, o) ==> re("logicalOR", d, o) == o + 2)
lemma lang_land [C16 "AND"] uses g : forall d seq int, o int :: {rk("logicalAND", d, o)} {re("logicalAND", d, o)} {rx("logicalAND", d, o)} in(d, o) ==>
	rk("logicalAND", d, o) == (ch(d, o, 65) && ch(d, o + 1, 78) && ch(d, o + 2, 68)) && !rx("logicalAND", d, o) && (rk("logicalAND", d, o) ==> re("logicalAND", d, o) == o + 3)
def nots(d seq int, o int) bool = ch(d, o, 78) && ch(d, o + 1, 79) && ch(d, o + 2, 84) && isws(d, o + 3)
lemma lang_lnot [C16 "NOT"] uses g, lang_space : forall d seq int, o int :: {rk("logicalNOT", d, o)} {re("logicalNOT", d, o)} {rx("logicalNOT", d, o)} in(d, o) ==>
	rk("logicalNOT", d, o) == (nots(d, o) || ch(d, o, 33)) && !rx("logicalNOT", d, o)
	&& (rk("logicalNOT", d, o) ==> re("logicalNOT", d, o) == (nots(d, o) ? wsend(d, o + 3) : wsend(d, o + 1)))

// ---- operators of comparisons -----------------------------------------------

def isexists(d seq int, o int) bool = ch(d, o, 101) && ch(d, o + 1, 120) && ch(d, o + 2, 105) && ch(d, o + 3, 115) && ch(d, o + 4, 116) && ch(d, o + 5, 115)
def isnull(d seq int, o int) bool = ch(d, o, 110) && ch(d, o + 1, 117) && ch(d, o + 2, 108) && ch(d, o + 3, 108)
lemma lang_noargs [C16 "exists and null"] uses g : forall d seq int, o int :: {rk("opNoArgs", d, o)} {re("opNoArgs", d, o)} {rx("opNoArgs", d, o)} in(d, o) ==>
	rk("opNoArgs", d, o) == (isexists(d, o) || isnull(d, o)) && !rx("opNoArgs", d, o)
	&& (rk("opNoArgs", d, o) ==> re("opNoArgs", d, o) == (isexists(d, o) ? o + 6 : o + 4))
def isbet(d seq int, o int) bool = ch(d, o, 62) && ch(d, o + 1, 60)
lemma lang_comp [C16 "operators with values"] uses g : forall d seq int, o int :: {rk("opComp", d, o)} {re("opComp", d, o)} {rx("opComp", d, o)} in(d, o) ==>
	rk("opComp", d, o) == (ch(d, o, 126) || ch(d, o, 60) || ch(d, o, 62)) && !rx("opComp", d, o)
	&& (rk("opComp", d, o) ==> re("opComp", d, o) == (isbet(d, o) || !ch(d, o, 126) && ch(d, o + 1, 61) ? o + 2 : o + 1))
def opnamed(v any, d seq int, o int) bool = is(v,ast.Op) && as(v,ast.Op) ==
	(ch(d, o, 126) ? ast.SIM : ch(d, o, 60) ? (ch(d, o + 1, 61) ? ast.LTE : ast.LT) : ch(d, o + 1, 60) ? ast.BET : ch(d, o + 1, 61) ? ast.GTE : ast.GT)

// ---- literals ---------------------------------------------------------------

def istrue(d seq int, o int) bool = ch(d, o, 116) && ch(d, o + 1, 114) && ch(d, o + 2, 117) && ch(d, o + 3, 101)
def isfalse(d seq int, o int) bool = ch(d, o, 102) && ch(d, o + 1, 97) && ch(d, o + 2, 108) && ch(d, o + 3, 115) && ch(d, o + 4, 101)
lemma lang_bool [C16 C17 "booleans"] uses g : forall d seq int, o int :: {rk("BoolValue", d, o)} {re("BoolValue", d, o)} {rx("BoolValue", d, o)} in(d, o) ==>
	rk("BoolValue", d, o) == (isfalse(d, o) || istrue(d, o)) && !rx("BoolValue", d, o)
	&& (rk("BoolValue", d, o) ==> re("BoolValue", d, o) == (isfalse(d, o) ? o + 5 : o + 4))

def sgn(d seq int, o int) int = ch(d, o, 45) ? o + 1 : o
def intx() any = as(as(as(rule_of("IntValue").expr,*actionExpr).expr,*seqExpr).exprs[1],*oneOrMoreExpr).expr
def fltx1() any = as(as(as(rule_of("FloatValue").expr,*actionExpr).expr,*seqExpr).exprs[1],*oneOrMoreExpr).expr
def fltx2() any = as(as(as(rule_of("FloatValue").expr,*actionExpr).expr,*seqExpr).exprs[3],*oneOrMoreExpr).expr
lemma star_int [C16] induct (len(d) - o) uses g : forall d seq int, o int :: {starend(intx(), d, o)} {starerr(intx(), d, o)} in(d, o) ==> starend(intx(), d, o) == dgend(d, o) && !starerr(intx(), d, o)
lemma star_flt1 [C16] induct (len(d) - o) uses g : forall d seq int, o int :: {starend(fltx1(), d, o)} {starerr(fltx1(), d, o)} in(d, o) ==> starend(fltx1(), d, o) == dgend(d, o) && !starerr(fltx1(), d, o)
lemma star_flt2 [C16] induct (len(d) - o) uses g : forall d seq int, o int :: {starend(fltx2(), d, o)} {starerr(fltx2(), d, o)} in(d, o) ==> starend(fltx2(), d, o) == dgend(d, o) && !starerr(fltx2(), d, o)
lemma lang_int [C16 C17 "integers"] uses g, star_int : forall d seq int, o int :: {rk("IntValue", d, o)} {re("IntValue", d, o)} {rx("IntValue", d, o)} in(d, o) ==>
	rk("IntValue", d, o) == dg(d, sgn(d, o))
	&& (rk("IntValue", d, o) ==> re("IntValue", d, o) == dgend(d, sgn(d, o)))
	&& rx("IntValue", d, o) == (rk("IntValue", d, o) && strconv.ParseInt$1(opword("IntValue", d, o), 10, 64) != nil)
def point(d seq int, o int) int = dgend(d, sgn(d, o))
lemma lang_float [C16 C17 "fractions"] uses g, star_flt1, star_flt2, dgend_fwd : forall d seq int, o int :: {rk("FloatValue", d, o)} {re("FloatValue", d, o)} {rx("FloatValue", d, o)} in(d, o) ==>
	rk("FloatValue", d, o) == (dg(d, sgn(d, o)) && ch(d, point(d, o), 46) && dg(d, point(d, o) + 1))
	&& (rk("FloatValue", d, o) ==> re("FloatValue", d, o) == dgend(d, point(d, o) + 1))
	&& rx("FloatValue", d, o) == (rk("FloatValue", d, o) && !(strconv.ParseFloat$1(opword("FloatValue", d, o), 64) == nil && !isNaN(strconv.ParseFloat(opword("FloatValue", d, o), 64))))

def octend(d seq int, o int) int = !dg(d, o + 1) ? o + 1 : !dg(d, o + 2) ? o + 2 : o + 3
lemma lang_octet [C16 C17 "up to three digits"] uses g : forall d seq int, o int :: {rk("Octet", d, o)} {re("Octet", d, o)} {rx("Octet", d, o)} in(d, o) ==>
	rk("Octet", d, o) == dg(d, o) && !rx("Octet", d, o) && (dg(d, o) ==> re("Octet", d, o) == octend(d, o))
lemma lang_cidr [C16 C17 "prefix length"] uses g : forall d seq int, o int :: {rk("CIDRBlock", d, o)} {re("CIDRBlock", d, o)} {rx("CIDRBlock", d, o)} in(d, o) ==>
	rk("CIDRBlock", d, o) == (ch(d, o, 47) && dg(d, o + 1)) && !rx("CIDRBlock", d, o) && (rk("CIDRBlock", d, o) ==> re("CIDRBlock", d, o) == (dg(d, o + 2) ? o + 3 : o + 2))
def octp(d seq int, o int) bool = dg(d, o) && ch(d, octend(d, o), 46)
def oct2(d seq int, o int) int = octend(d, o) + 1
def oct3(d seq int, o int) int = oct2(d, oct2(d, o))
def oct4(d seq int, o int) int = oct2(d, oct3(d, o))
lemma lang_ip [C16 C17 "addresses and blocks"] uses g, lang_octet, lang_cidr : forall d seq int, o int :: {rk("IPValue", d, o)} {re("IPValue", d, o)} {rx("IPValue", d, o)} in(d, o) ==>
	rk("IPValue", d, o) == (octp(d, o) && octp(d, oct2(d, o)) && octp(d, oct3(d, o)) && dg(d, oct4(d, o)))
	&& (rk("IPValue", d, o) ==> re("IPValue", d, o) == (rk("CIDRBlock", d, octend(d, oct4(d, o))) ? re("CIDRBlock", d, octend(d, oct4(d, o))) : octend(d, oct4(d, o))))
	&& rx("IPValue", d, o) == (rk("IPValue", d, o) && netip.ParsePrefix$1(nettext(opword("IPValue", d, o))) != nil)

def dg2(d seq int, o int) bool = dg(d, o) && dg(d, o + 1)
lemma lang_digit2 [C16 C17 "two digits"] uses g : forall d seq int, o int :: {rk("Digit2", d, o)} {re("Digit2", d, o)} {rx("Digit2", d, o)} in(d, o) ==>
	rk("Digit2", d, o) == dg2(d, o) && !rx("Digit2", d, o) && (dg2(d, o) ==> re("Digit2", d, o) == o + 2)
lemma lang_digit4 [C16 C17 "four digits"] uses g : forall d seq int, o int :: {rk("Digit4", d, o)} {re("Digit4", d, o)} {rx("Digit4", d, o)} in(d, o) ==>
	rk("Digit4", d, o) == (dg2(d, o) && dg2(d, o + 2)) && !rx("Digit4", d, o) && (rk("Digit4", d, o) ==> re("Digit4", d, o) == o + 4)
lemma lang_year [C16 C17 "year"] uses g, lang_digit4 : forall d seq int, o int :: {rk("dateFullyear", d, o)} {re("dateFullyear", d, o)} {rx("dateFullyear", d, o)} in(d, o) ==>
	rk("dateFullyear", d, o) == (dg2(d, o) && dg2(d, o + 2)) && !rx("dateFullyear", d, o) && (rk("dateFullyear", d, o) ==> re("dateFullyear", d, o) == o + 4)
lemma lang_month [C16 C17 "month"] uses g, lang_digit2 : forall d seq int, o int :: {rk("dateMonth", d, o)} {re("dateMonth", d, o)} {rx("dateMonth", d, o)} in(d, o) ==>
	rk("dateMonth", d, o) == dg2(d, o) && !rx("dateMonth", d, o) && (dg2(d, o) ==> re("dateMonth", d, o) == o + 2)
lemma lang_mday [C16 C17 "day"] uses g, lang_digit2 : forall d seq int, o int :: {rk("dateMday", d, o)} {re("dateMday", d, o)} {rx("dateMday", d, o)} in(d, o) ==>
	rk("dateMday", d, o) == dg2(d, o) && !rx("dateMday", d, o) && (dg2(d, o) ==> re("dateMday", d, o) == o + 2)
lemma lang_hour [C16 C17 "hour"] uses g, lang_digit2 : forall d seq int, o int :: {rk("timeHour", d, o)} {re("timeHour", d, o)} {rx("timeHour", d, o)} in(d, o) ==>
	rk("timeHour", d, o) == dg2(d, o) && !rx("timeHour", d, o) && (dg2(d, o) ==> re("timeHour", d, o) == o + 2)
lemma lang_minute [C16 C17 "minute"] uses g, lang_digit2 : forall d seq int, o int :: {rk("timeMinute", d, o)} {re("timeMinute", d, o)} {rx("timeMinute", d, o)} in(d, o) ==>
	rk("timeMinute", d, o) == dg2(d, o) && !rx("timeMinute", d, o) && (dg2(d, o) ==> re("timeMinute", d, o) == o + 2)
lemma lang_second [C16 C17 "second"] uses g, lang_digit2 : forall d seq int, o int :: {rk("timeSecond", d, o)} {re("timeSecond", d, o)} {rx("timeSecond", d, o)} in(d, o) ==>
	rk("timeSecond", d, o) == dg2(d, o) && !rx("timeSecond", d, o) && (dg2(d, o) ==> re("timeSecond", d, o) == o + 2)

def isdate(d seq int, o int) bool = dg2(d, o) && dg2(d, o + 2) && ch(d, o + 4, 45) && dg2(d, o + 5) && ch(d, o + 7, 45) && dg2(d, o + 8)
lemma lang_date [C16 C17 "dates"] uses g, lang_year, lang_month, lang_mday : forall d seq int, o int :: {rk("fullDate", d, o)} {re("fullDate", d, o)} {rx("fullDate", d, o)} in(d, o) ==>
	rk("fullDate", d, o) == isdate(d, o) && !rx("fullDate", d, o) && (isdate(d, o) ==> re("fullDate", d, o) == o + 10)
def fracx() any = as(as(rule_of("timeSecfrac").expr,*seqExpr).exprs[1],*oneOrMoreExpr).expr
lemma star_frac [C16] induct (len(d) - o) uses g : forall d seq int, o int :: {starend(fracx(), d, o)} {starerr(fracx(), d, o)} in(d, o) ==> starend(fracx(), d, o) == dgend(d, o) && !starerr(fracx(), d, o)
def isfrac(d seq int, o int) bool = ch(d, o, 46) && dg(d, o + 1)
lemma lang_frac [C16 C17 "fraction of a second"] uses g, star_frac : forall d seq int, o int :: {rk("timeSecfrac", d, o)} {re("timeSecfrac", d, o)} {rx("timeSecfrac", d, o)} in(d, o) ==>
	rk("timeSecfrac", d, o) == isfrac(d, o) && !rx("timeSecfrac", d, o) && (isfrac(d, o) ==> re("timeSecfrac", d, o) == dgend(d, o + 1))
def ishms(d seq int, o int) bool = dg2(d, o) && ch(d, o + 2, 58) && dg2(d, o + 3) && ch(d, o + 5, 58) && dg2(d, o + 6)
def hmsend(d seq int, o int) int = isfrac(d, o + 8) ? dgend(d, o + 9) : o + 8
lemma lang_time [C16 C17 "time of day"] uses g, lang_hour, lang_minute, lang_second, lang_frac : forall d seq int, o int :: {rk("partialTime", d, o)} {re("partialTime", d, o)} {rx("partialTime", d, o)} in(d, o) ==>
	rk("partialTime", d, o) == ishms(d, o) && !rx("partialTime", d, o) && (ishms(d, o) ==> re("partialTime", d, o) == hmsend(d, o))
def isoff(d seq int, o int) bool = (ch(d, o, 43) || ch(d, o, 45)) && dg2(d, o + 1) && ch(d, o + 3, 58) && dg2(d, o + 4)
lemma lang_numoff [C16 C17 "offset in hours and minutes"] uses g, lang_hour, lang_minute : forall d seq int, o int :: {rk("timeNumoffset", d, o)} {re("timeNumoffset", d, o)} {rx("timeNumoffset", d, o)} in(d, o) ==>
	rk("timeNumoffset", d, o) == isoff(d, o) && !rx("timeNumoffset", d, o) && (isoff(d, o) ==> re("timeNumoffset", d, o) == o + 6)
def iszulu(d seq int, o int) bool = unicode.ToLower(rn(d, o)) == 122
lemma lang_offset [C16 C17 "offset"] uses g, lang_numoff : forall d seq int, o int :: {rk("timeOffset", d, o)} {re("timeOffset", d, o)} {rx("timeOffset", d, o)} in(d, o) ==>
	rk("timeOffset", d, o) == (iszulu(d, o) || isoff(d, o)) && !rx("timeOffset", d, o) && (rk("timeOffset", d, o) ==> re("timeOffset", d, o) == (iszulu(d, o) ? nx(d, o) : o + 6))
def isfulltime(d seq int, o int) bool = ishms(d, o) && (iszulu(d, hmsend(d, o)) || isoff(d, hmsend(d, o)))
def fulltimeend(d seq int, o int) int = iszulu(d, hmsend(d, o)) ? nx(d, hmsend(d, o)) : hmsend(d, o) + 6
lemma lang_fulltime [C16 C17 "time with offset"] uses g, lang_time, lang_offset, dgend_fwd : forall d seq int, o int :: {rk("fullTime", d, o)} {re("fullTime", d, o)} {rx("fullTime", d, o)} in(d, o) ==>
	rk("fullTime", d, o) == isfulltime(d, o) && !rx("fullTime", d, o) && (isfulltime(d, o) ==> re("fullTime", d, o) == fulltimeend(d, o))
def tsep(d seq int, o int) bool = unicode.ToLower(rn(d, o)) == 116 || ch(d, o, 32)
def isdatetime(d seq int, o int) bool = isdate(d, o) && tsep(d, o + 10) && isfulltime(d, nx(d, o + 10))
lemma lang_datetime [C16 C17 "instants"] uses g, lang_date, lang_fulltime : forall d seq int, o int :: {rk("dateTime", d, o)} {re("dateTime", d, o)} {rx("dateTime", d, o)} in(d, o) ==>
	rk("dateTime", d, o) == isdatetime(d, o) && !rx("dateTime", d, o) && (isdatetime(d, o) ==> re("dateTime", d, o) == fulltimeend(d, nx(d, o + 10)))
lemma lang_timestamp [C16 C17 "timestamps"] uses g, lang_date, lang_datetime : forall d seq int, o int :: {rk("Timestamp", d, o)} {re("Timestamp", d, o)} {rx("Timestamp", d, o)} in(d, o) ==>
	rk("Timestamp", d, o) == isdate(d, o)
	&& (isdate(d, o) ==> re("Timestamp", d, o) == (isdatetime(d, o) ? fulltimeend(d, nx(d, o + 10)) : o + 10))
	&& rx("Timestamp", d, o) == (isdate(d, o) && time.Parse$1(timelayout(opword("Timestamp", d, o)), opword("Timestamp", d, o)) != nil)

lemma lang_bare [C16 C17 "order of bare values"] uses g : forall d seq int, o int :: {rk("BareValue", d, o)} {re("BareValue", d, o)} {rx("BareValue", d, o)}
	rk("BareValue", d, o) == (rk("Timestamp", d, o) || rk("IPValue", d, o) || rk("FloatValue", d, o) || rk("IntValue", d, o) || rk("BoolValue", d, o))
	&& (rk("BareValue", d, o) ==> re("BareValue", d, o) == (rk("Timestamp", d, o) ? re("Timestamp", d, o) : rk("IPValue", d, o) ? re("IPValue", d, o) : rk("FloatValue", d, o) ? re("FloatValue", d, o) : rk("IntValue", d, o) ? re("IntValue", d, o) : re("BoolValue", d, o)))
	&& rx("BareValue", d, o) == (rx("Timestamp", d, o) || !rk("Timestamp", d, o) && (rx("IPValue", d, o) || !rk("IPValue", d, o) && (rx("FloatValue", d, o) || !rk("FloatValue", d, o) && (rx("IntValue", d, o) || !rk("IntValue", d, o) && rx("BoolValue", d, o)))))
lemma v_bare [C16 C17 "bare values"] uses g : forall d seq int, o int, v any :: {rv("BareValue", d, o, v)} rk("BareValue", d, o) && rv("BareValue", d, o, v) ==>
	(rk("Timestamp", d, o) ? rv("Timestamp", d, o, v) : rk("IPValue", d, o) ? rv("IPValue", d, o, v) : rk("FloatValue", d, o) ? rv("FloatValue", d, o, v) : rk("IntValue", d, o) ? rv("IntValue", d, o, v) : rv("BoolValue", d, o, v))
lemma v_timestamp [C16 C17 "value of a timestamp"] uses g : forall d seq int, o int, v any :: {rv("Timestamp", d, o, v)} rv("Timestamp", d, o, v) ==> is(v,*ast.TimeVal) && timelit(as(v,*ast.TimeVal), opword("Timestamp", d, o), tpos(d, o, re("Timestamp", d, o)))
lemma v_ip [C16 C17 "value of an address or block"] uses g : forall d seq int, o int, v any :: {rv("IPValue", d, o, v)} rv("IPValue", d, o, v) ==> is(v,*ast.NetVal) && netlit(as(v,*ast.NetVal), opword("IPValue", d, o), tpos(d, o, re("IPValue", d, o)))
lemma v_float [C16 C17 "value of a fraction"] uses g : forall d seq int, o int, v any :: {rv("FloatValue", d, o, v)} rv("FloatValue", d, o, v) ==> is(v,*ast.FloatVal) && fltlit(as(v,*ast.FloatVal), opword("FloatValue", d, o), tpos(d, o, re("FloatValue", d, o)))
lemma v_int [C16 C17 "value of an integer"] uses g : forall d seq int, o int, v any :: {rv("IntValue", d, o, v)} rv("IntValue", d, o, v) ==> is(v,*ast.IntVal) && intlit(as(v,*ast.IntVal), opword("IntValue", d, o), tpos(d, o, re("IntValue", d, o)))
lemma v_bool [C16 C17 "value of a boolean"] uses g, bool_text : forall d seq int, o int, v any :: {rv("BoolValue", d, o, v)} in(d, o) && rk("BoolValue", d, o) && rv("BoolValue", d, o, v) ==>
	is(v,*ast.BoolVal) && boollit(as(v,*ast.BoolVal), opword("BoolValue", d, o), tpos(d, o, re("BoolValue", d, o))) && as(v,*ast.BoolVal).bv == istrue(d, o)

// ---- strings ----------------------------------------------------------------

def isctl(d seq int, o int) bool = 0 <= rn(d, o) && rn(d, o) <= 31 || ch(d, o, 34) || ch(d, o, 92)
def isesc1(d seq int, o int) bool = ch(d, o, 34) || ch(d, o, 92) || ch(d, o, 98) || ch(d, o, 102) || ch(d, o, 110) || ch(d, o, 114) || ch(d, o, 116)
def hex1(d seq int, o int) int = nx(d, o + 1)
def hex2(d seq int, o int) int = nx(d, hex1(d, o))
def hex3(d seq int, o int) int = nx(d, hex2(d, o))
def isesc4(d seq int, o int) bool = ch(d, o, 117) && hex(d, o + 1) && hex(d, hex1(d, o)) && hex(d, hex2(d, o)) && hex(d, hex3(d, o))
lemma lang_hex [C16 C17 "hexadecimal digits"] uses g : forall d seq int, o int :: {rk("HexDigit", d, o)} {re("HexDigit", d, o)} {rx("HexDigit", d, o)} in(d, o) ==>
	rk("HexDigit", d, o) == hex(d, o) && !rx("HexDigit", d, o) && re("HexDigit", d, o) == nx(d, o)
lemma lang_esc4 [C16 C17 "characters by number"] uses g, lang_hex : forall d seq int, o int :: {rk("UnicodeEscape", d, o)} {re("UnicodeEscape", d, o)} {rx("UnicodeEscape", d, o)} in(d, o) ==>
	rk("UnicodeEscape", d, o) == isesc4(d, o) && !rx("UnicodeEscape", d, o) && (isesc4(d, o) ==> re("UnicodeEscape", d, o) == nx(d, hex3(d, o)))
lemma lang_esc1 [C16 C17 "escaped characters"] uses g : forall d seq int, o int :: {rk("SingleCharEscape", d, o)} {re("SingleCharEscape", d, o)} {rx("SingleCharEscape", d, o)} in(d, o) ==>
	rk("SingleCharEscape", d, o) == isesc1(d, o) && !rx("SingleCharEscape", d, o) && (isesc1(d, o) ==> re("SingleCharEscape", d, o) == o + 1)
lemma lang_esc [C16 C17 "escapes"] uses g, lang_esc1, lang_esc4 : forall d seq int, o int :: {rk("EscapeSequence", d, o)} {re("EscapeSequence", d, o)} {rx("EscapeSequence", d, o)} in(d, o) ==>
	rk("EscapeSequence", d, o) == (isesc1(d, o) || isesc4(d, o)) && !rx("EscapeSequence", d, o) && (rk("EscapeSequence", d, o) ==> re("EscapeSequence", d, o) == (isesc1(d, o) ? o + 1 : nx(d, hex3(d, o))))
lemma lang_ctl [C16 C17 "characters that need an escape"] uses g : forall d seq int, o int :: {rk("EscapedChar", d, o)} {re("EscapedChar", d, o)} {rx("EscapedChar", d, o)} in(d, o) ==>
	rk("EscapedChar", d, o) == isctl(d, o) && !rx("EscapedChar", d, o)
def qok(d seq int, o int) bool = o < len(d) && !isctl(d, o) || ch(d, o, 92) && (isesc1(d, o + 1) || isesc4(d, o + 1))
def qnext(d seq int, o int) int = !ch(d, o, 92) ? nx(d, o) : isesc1(d, o + 1) ? o + 2 : nx(d, hex3(d, o + 1))
rec qend(d seq int, o int) int depth 1 = qok(d, o) ? qend(d, qnext(d, o)) : o
lemma qend_fwd [C16] induct (len(d) - o) : forall d seq int, o int :: {qend(d, o)} in(d, o) ==> o <= qend(d, o) && qend(d, o) <= len(d)
def qx() any = as(as(as(as(rule_of("QuotedValue").expr,*recoveryExpr).expr,*actionExpr).expr,*seqExpr).exprs[1],*zeroOrMoreExpr).expr
lemma star_quoted [C16] induct (len(d) - o) uses g, lang_esc, lang_ctl : forall d seq int, o int :: {starend(qx(), d, o)} {starerr(qx(), d, o)} in(d, o) ==> starend(qx(), d, o) == qend(d, o) && !starerr(qx(), d, o)
lemma lang_quote [C16 C17 "end of a string"] uses g : forall d seq int, o int :: {rk("EndingQuote", d, o)} {re("EndingQuote", d, o)} {rx("EndingQuote", d, o)} in(d, o) ==>
	rk("EndingQuote", d, o) && rx("EndingQuote", d, o) == !ch(d, o, 34) && re("EndingQuote", d, o) == (ch(d, o, 34) ? o + 1 : o)
lemma lang_quoted [C16 C17 "strings"] uses g, star_quoted, lang_quote, qend_fwd : forall d seq int, o int :: {rk("QuotedValue", d, o)} {re("QuotedValue", d, o)} {rx("QuotedValue", d, o)} in(d, o) ==>
	rk("QuotedValue", d, o) == ch(d, o, 34)
	&& (ch(d, o, 34) ==> re("QuotedValue", d, o) == (ch(d, qend(d, o + 1), 34) ? qend(d, o + 1) + 1 : qend(d, o + 1)))
	&& rx("QuotedValue", d, o) == (ch(d, o, 34) && (!ch(d, qend(d, o + 1), 34) || strconv.Unquote$1(opword("QuotedValue", d, o)) != nil))

// ---- regular expressions ----------------------------------------------------

def rok(d seq int, o int) bool = ch(d, o, 92) ? o + 1 < len(d) && !ch(d, o + 1, 10) : o < len(d) && !ch(d, o, 47) && !ch(d, o, 10)
def rnext(d seq int, o int) int = ch(d, o, 92) ? nx(d, o + 1) : nx(d, o)
rec rgend(d seq int, o int) int depth 1 = rok(d, o) ? rgend(d, rnext(d, o)) : o
lemma rgend_fwd [C16] induct (len(d) - o) : forall d seq int, o int :: {rgend(d, o)} in(d, o) ==> o <= rgend(d, o) && rgend(d, o) <= len(d)
lemma lang_regescape [C16 C17 "escaped characters of an expression"] uses g, lang_eol, lang_eof : forall d seq int, o int :: {rk("RegexEscape", d, o)} {re("RegexEscape", d, o)} {rx("RegexEscape", d, o)} in(d, o) ==>
	rk("RegexEscape", d, o) == (o < len(d) && !ch(d, o, 10)) && !rx("RegexEscape", d, o) && re("RegexEscape", d, o) == nx(d, o)
lemma lang_regchar [C16 C17 "characters of an expression"] uses g, lang_eol, lang_regescape : forall d seq int, o int :: {rk("RegexChar", d, o)} {re("RegexChar", d, o)} {rx("RegexChar", d, o)} in(d, o) ==>
	rk("RegexChar", d, o) == rok(d, o) && !rx("RegexChar", d, o) && (rok(d, o) ==> re("RegexChar", d, o) == rnext(d, o))
lemma star_reg [C16] induct (len(d) - o) uses g, lang_regchar : forall d seq int, o int :: {starend(rxx(), d, o)} {starerr(rxx(), d, o)} in(d, o) ==> starend(rxx(), d, o) == rgend(d, o) && !starerr(rxx(), d, o)
lemma lang_slash [C16 C17 "end of an expression"] uses g : forall d seq int, o int :: {rk("EndingSlash", d, o)} {re("EndingSlash", d, o)} {rx("EndingSlash", d, o)} in(d, o) ==>
	rk("EndingSlash", d, o) && rx("EndingSlash", d, o) == !ch(d, o, 47) && re("EndingSlash", d, o) == (ch(d, o, 47) ? o + 1 : o)
lemma lang_regex [C16 C17 "regular expressions"] uses g, star_reg, lang_slash, rgend_fwd : forall d seq int, o int :: {rk("RegexValue", d, o)} {re("RegexValue", d, o)} {rx("RegexValue", d, o)} in(d, o) ==>
	rk("RegexValue", d, o) == ch(d, o, 47)
	&& (ch(d, o, 47) ==> re("RegexValue", d, o) == (ch(d, rgend(d, o + 1), 47) ? rgend(d, o + 1) + 1 : rgend(d, o + 1)))
	&& rx("RegexValue", d, o) == (ch(d, o, 47) && (!ch(d, rgend(d, o + 1), 47) || regexp.Compile$1(retext(opword("RegexValue", d, o))) != nil))
lemma v_regex [C16 C17 "value of a regular expression"] uses g : forall d seq int, o int, v any :: {rv("RegexValue", d, o, v)} rv("RegexValue", d, o, v) ==> is(v,*ast.RegexpVal) && relit(as(v,*ast.RegexpVal), opword("RegexValue", d, o), tpos(d, o, re("RegexValue", d, o)))

// ---- values -----------------------------------------------------------------

def isvalx(d seq int, o int) bool = rk("QuotedValue", d, o) || rk("RegexValue", d, o) || rk("BareValue", d, o)
rec nwsend(d seq int, o int) int depth 1 = o < len(d) && !isws(d, o) ? nwsend(d, nx(d, o)) : o
lemma star_nws [C16] induct (len(d) - o) uses g : forall d seq int, o int :: {starend(ux(), d, o)} {starerr(ux(), d, o)} in(d, o) ==> starend(ux(), d, o) == nwsend(d, o) && !starerr(ux(), d, o)
lemma lang_value [C16 C17 "values"] uses g, star_nws : forall d seq int, o int :: {rk("Value", d, o)} {re("Value", d, o)} {rx("Value", d, o)} in(d, o) ==>
	rk("Value", d, o) == (isvalx(d, o) || o < len(d) && !isws(d, o))
	&& (isvalx(d, o) ==> re("Value", d, o) == (rk("QuotedValue", d, o) ? re("QuotedValue", d, o) : rk("RegexValue", d, o) ? re("RegexValue", d, o) : re("BareValue", d, o)))
	&& rx("Value", d, o) == (rx("QuotedValue", d, o) || !rk("QuotedValue", d, o) && (rx("RegexValue", d, o) || !rk("RegexValue", d, o) && rx("BareValue", d, o)) || !isvalx(d, o) && o < len(d) && !isws(d, o))
lemma v_value [C16 C17 "value"] uses g : forall d seq int, o int, v any :: {rv("Value", d, o, v)} isvalx(d, o) && rv("Value", d, o, v) ==>
	(rk("QuotedValue", d, o) ? rv("QuotedValue", d, o, v) : rk("RegexValue", d, o) ? rv("RegexValue", d, o, v) : rv("BareValue", d, o, v))

lemma nwsend_fwd [C16] induct (len(d) - o) : forall d seq int, o int :: {nwsend(d, o)} in(d, o) ==> o <= nwsend(d, o) && nwsend(d, o) <= len(d)
lemma nwsend_fwd1 [C16] uses nwsend_fwd : forall d seq int, o int :: {nwsend(d, o)} in(d, o) && o < len(d) && !isws(d, o) ==> o < nwsend(d, o)
lemma lang_novalue [C16] uses g, star_nws : forall d seq int, o int :: {rk("Value", d, o)} {re("Value", d, o)} in(d, o) && !isvalx(d, o) && rk("Value", d, o) ==> re("Value", d, o) == nwsend(d, o)
lemma fwd_quoted [C16] uses lang_quoted, qend_fwd : forall d seq int, o int :: {rk("QuotedValue", d, o)} {re("QuotedValue", d, o)} in(d, o) && rk("QuotedValue", d, o) ==> o < re("QuotedValue", d, o) && re("QuotedValue", d, o) <= len(d)
lemma fwd_regex [C16] uses lang_regex, rgend_fwd : forall d seq int, o int :: {rk("RegexValue", d, o)} {re("RegexValue", d, o)} in(d, o) && rk("RegexValue", d, o) ==> o < re("RegexValue", d, o) && re("RegexValue", d, o) <= len(d)
lemma fwd_timestamp [C16] uses lang_timestamp, dgend_fwd : forall d seq int, o int :: {rk("Timestamp", d, o)} {re("Timestamp", d, o)} in(d, o) && rk("Timestamp", d, o) ==> o < re("Timestamp", d, o) && re("Timestamp", d, o) <= len(d)
lemma fwd_ip [C16] uses lang_ip, lang_cidr : forall d seq int, o int :: {rk("IPValue", d, o)} {re("IPValue", d, o)} in(d, o) && rk("IPValue", d, o) ==> o < re("IPValue", d, o) && re("IPValue", d, o) <= len(d)
lemma fwd_float [C16] uses lang_float, dgend_fwd : forall d seq int, o int :: {rk("FloatValue", d, o)} {re("FloatValue", d, o)} in(d, o) && rk("FloatValue", d, o) ==> o < re("FloatValue", d, o) && re("FloatValue", d, o) <= len(d)
lemma fwd_int [C16] uses lang_int, dgend_fwd : forall d seq int, o int :: {rk("IntValue", d, o)} {re("IntValue", d, o)} in(d, o) && rk("IntValue", d, o) ==> o < re("IntValue", d, o) && re("IntValue", d, o) <= len(d)
lemma fwd_bool [C16] uses lang_bool : forall d seq int, o int :: {rk("BoolValue", d, o)} {re("BoolValue", d, o)} in(d, o) && rk("BoolValue", d, o) ==> o < re("BoolValue", d, o) && re("BoolValue", d, o) <= len(d)
lemma fwd_bare [C16] uses lang_bare, fwd_timestamp, fwd_ip, fwd_float, fwd_int, fwd_bool : forall d seq int, o int :: {rk("BareValue", d, o)} {re("BareValue", d, o)} in(d, o) && rk("BareValue", d, o) ==> o < re("BareValue", d, o) && re("BareValue", d, o) <= len(d)
lemma fwd_value [C16] uses lang_value, lang_novalue, nwsend_fwd1, nwsend_fwd, fwd_bare, fwd_regex, fwd_quoted : forall d seq int, o int :: {rk("Value", d, o)} {re("Value", d, o)} in(d, o) && rk("Value", d, o) ==> o < re("Value", d, o) && re("Value", d, o) <= len(d)

// further values: white space, a comma, white space and a value
def comma(d seq int, o int) bool = ch(d, re("_", d, o), 44)
def cma(d seq int, o int) bool = comma(d, o) && rk("Value", d, vnext(d, o))
rec vend(d seq int, o int) int depth 1 = cma(d, o) ? vend(d, re("Value", d, vnext(d, o))) : o
rec verr(d seq int, o int) bool depth 1 = comma(d, o) && (rx("Value", d, vnext(d, o)) || rk("Value", d, vnext(d, o)) && verr(d, re("Value", d, vnext(d, o))))
rec vcount(d seq int, o int) int depth 1 = cma(d, o) ? 1 + vcount(d, re("Value", d, vnext(d, o))) : 0
rec vpos(d seq int, o int, n int) int depth 1 = n <= 0 ? o : re("Value", d, vnext(d, vpos(d, o, n - 1)))
rec vvals(d seq int, e int, vs seq ast.Val, n int) bool depth 1 = n <= 0 ? true : vvals(d, e, vs, n - 1) && rv("Value", d, vnext(d, vpos(d, e, n - 1)), vs[n])
lemma vend_fwd [C16] induct (len(d) - o) uses fwd_value, lang_ws, wsend_fwd : forall d seq int, o int :: {vend(d, o)} in(d, o) ==> o <= vend(d, o) && vend(d, o) <= len(d)
lemma vcount_fwd [C16] induct (len(d) - o) uses fwd_value, lang_ws, wsend_fwd : forall d seq int, o int :: {vcount(d, o)} in(d, o) ==> 0 <= vcount(d, o)
lemma star_vals [C16] induct (len(d) - o) uses g, fwd_value, lang_ws, wsend_fwd : forall d seq int, o int :: {starend(vx(), d, o)} {starerr(vx(), d, o)} {starn(vx(), d, o)} in(d, o) ==>
	starend(vx(), d, o) == vend(d, o) && starerr(vx(), d, o) == verr(d, o) && starn(vx(), d, o) == vcount(d, o)
lemma star_vpos [C16] induct (n) uses g : forall d seq int, o int, n int :: {starat(vx(), d, o, n)} starat(vx(), d, o, n) == vpos(d, o, n)
lemma rest_vals [C16] induct (n) uses star_vpos : forall d seq int, e int, vs seq ast.Val, n int :: {restv(d, e, vs, n)} restv(d, e, vs, n) == vvals(d, e, vs, n)

def closing(d seq int, o int) int = re("_", d, vend(d, vrest(d, o)))
def several(d seq int, o int) bool = ch(d, o, 40) && rk("Value", d, vfirst(d, o)) && ch(d, closing(d, o), 41)
lemma lang_values [C16 "lists of values"] uses g, k_ws, vend_fwd, star_vals, fwd_value, lang_ws, wsend_fwd : forall d seq int, o int :: {rk("ValueList", d, o)} {re("ValueList", d, o)} {rx("ValueList", d, o)} in(d, o) ==>
	rk("ValueList", d, o) == (several(d, o) || rk("Value", d, o))
	&& (rk("ValueList", d, o) ==> re("ValueList", d, o) == (several(d, o) ? closing(d, o) + 1 : re("Value", d, o)))
	&& rx("ValueList", d, o) == (ch(d, o, 40) && (rx("Value", d, vfirst(d, o)) || rk("Value", d, vfirst(d, o)) && verr(d, vrest(d, o))) || (several(d, o) ? vcount(d, vrest(d, o)) == 0 : rx("Value", d, o)))
lemma v_list [C16 "values of a list"] uses v_values, star_vals, rest_vals, fwd_value, lang_ws, wsend_fwd : forall d seq int, o int, v any :: {rv("ValueList", d, o, v)} in(d, o) && rv("ValueList", d, o, v) ==>
	isvals(v) && (several(d, o) ? len(as(v,[]ast.Val)) == vcount(d, vrest(d, o)) + 1 && rv("Value", d, vfirst(d, o), as(v,[]ast.Val)[0]) && vvals(d, vrest(d, o), seq(as(v,[]ast.Val)), vcount(d, vrest(d, o)))
		: len(as(v,[]ast.Val)) == 1 && rv("Value", d, o, as(v,[]ast.Val)[0]))

// ---- fields -----------------------------------------------------------------

def upx() any = as(as(rule_of("UnquotedFieldPiece").expr,*actionExpr).expr,*oneOrMoreExpr).expr
lemma star_piece [C16] induct (len(d) - o) uses g : forall d seq int, o int :: {starend(upx(), d, o)} {starerr(upx(), d, o)} in(d, o) ==> starend(upx(), d, o) == idend(d, o) && !starerr(upx(), d, o)
lemma lang_unquoted [C16 "plain segments"] uses g, star_piece : forall d seq int, o int :: {rk("UnquotedFieldPiece", d, o)} {re("UnquotedFieldPiece", d, o)} {rx("UnquotedFieldPiece", d, o)} in(d, o) ==>
	rk("UnquotedFieldPiece", d, o) == idch(d, o) && !rx("UnquotedFieldPiece", d, o) && re("UnquotedFieldPiece", d, o) == idend(d, o)
lemma lang_star [C16 "stars"] uses g : forall d seq int, o int :: {rk("Star", d, o)} {re("Star", d, o)} {rx("Star", d, o)} in(d, o) ==>
	rk("Star", d, o) == ch(d, o, 42) && !rx("Star", d, o) && (ch(d, o, 42) ==> re("Star", d, o) == o + 1)
lemma lang_quotedpiece [C16 "quoted segments"] uses g : forall d seq int, o int :: {rk("QuotedFieldPiece", d, o)} {re("QuotedFieldPiece", d, o)} {rx("QuotedFieldPiece", d, o)}
	rk("QuotedFieldPiece", d, o) == rk("QuotedValue", d, o) && re("QuotedFieldPiece", d, o) == re("QuotedValue", d, o) && rx("QuotedFieldPiece", d, o) == rx("QuotedValue", d, o)
def ispiece(d seq int, o int) bool = ch(d, o, 34) || idch(d, o) || ch(d, o, 42)
lemma lang_piece [C16 "segments"] uses g, lang_unquoted, lang_star, lang_quotedpiece, lang_quoted : forall d seq int, o int :: {rk("FieldPiece", d, o)} {re("FieldPiece", d, o)} {rx("FieldPiece", d, o)} in(d, o) ==>
	rk("FieldPiece", d, o) == ispiece(d, o) && rx("FieldPiece", d, o) == rx("QuotedValue", d, o)
	&& (ispiece(d, o) ==> re("FieldPiece", d, o) == (ch(d, o, 34) ? re("QuotedValue", d, o) : idch(d, o) ? idend(d, o) : o + 1))
lemma idend_fwd1 [C16] uses idend_fwd : forall d seq int, o int :: {idend(d, o)} in(d, o) && idch(d, o) ==> o < idend(d, o)
lemma fwd_piece [C16] uses lang_piece, fwd_quoted, lang_quoted, idend_fwd1, idend_fwd : forall d seq int, o int :: {rk("FieldPiece", d, o)} {re("FieldPiece", d, o)} in(d, o) && rk("FieldPiece", d, o) ==> o < re("FieldPiece", d, o) && re("FieldPiece", d, o) <= len(d)

def dot(d seq int, o int) bool = ch(d, o, 46) && rk("FieldPiece", d, nx(d, o))
rec fend(d seq int, o int) int depth 1 = dot(d, o) ? fend(d, re("FieldPiece", d, nx(d, o))) : o
rec ferr(d seq int, o int) bool depth 1 = ch(d, o, 46) && (rx("FieldPiece", d, nx(d, o)) || rk("FieldPiece", d, nx(d, o)) && ferr(d, re("FieldPiece", d, nx(d, o))))
rec fcount(d seq int, o int) int depth 1 = dot(d, o) ? 1 + fcount(d, re("FieldPiece", d, nx(d, o))) : 0
rec fpos(d seq int, o int, n int) int depth 1 = n <= 0 ? o : re("FieldPiece", d, nx(d, fpos(d, o, n - 1)))
rec segs(d seq int, o int, n int) seq string depth 1 = n <= 0 ? unit(fseg(d, o)) : segs(d, o, n - 1) ++ unit(fseg(d, nx(d, fpos(d, re("FieldPiece", d, o), n - 1))))
def path(d seq int, o int) seq string = uns(segs(d, o, fcount(d, re("FieldPiece", d, o))), fcount(d, re("FieldPiece", d, o)) + 1)
lemma fend_fwd [C16] induct (len(d) - o) uses fwd_piece : forall d seq int, o int :: {fend(d, o)} in(d, o) ==> o <= fend(d, o) && fend(d, o) <= len(d)
lemma star_field [C16] induct (len(d) - o) uses g, fwd_piece : forall d seq int, o int :: {starend(fx(), d, o)} {starerr(fx(), d, o)} {starn(fx(), d, o)} in(d, o) ==>
	starend(fx(), d, o) == fend(d, o) && starerr(fx(), d, o) == ferr(d, o) && starn(fx(), d, o) == fcount(d, o)
lemma star_fpos [C16] induct (n) uses g : forall d seq int, o int, n int :: {starat(fx(), d, o, n)} starat(fx(), d, o, n) == fpos(d, o, n)
lemma field_segs [C16] induct (n) uses star_fpos : forall d seq int, o int, n int :: {fsegs(d, o, n)} fsegs(d, o, n) == segs(d, o, n)
lemma field_path [C16] uses field_segs, star_field, fwd_piece : forall d seq int, o int :: {fsegs(d, o, fmore(d, o))} in(d, o) && rk("FieldPiece", d, o) ==> fieldpath(d, o) == path(d, o)
lemma lang_field [C16 "fields"] uses g, star_field, fwd_piece, field_path : forall d seq int, o int :: {rk("Field", d, o)} {re("Field", d, o)} {rx("Field", d, o)} in(d, o) ==>
	rk("Field", d, o) == rk("FieldPiece", d, o)
	&& (rk("Field", d, o) ==> re("Field", d, o) == fend(d, re("FieldPiece", d, o)))
	&& rx("Field", d, o) == (rx("FieldPiece", d, o) || rk("FieldPiece", d, o) && (ferr(d, re("FieldPiece", d, o)) || len(path(d, o)) == 0))
lemma v_path [C16 "segments of a field"] uses v_field, lang_field, field_path : forall d seq int, o int, v any :: {rv("Field", d, o, v)} in(d, o) && rk("Field", d, o) && rv("Field", d, o, v) ==> isfield(v) && seq(as(v,[]string)) == path(d, o)
lemma fwd_field [C16] uses lang_field, fwd_piece, fend_fwd : forall d seq int, o int :: {rk("Field", d, o)} {re("Field", d, o)} in(d, o) && rk("Field", d, o) ==> o < re("Field", d, o) && re("Field", d, o) <= len(d)

// ---- comparisons and clauses ------------------------------------------------

def inner(d seq int, o int) int = re("_", d, nx(d, o))
def group(d seq int, o int) bool = ch(d, o, 40) && rk("OrClause", d, inner(d, o)) && ch(d, re("_", d, re("OrClause", d, inner(d, o))), 41)
def named(d seq int, o int) bool = rk("Field", d, o) && ch(d, colon(d, o), 58)
def plaincmp(d seq int, o int) bool = named(d, o) && rk("opNoArgs", d, operand(d, o))
def valuecmp(d seq int, o int) bool = named(d, o) && rk("ValueList", d, operands(d, o))
lemma lang_comparison [C16 "comparisons and groups"] uses g, k_ws, lang_noargs, lang_comp, lang_ws, lang_field, fwd_field, wsend_fwd : forall d seq int, o int :: {rk("Comparison", d, o)} {re("Comparison", d, o)} {rx("Comparison", d, o)} in(d, o) ==>
	rk("Comparison", d, o) == (group(d, o) || plaincmp(d, o) || valuecmp(d, o))
	&& (rk("Comparison", d, o) ==> re("Comparison", d, o) == (group(d, o) ? nx(d, re("_", d, re("OrClause", d, inner(d, o)))) : plaincmp(d, o) ? re("opNoArgs", d, operand(d, o)) : re("ValueList", d, operands(d, o))))
	&& rx("Comparison", d, o) == (ch(d, o, 40) && (rx("OrClause", d, inner(d, o)) || rk("OrClause", d, inner(d, o)) && rx("_", d, re("OrClause", d, inner(d, o))))
		|| !group(d, o) && (rx("Field", d, o) || !plaincmp(d, o) && named(d, o) && rx("ValueList", d, operands(d, o))))
def opof(d seq int, o int) ast.Op = ch(d, o, 126) ? ast.SIM : ch(d, o, 60) ? (ch(d, o + 1, 61) ? ast.LTE : ast.LT) : ch(d, o, 62) ? (ch(d, o + 1, 60) ? ast.BET : ch(d, o + 1, 61) ? ast.GTE : ast.GT) : ast.EQ
lemma lang_opword [C16 "spelling of operators"] uses g, comp_text : forall d seq int, o int :: {opword("opComp", d, o)} in(d, o) && rk("opComp", d, o) ==> compop(opword("opComp", d, o)) == opof(d, o)
lemma lang_noargword [C16 "spelling of exists and null"] uses g, noargs_text : forall d seq int, o int :: {opword("opNoArgs", d, o)} in(d, o) && rk("opNoArgs", d, o) ==> noargop(opword("opNoArgs", d, o)) == (isexists(d, o) ? ast.EXS : ast.NUL)
def cmpof(v any, d seq int, o int) bool = is(v,*ast.ExprNode) && refof(v) != 0 && seq(as(v,*ast.ExprNode).Field) == path(d, o) && as(v,*ast.ExprNode).Position == tpos(d, o, re("Comparison", d, o))
def vallist(d seq int, o int, vs seq ast.Val) bool = several(d, o) ? len(vs) == vcount(d, vrest(d, o)) + 1 && rv("Value", d, vfirst(d, o), vs[0]) && vvals(d, vrest(d, o), vs, vcount(d, vrest(d, o))) : len(vs) == 1 && rv("Value", d, o, vs[0])
lemma in_operand [C16] uses lang_ws, lang_comp, wsend_fwd, fwd_field : forall d seq int, o int :: {operand(d, o)} {operands(d, o)} in(d, o) && named(d, o) ==> in(d, operand(d, o)) && in(d, operands(d, o)) && o < operand(d, o) && operand(d, o) <= operands(d, o)
lemma list_vals [C16] uses star_vals, rest_vals, fwd_value, lang_ws, wsend_fwd : forall d seq int, o int, vs seq ast.Val :: {valuelist(d, o, vs)} in(d, o) && valuelist(d, o, vs) ==> vallist(d, o, vs)
lemma v_comparison [C16 C18 "comparisons and groups"] uses g, k_ws, field_path, lang_field, lang_opword, lang_noargword, lang_comp, in_operand, list_vals : forall d seq int, o int, v any :: {rv("Comparison", d, o, v)} in(d, o) && rk("Comparison", d, o) && rv("Comparison", d, o, v) ==>
	(group(d, o) ? rv("OrClause", d, inner(d, o), v)
	: cmpof(v, d, o) && (plaincmp(d, o) ? as(v,*ast.ExprNode).Op == (isexists(d, operand(d, o)) ? ast.EXS : ast.NUL) && len(as(v,*ast.ExprNode).RVals) == 0
		: as(v,*ast.ExprNode).Op == opof(d, operand(d, o)) && vallist(d, operands(d, o), seq(as(v,*ast.ExprNode).RVals))))

def negated(d seq int, o int) bool = rk("logicalNOT", d, o) && rk("Comparison", d, re("logicalNOT", d, o))
lemma lang_not [C16 "negations"] uses g, lang_lnot : forall d seq int, o int :: {rk("NotClause", d, o)} {re("NotClause", d, o)} {rx("NotClause", d, o)} in(d, o) ==>
	rk("NotClause", d, o) == (negated(d, o) || rk("Comparison", d, o))
	&& (rk("NotClause", d, o) ==> re("NotClause", d, o) == (negated(d, o) ? re("Comparison", d, re("logicalNOT", d, o)) : re("Comparison", d, o)))
	&& rx("NotClause", d, o) == (rk("logicalNOT", d, o) && rx("Comparison", d, re("logicalNOT", d, o)) || !negated(d, o) && rx("Comparison", d, o))
lemma v_not [C16 "negation"] uses g : forall d seq int, o int, v any :: {rv("NotClause", d, o, v)} rk("NotClause", d, o) && rv("NotClause", d, o, v) ==>
	(negated(d, o) ? is(v,*ast.NotNode) && refof(v) != 0 && rv("Comparison", d, re("logicalNOT", d, o), as(v,*ast.NotNode).Expr) : rv("Comparison", d, o, v))

// AND and OR between white space, and an operand
def andword(d seq int, o int) bool = rk("NotClause", d, o) && rk("space", d, and1(d, o)) && rk("logicalAND", d, and2(d, o)) && rk("space", d, and3(d, o))
def orword(d seq int, o int) bool = rk("AndClause", d, o) && rk("space", d, or1(d, o)) && rk("logicalOR", d, or2(d, o)) && rk("space", d, or3(d, o))
def conj(d seq int, o int) bool = andword(d, o) && rk("AndClause", d, and4(d, o))
def disj(d seq int, o int) bool = orword(d, o) && rk("OrClause", d, or4(d, o))
def noerr(d seq int, o int) bool = !rx("space", d, o) && !rx("logicalAND", d, o) && !rx("logicalOR", d, o)
lemma lang_quiet [C16] induct (len(d) - o) uses g, lang_space, lang_land, lang_lor : forall d seq int, o int :: {rx("space", d, o)} {rx("logicalAND", d, o)} {rx("logicalOR", d, o)} in(d, o) ==> noerr(d, o)
lemma lang_and [C16 "conjunctions"] uses g : forall d seq int, o int :: {rk("AndClause", d, o)} {re("AndClause", d, o)} {rx("AndClause", d, o)}
	rk("AndClause", d, o) == rk("NotClause", d, o)
	&& (rk("AndClause", d, o) ==> re("AndClause", d, o) == (conj(d, o) ? re("AndClause", d, and4(d, o)) : re("NotClause", d, o)))
	&& (noerr(d, and1(d, o)) && noerr(d, and2(d, o)) && (rk("logicalAND", d, and2(d, o)) ==> noerr(d, and3(d, o))) || !rk("NotClause", d, o) ==> rx("AndClause", d, o) == (rx("NotClause", d, o) || andword(d, o) && rx("AndClause", d, and4(d, o))))
lemma v_and [C16 "conjunction, grouped to the right"] uses g : forall d seq int, o int, v any :: {rv("AndClause", d, o, v)} rk("AndClause", d, o) && rv("AndClause", d, o, v) ==>
	(conj(d, o) ? is(v,*ast.AndNode) && refof(v) != 0 && rv("NotClause", d, o, as(v,*ast.AndNode).Left) && rv("AndClause", d, and4(d, o), as(v,*ast.AndNode).Right) : rv("NotClause", d, o, v))
lemma lang_or [C16 "disjunctions"] uses g : forall d seq int, o int :: {rk("OrClause", d, o)} {re("OrClause", d, o)} {rx("OrClause", d, o)}
	rk("OrClause", d, o) == rk("AndClause", d, o)
	&& (rk("OrClause", d, o) ==> re("OrClause", d, o) == (disj(d, o) ? re("OrClause", d, or4(d, o)) : re("AndClause", d, o)))
	&& (noerr(d, or1(d, o)) && noerr(d, or2(d, o)) && (rk("logicalOR", d, or2(d, o)) ==> noerr(d, or3(d, o))) || !rk("AndClause", d, o) ==> rx("OrClause", d, o) == (rx("AndClause", d, o) || orword(d, o) && rx("OrClause", d, or4(d, o))))
lemma v_or [C16 "disjunction, grouped to the right"] uses g : forall d seq int, o int, v any :: {rv("OrClause", d, o, v)} rk("OrClause", d, o) && rv("OrClause", d, o, v) ==>
	(disj(d, o) ? is(v,*ast.OrNode) && refof(v) != 0 && rv("AndClause", d, o, as(v,*ast.OrNode).Left) && rv("OrClause", d, or4(d, o), as(v,*ast.OrNode).Right) : rv("AndClause", d, o, v))

def fwd(d seq int, o int, n string) bool = rk(n, d, o) ==> o < re(n, d, o) && re(n, d, o) <= len(d)
lemma fwd_values [C16] uses lang_values, fwd_value, vend_fwd, lang_ws, wsend_fwd : forall d seq int, o int :: {rk("ValueList", d, o)} {re("ValueList", d, o)} in(d, o) ==> fwd(d, o, "ValueList")
lemma fwd_clauses [C16] induct (len(d) - o) uses lang_comparison, lang_not, lang_and, lang_or, lang_lnot, lang_land, lang_lor, lang_space, lang_ws, lang_noargs, wsend_fwd, fwd_values, in_operand : forall d seq int, o int :: {rk("Comparison", d, o)} {rk("NotClause", d, o)} {rk("AndClause", d, o)} {rk("OrClause", d, o)} {re("Comparison", d, o)} {re("NotClause", d, o)} {re("AndClause", d, o)} {re("OrClause", d, o)} in(d, o) ==>
	fwd(d, o, "Comparison") && fwd(d, o, "NotClause") && fwd(d, o, "AndClause") && fwd(d, o, "OrClause")

// without the conditions on ranges
lemma err_and [C16 "rejected conjunctions"] uses lang_and, fwd_clauses, lang_quiet, lang_space, lang_land, wsend_fwd : forall d seq int, o int :: {rx("AndClause", d, o)} in(d, o) ==> rx("AndClause", d, o) == (rx("NotClause", d, o) || andword(d, o) && rx("AndClause", d, and4(d, o)))
lemma err_or [C16 "rejected disjunctions"] uses lang_or, fwd_clauses, lang_quiet, lang_space, lang_lor, wsend_fwd : forall d seq int, o int :: {rx("OrClause", d, o)} in(d, o) ==> rx("OrClause", d, o) == (rx("AndClause", d, o) || orword(d, o) && rx("OrClause", d, or4(d, o)))
lemma err_comparison [C16 "rejected comparisons"] uses lang_comparison, fwd_clauses, lang_ws, wsend_fwd : forall d seq int, o int :: {rx("Comparison", d, o)} in(d, o) ==>
	rx("Comparison", d, o) == (ch(d, o, 40) && rx("OrClause", d, inner(d, o)) || !group(d, o) && (rx("Field", d, o) || !plaincmp(d, o) && named(d, o) && rx("ValueList", d, operands(d, o))))

lemma lang_query [C16 "surrounding white space"] uses g, lang_ws, wsend_fwd, fwd_clauses : forall d seq int, o int :: {rk("Query", d, o)} {re("Query", d, o)} {rx("Query", d, o)} in(d, o) ==>
	rk("Query", d, o) == rk("OrClause", d, wsend(d, o)) && rx("Query", d, o) == rx("OrClause", d, wsend(d, o)) && (rk("Query", d, o) ==> re("Query", d, o) == wsend(d, re("OrClause", d, wsend(d, o))))
lemma v_query [C16] uses g, lang_ws : forall d seq int, o int, v any :: {rv("Query", d, o, v)} in(d, o) && rv("Query", d, o, v) ==> rv("OrClause", d, wsend(d, o), v)
lemma lang_start [C16 "sentences"] uses g, lang_query, lang_eof, wsend_fwd, fwd_clauses : forall d seq int :: {sentence(d)}
	sentence(d) == (rk("OrClause", d, wsend(d, 0)) && !rx("OrClause", d, wsend(d, 0)) && wsend(d, re("OrClause", d, wsend(d, 0))) == len(d))
lemma v_start [C16 "tree of a sentence"] uses g, v_query : forall d seq int, v any :: {rv("Start", d, 0, v)} rv("Start", d, 0, v) ==> rv("OrClause", d, wsend(d, 0), v)
