// Formatted messages (C19): which part of a query is shown and highlighted.
package "github.com/flowchartsman/aql/parser/fmtmsg"

default nopanic C19

immutable Formatter, Printer

purepkg "html/template", "text/template"
alias htmltemplate "html/template"
alias texttemplate "text/template"

axiom runes_len : forall s string :: {runes(s)} len(runes(s)) == utf8.RuneCountInString(s)
axiom runes_pos : forall s string :: {utf8.RuneCountInString(s)} 0 <= utf8.RuneCountInString(s) && utf8.RuneCountInString(s) <= len(s)
axiom runes_prefix : forall s string, k int :: {utf8.RuneCountInString(s[:k])} 0 <= k && k <= len(s) ==> utf8.RuneCountInString(s[:k]) <= utf8.RuneCountInString(s)
axiom unrunes_cat : forall a seq int, b seq int :: {unrunes(a ++ b)} unrunes(a ++ b) == unrunes(a) ++ unrunes(b)
axiom unrunes_empty : unrunes(empty(int)) == ""

def nop() ast.Pos = mk(ast.Pos, 0, 0, 0 - 1, 0)

fun mpos(m Message) ast.Pos
fun mtext(m Message) string

// the position of a message and its text; a position lies in the query or is none
def msgpos(m Message) ast.Pos =
	is(m,*parser.ParserMessage) ? as(m,*parser.ParserMessage).Position
	: is(m,*parser.ParseError) ? as(m,*parser.ParseError).Position : mpos(m)
def msgtext(m Message) string =
	is(m,*parser.ParserMessage) ? as(m,*parser.ParserMessage).Msg
	: is(m,*parser.ParseError) ? as(m,*parser.ParseError).Msg : mtext(m)
def okmsg(m Message) bool =
	m != nil && (is(m,*parser.ParserMessage) || is(m,*parser.ParseError) ==> refof(m) != 0)
	&& (msgpos(m) == nop() || msgpos(m).Offset >= 0 && msgpos(m).Len >= 0)

iface Message.Pos(m)(r) {
	tags C19
	requires m != nil && (is(m,*parser.ParserMessage) || is(m,*parser.ParseError) ==> refof(m) != 0)
	ensures r == msgpos(m)
}
iface Message.Message(m)(r) {
	tags C19
	requires m != nil && (is(m,*parser.ParserMessage) || is(m,*parser.ParseError) ==> refof(m) != 0)
	ensures r == msgtext(m)
}

invariant [C19 "width is not negative, template present"] Formatter(f) f.maxwidth >= 0 && f.tmpl != nil
invariant [C19 "query as characters"] Printer(p) p.formatter != nil && seq(p.query) == runes(p.src)

def minof(a int, b int) int = a < b ? a : b

// end of the highlight
def hlend(d *printData) int = minof(d.pos.Offset + d.pos.Len, d.ro)

def pdok(d *printData) bool =
	d != nil && 0 <= d.lo && d.lo <= d.ro && d.ro <= len(d.query)
	&& (d.HasHL ==> d.lo <= d.pos.Offset && d.pos.Offset <= d.ro && d.pos.Len >= 0)

// the window: everything, or w characters with as much of the highlight as fits
def window(d *printData, w int) bool =
	(w > 0 && len(d.query) > w && d.HasHL ?
		d.ro - d.lo == w && (d.pos.Offset + d.pos.Len <= d.ro || d.ro == len(d.query) || d.lo == d.pos.Offset)
	: d.lo == 0 && d.ro == len(d.query))

func findCenterSubstring(r, w, s, e)(lo, ro) {
	tags C19
	requires 0 <= s && s < len(r) && s - 1 <= e && e < len(r) && w > 0
	ensures [C19 "everything if it fits"] w >= len(r) ==> lo == 0 && ro == len(r)
	ensures [C19 "window of the width"] w < len(r) ==> 0 <= lo && ro == lo + w && ro <= len(r)
	ensures [C19 "window starts before the highlight"] lo <= s && s <= ro && (s <= e ==> s < ro)
	ensures [C19 "highlight cut only if it does not fit"] e < ro || lo == s
}

func truncate(d, w)() {
	tags C19
	requires d != nil && d.lo == 0 && d.ro == len(d.query) && d.HasHL == (d.pos != nop()) && (d.HasHL ==> 0 <= d.pos.Offset && d.pos.Offset <= len(d.query) && d.pos.Len >= 0)
	modifies d.lo, d.ro
	ensures pdok(d)
	ensures [C19 "window"] window(d, w)
}

// what a template is given for a message
def pdquery(d *printData, p *Printer) bool = pdok(d) && seq(d.query) == seq(p.query)
def pdhas(d *printData, m Message) bool = d.HasHL == (msgpos(m) != nop())
def pdpos(d *printData, p *Printer, m Message) bool = d.HasHL ==> d.pos.Offset == utf8.RuneCountInString(p.src[:minof(msgpos(m).Offset, len(p.src))]) && d.pos.Len == msgpos(m).Len
def pdkind(d *printData, m Message) bool = d.msgType == (is(m,*parser.ParseError) ? msgError
	: is(m,*parser.ParserMessage) ? (as(m,*parser.ParserMessage).Type == parser.MsgError ? msgError
		: as(m,*parser.ParserMessage).Type == parser.MsgWarning ? msgWarning
		: as(m,*parser.ParserMessage).Type == parser.MsgHint ? msgInfo : msgUnknown)
	: msgUnknown)

func Printer.getPrintData(p, m)(d) {
	tags C19
	requires p != nil && okmsg(m)
	ensures pdquery(d, p)
	ensures [C19 "window"] window(d, p.formatter.maxwidth)
	ensures [C19 "highlight iff the message has a position"] pdhas(d, m)
	ensures [C19 "highlight starts at the position, in characters"] pdpos(d, p, m)
	ensures [C19 "text of the message"] d.Message == msgtext(m)
	ensures [C19 "kind of the message"] pdkind(d, m)
}

// what is shown: the window with an ellipsis where the query was cut
def left(d *printData) string = d.lo > 0 ? "..." : ""
def right(d *printData) string = d.ro < len(d.query) ? "..." : ""

func printData.Query(d)(s) {
	tags C19
	requires pdok(d)
	ensures [C19 "text shown"] s == left(d) ++ unrunes(d.query[d.lo:d.ro]) ++ right(d)
}
func printData.QueryPre(d)(s) {
	tags C19
	requires pdok(d)
	ensures [C19 "text before the highlight"] s == (d.HasHL ? left(d) ++ unrunes(d.query[d.lo:d.pos.Offset]) : left(d) ++ unrunes(d.query[d.lo:d.ro]) ++ right(d))
}
func printData.QueryHL(d)(s) {
	tags C19
	requires pdok(d)
	ensures [C19 "highlight"] s == (d.HasHL ? unrunes(d.query[d.pos.Offset:hlend(d)]) : "")
}
func printData.QueryPost(d)(s) {
	tags C19
	requires pdok(d)
	ensures [C19 "text after the highlight"] s == (d.HasHL ? unrunes(d.query[hlend(d):d.ro]) ++ right(d) : "")
}
func printData.HLStrOffset(d)(n) {
	tags C19
	requires pdok(d) && d.HasHL
	ensures [C19 "offset of the highlight in the text shown"] n == len(left(d)) + d.pos.Offset - d.lo
}
func printData.HLLen(d)(n) {
	tags C19
	requires pdok(d)
	ensures [C19 "length of the highlight"] d.HasHL ==> n == (d.ro < len(d.query) ? minof(d.pos.Len, d.ro - d.pos.Offset) : d.pos.Len)
	ensures [C19 "not negative"] d.HasHL ==> n >= 0
}
func printData.Type(d)(s) {
	tags C19
	requires d != nil
	ensures s == d.msgType
}

// the parts make up the text shown
lemma parts [C19] : forall q seq int, lo int, o int, h int, ro int ::
	{unrunes(q[lo:o]), unrunes(q[o:h]), unrunes(q[h:ro])}
	0 <= lo && lo <= o && o <= h && h <= ro && ro <= len(q) ==>
	unrunes(q[lo:o]) ++ unrunes(q[o:h]) ++ unrunes(q[h:ro]) == unrunes(q[lo:ro])

func pad(n)(s) {
	tags C19
	requires [C19 "not negative"] n >= 0
}

func Formatter.WithQuery(f, q)(p) {
	tags C19
	requires f != nil
	ensures [C19 "printer of the query"] p != nil && p.src == q && p.formatter == f
}

func NewFormatter(tmpl, html, w)(f, err) {
	tags C19
	ensures (err == nil) == (f != nil)
	ensures [C19 "width kept"] err == nil ==> f != nil && f.maxwidth == (w < 0 ? 0 : w)
	ensures [C19 "template escapes iff it is for HTML"] err == nil ==> is(f.tmpl,*htmltemplate.Template) == html && is(f.tmpl,*texttemplate.Template) == !html
}

func NewTerminalFormatter(w)(f) {
	tags C19
	ensures [C19 "width kept"] f != nil ==> f.maxwidth == (w < 0 ? 0 : w)
	ensures [C19 "template does not escape"] f != nil ==> is(f.tmpl,*texttemplate.Template)
}

// executions of templates: how many, and the last one
ghostvar shown int
ghostvar shownBy tmplExecutor
ghostvar shownTo io.Writer
ghostvar shownData *printData

// a template sees the message through the methods of printData above
iface tmplExecutor.Execute(t, w, data)(err) {
	assumed
	requires [C19 "template data is valid"] is(data,*printData) && pdok(as(data,*printData))
	modifies shown, shownBy, shownTo, shownData
	effect shown == old(shown) + 1 && shownBy == t && shownTo == w && shownData == as(data,*printData)
}

func Printer.Fprint(p, w, m)() {
	tags C19
	requires p != nil && okmsg(m)
	modifies shown, shownBy, shownTo, shownData
	ensures [C19 "shown once"] shown == old(shown) + 1 && shownBy == p.formatter.tmpl && shownTo == w
	ensures [C19 "window of the query"] shownData != nil && pdquery(shownData, p) && window(shownData, p.formatter.maxwidth)
	ensures [C19 "highlight at the position"] pdhas(shownData, m) && pdpos(shownData, p, m)
	ensures [C19 "text and kind of the message"] shownData.Message == msgtext(m) && pdkind(shownData, m)
}
func Printer.Sprint(p, m)(s) {
	tags C19
	requires p != nil && okmsg(m)
	modifies shown, shownBy, shownTo, shownData
	ensures [C19 "shown once"] shown == old(shown) + 1 && shownBy == p.formatter.tmpl && is(shownTo,*bytes.Buffer)
	ensures [C19 "window of the query"] shownData != nil && pdquery(shownData, p) && window(shownData, p.formatter.maxwidth)
	ensures [C19 "highlight at the position"] pdhas(shownData, m) && pdpos(shownData, p, m)
	ensures [C19 "text and kind of the message"] shownData.Message == msgtext(m) && pdkind(shownData, m)
}
