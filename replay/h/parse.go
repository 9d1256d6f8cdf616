package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	"math/rand"
	"regexp"
	"strconv"
	"strings"
	"time"
	"unicode"
	"unicode/utf8"

	"github.com/flowchartsman/aql/parser"
	"github.com/flowchartsman/aql/parser/ast"
)

// ---- reference parser ----
//
// A hand-written reading of the query language: ordered choice with the error
// rules of the grammar. It shares no code with the packages it is compared to.

type rnode struct {
	kind  byte // & | ! e
	kids  []*rnode
	op    string
	field []string
	vals  []*rval
	off   int
	text  string
}

type rval struct {
	typ  string
	text string
	off  int
	vague
}

// vague marks literals whose acceptance is a matter of the library used.
type vague struct{ unsure bool }

type rerr struct {
	off   int
	len   int // in characters, -1 if it is not a token
	token bool
	lit   bool // a literal that denotes nothing
}

type refParser struct {
	q      string
	errs   []rerr
	memo   map[[2]int]rres
	unsure bool
}

type rres struct {
	n   *rnode
	end int
	ok  bool
}

func (p *refParser) fail(off, n int) { p.errs = append(p.errs, rerr{off: off, len: n, token: n >= 0}) }

func (p *refParser) failLit(off, n int) {
	p.errs = append(p.errs, rerr{off: off, len: n, token: n >= 0, lit: true})
}

func ws(c byte) bool { return c == ' ' || c == '\n' || c == '\t' || c == '\r' }

func (p *refParser) skip(i int) int {
	for i < len(p.q) && ws(p.q[i]) {
		i++
	}
	return i
}

func (p *refParser) space(i int) (int, bool) { j := p.skip(i); return j, j > i }

func (p *refParser) lit(i int, s string) (int, bool) {
	if strings.HasPrefix(p.q[i:], s) {
		return i + len(s), true
	}
	return i, false
}

func (p *refParser) memoized(rule, i int, f func() (*rnode, int, bool)) (*rnode, int, bool) {
	if r, ok := p.memo[[2]int{rule, i}]; ok {
		return r.n, r.end, r.ok
	}
	n, e, ok := f()
	p.memo[[2]int{rule, i}] = rres{n, e, ok}
	return n, e, ok
}

func (p *refParser) binary(rule, i int, kind byte, word string, sub func(int) (*rnode, int, bool)) (*rnode, int, bool) {
	return p.memoized(rule, i, func() (*rnode, int, bool) {
		l, e, ok := sub(i)
		if !ok {
			return nil, i, false
		}
		if j, ok := p.space(e); ok {
			if j, ok = p.lit(j, word); ok {
				if j, ok = p.space(j); ok {
					if r, e2, ok := p.binary(rule, j, kind, word, sub); ok {
						return &rnode{kind: kind, kids: []*rnode{l, r}, off: i, text: p.q[i:e2]}, e2, true
					}
				}
			}
		}
		return l, e, true
	})
}

func (p *refParser) or(i int) (*rnode, int, bool)  { return p.binary(1, i, '|', "OR", p.and) }
func (p *refParser) and(i int) (*rnode, int, bool) { return p.binary(2, i, '&', "AND", p.not) }

func (p *refParser) not(i int) (*rnode, int, bool) {
	return p.memoized(3, i, func() (*rnode, int, bool) {
		j, ok := p.lit(i, "NOT")
		if ok {
			j, ok = p.space(j)
		}
		if !ok {
			if j, ok = p.lit(i, "!"); ok {
				j = p.skip(j)
			}
		}
		if ok {
			if n, e, ok := p.cmp(j); ok {
				return &rnode{kind: '!', kids: []*rnode{n}, off: i, text: p.q[i:e]}, e, true
			}
		}
		return p.cmp(i)
	})
}

func (p *refParser) cmp(i int) (*rnode, int, bool) {
	return p.memoized(4, i, func() (*rnode, int, bool) {
		if j, ok := p.lit(i, "("); ok {
			if n, e, ok := p.or(p.skip(j)); ok {
				if e, ok = p.lit(p.skip(e), ")"); ok {
					return n, e, true
				}
			}
		}
		f, e, ok := p.field(i)
		if !ok {
			return nil, i, false
		}
		e, ok = p.lit(p.skip(e), ":")
		if !ok {
			return nil, i, false
		}
		e = p.skip(e)
		for _, w := range []string{"exists", "null"} {
			if e2, ok := p.lit(e, w); ok {
				return &rnode{kind: 'e', op: w, field: f, off: i, text: p.q[i:e2]}, e2, true
			}
		}
		op := "=="
		for _, w := range []string{"><", "~", "<=", "<", ">=", ">"} {
			if e2, ok := p.lit(e, w); ok {
				op, e = w, e2
				break
			}
		}
		vals, e, ok := p.values(p.skip(e))
		if !ok {
			return nil, i, false
		}
		return &rnode{kind: 'e', op: op, field: f, vals: vals, off: i, text: p.q[i:e]}, e, true
	})
}

func wordRune(r rune) bool {
	r = unicode.ToLower(r)
	return r >= 'a' && r <= 'z' || r >= '0' && r <= '9' || r == '_' || r == '-'
}

func (p *refParser) piece(i int) (string, bool, int, bool) {
	if i < len(p.q) && p.q[i] == '"' {
		if v, e, ok := p.quoted(i); ok {
			s, _ := unquoteRef(v.text)
			return s, s == "*", e, true
		}
		return "", false, i, false
	}
	j := i
	for j < len(p.q) {
		r, n := utf8.DecodeRuneInString(p.q[j:])
		if !wordRune(r) {
			break
		}
		j += n
	}
	if j > i {
		return p.q[i:j], false, j, true
	}
	if i < len(p.q) && p.q[i] == '*' {
		return "*", true, i + 1, true
	}
	return "", false, i, false
}

func (p *refParser) field(i int) ([]string, int, bool) {
	s, star, e, ok := p.piece(i)
	if !ok {
		return nil, i, false
	}
	var out []string
	if !star {
		out = append(out, s)
	}
	for e < len(p.q) && p.q[e] == '.' {
		s, star, e2, ok := p.piece(e + 1)
		if !ok {
			break
		}
		if !star {
			out = append(out, s)
		}
		e = e2
	}
	if len(out) == 0 {
		p.fail(i, utf8.RuneCountInString(p.q[i:e]))
	}
	return out, e, true
}

func (p *refParser) values(i int) ([]*rval, int, bool) {
	if j, ok := p.lit(i, "("); ok {
		v, e, ok := p.value(p.skip(j))
		if ok {
			vs := []*rval{v}
			for {
				j, ok := p.lit(p.skip(e), ",")
				if !ok {
					break
				}
				v, e2, ok := p.value(p.skip(j))
				if !ok {
					break
				}
				vs, e = append(vs, v), e2
			}
			if e, ok = p.lit(p.skip(e), ")"); ok {
				if len(vs) == 1 {
					p.fail(i, -1)
				}
				return vs, e, true
			}
		}
	}
	v, e, ok := p.value(i)
	return []*rval{v}, e, ok
}

func digits(s string, n int) bool {
	if len(s) < n {
		return false
	}
	for k := 0; k < n; k++ {
		if s[k] < '0' || s[k] > '9' {
			return false
		}
	}
	return true
}

var (
	rxDate  = regexp.MustCompile(`^[0-9]{4}-[0-9]{2}-[0-9]{2}`)
	rxTime  = regexp.MustCompile(`^[0-9]{4}-[0-9]{2}-[0-9]{2}[Tt ][0-9]{2}:[0-9]{2}:[0-9]{2}(\.[0-9]+)?([Zz]|[+-][0-9]{2}:[0-9]{2})`)
	rxIP    = regexp.MustCompile(`^[0-9]{1,3}\.[0-9]{1,3}\.[0-9]{1,3}\.[0-9]{1,3}(/[0-9]{1,2})?`)
	rxFloat = regexp.MustCompile(`^-?[0-9]+\.[0-9]+`)
	rxInt   = regexp.MustCompile(`^-?[0-9]+`)
	rxBool  = regexp.MustCompile(`^(false|true)`)
)

func (p *refParser) value(i int) (*rval, int, bool) {
	s := p.q[i:]
	if strings.HasPrefix(s, `"`) {
		if v, e, ok := p.quoted(i); ok {
			return v, e, true
		}
	}
	if strings.HasPrefix(s, "/") {
		return p.regex(i)
	}
	for _, t := range []struct {
		typ string
		rx  *regexp.Regexp
	}{{"time", rxTime}, {"time", rxDate}, {"net", rxIP}, {"float", rxFloat}, {"int", rxInt}, {"bool", rxBool}} {
		m := t.rx.FindString(s)
		if m == "" {
			continue
		}
		v := &rval{typ: t.typ, text: m, off: i}
		bad, unsure := v.denotes()
		if bad {
			n := len(m)
			if t.typ == "int" {
				n = -1
			}
			p.failLit(i, n)
		}
		if unsure {
			p.unsure = true
		}
		return v, i + len(m), true
	}
	e := i
	for e < len(p.q) && !ws(p.q[e]) {
		e++
	}
	if e == i {
		return nil, i, false
	}
	p.fail(i, -1)
	return &rval{typ: "?", text: p.q[i:e], off: i}, e, true
}

func (p *refParser) quoted(i int) (*rval, int, bool) {
	e := i + 1
	for e < len(p.q) {
		c := p.q[e]
		if c == '\\' {
			if e+1 < len(p.q) && strings.IndexByte(`"\bfnrt`, p.q[e+1]) >= 0 {
				e += 2
				continue
			}
			if e+5 < len(p.q) && p.q[e+1] == 'u' && isHex(p.q[e+2:e+6]) {
				e += 6
				continue
			}
			break
		}
		if c == '"' || c < 0x20 {
			break
		}
		_, n := utf8.DecodeRuneInString(p.q[e:])
		e += n
	}
	if e >= len(p.q) || p.q[e] != '"' {
		p.fail(e, -1) // unterminated
		return &rval{typ: "string", text: p.q[i:e], off: i}, e, true
	}
	e++
	v := &rval{typ: "string", text: p.q[i:e], off: i}
	if _, ok := unquoteRef(v.text); !ok {
		p.failLit(i, utf8.RuneCountInString(v.text))
	}
	return v, e, true
}

func isHex(s string) bool {
	for k := 0; k < len(s); k++ {
		if strings.IndexByte("0123456789abcdefABCDEF", s[k]) < 0 {
			return false
		}
	}
	return len(s) == 4
}

func unquoteRef(s string) (string, bool) {
	if len(s) < 2 || s[0] != '"' || s[len(s)-1] != '"' {
		return "", false
	}
	s = s[1 : len(s)-1]
	var sb strings.Builder
	for k := 0; k < len(s); k++ {
		if s[k] != '\\' {
			sb.WriteByte(s[k])
			continue
		}
		k++
		if k >= len(s) {
			return "", false
		}
		switch s[k] {
		case 'b':
			sb.WriteByte(8)
		case 'f':
			sb.WriteByte(12)
		case 'n':
			sb.WriteByte(10)
		case 'r':
			sb.WriteByte(13)
		case 't':
			sb.WriteByte(9)
		case 'u':
			n := 0
			for _, c := range strings.ToLower(s[k+1 : k+5]) {
				n = n*16 + strings.IndexRune("0123456789abcdef", c)
			}
			if n >= 0xD800 && n < 0xE000 {
				return "", false
			}
			sb.WriteRune(rune(n))
			k += 4
		default:
			sb.WriteByte(s[k])
		}
	}
	return sb.String(), true
}

func (p *refParser) regex(i int) (*rval, int, bool) {
	e := i + 1
	for e < len(p.q) && p.q[e] != '/' && p.q[e] != '\n' {
		if p.q[e] == '\\' {
			if e+1 >= len(p.q) || p.q[e+1] == '\n' {
				break
			}
			e++
		}
		_, n := utf8.DecodeRuneInString(p.q[e:])
		e += n
	}
	if e >= len(p.q) || p.q[e] != '/' {
		p.fail(e, -1)
		return &rval{typ: "regex", text: p.q[i:e], off: i}, e, true
	}
	e++
	v := &rval{typ: "regex", text: p.q[i:e], off: i}
	if _, err := regexp.Compile(v.text[1 : len(v.text)-1]); err != nil {
		p.failLit(i, utf8.RuneCountInString(v.text))
	}
	return v, e, true
}

func atoi(s string) int { n, _ := strconv.Atoi(s); return n }

// denotes tells whether a literal stands for no value, or whether that depends
// on the library.
func (v *rval) denotes() (bad, unsure bool) {
	switch v.typ {
	case "int":
		n, _ := new(big.Int).SetString(v.text, 10)
		return !n.IsInt64(), false
	case "float":
		f, _, err := big.ParseFloat(v.text, 10, 2000, big.ToNearestEven)
		if err != nil {
			return true, false
		}
		x, _ := f.Float64()
		return x > 1e308*1.79769313486231580793e0 || x < -1e308*1.79769313486231580793e0, len(v.text) > 300
	case "net":
		a, b, has := strings.Cut(v.text, "/")
		for _, o := range strings.Split(a, ".") {
			if atoi(o) > 255 {
				return true, false
			}
			if len(o) > 1 && o[0] == '0' {
				return false, true
			}
		}
		if has && len(b) > 1 && b[0] == '0' {
			return false, true
		}
		return has && atoi(b) > 32, false
	case "time":
		y, m, d := atoi(v.text[:4]), atoi(v.text[5:7]), atoi(v.text[8:10])
		if m < 1 || m > 12 || d < 1 || d > monthDays(y, m) {
			return true, false
		}
		if len(v.text) == 10 {
			return false, false
		}
		if v.text[10] != 'T' || strings.HasSuffix(v.text, "z") {
			return false, true
		}
		if atoi(v.text[11:13]) > 23 || atoi(v.text[14:16]) > 59 || atoi(v.text[17:19]) > 59 {
			return true, false
		}
		if !strings.HasSuffix(v.text, "Z") {
			z := v.text[len(v.text)-5:]
			if atoi(z[:2]) > 23 || atoi(z[3:]) > 59 {
				return false, true
			}
		}
	}
	return false, false
}

func monthDays(y, m int) int {
	switch m {
	case 4, 6, 9, 11:
		return 30
	case 2:
		if y%4 == 0 && (y%100 != 0 || y%400 == 0) {
			return 29
		}
		return 28
	}
	return 31
}

// instant of a timestamp in seconds and nanoseconds since the epoch.
func (v *rval) instant() (int64, int64) {
	y, m, d := int64(atoi(v.text[:4])), int64(atoi(v.text[5:7])), int64(atoi(v.text[8:10]))
	// days since the epoch, years starting in March
	if m <= 2 {
		y--
		m += 12
	}
	fl := func(a, b int64) int64 {
		if a < 0 {
			return -((-a + b - 1) / b)
		}
		return a / b
	}
	days := 365*y + fl(y, 4) - fl(y, 100) + fl(y, 400) + (153*(m-3)+2)/5 + d - 1 - 719468
	sec, ns := days*86400, int64(0)
	if len(v.text) > 10 {
		sec += int64(atoi(v.text[11:13])*3600 + atoi(v.text[14:16])*60 + atoi(v.text[17:19]))
		rest := v.text[19:]
		if rest[0] == '.' {
			k := 1
			for k < len(rest) && rest[k] >= '0' && rest[k] <= '9' {
				k++
			}
			f := (rest[1:k] + "000000000")[:9]
			ns = int64(atoi(f))
			rest = rest[k:]
		}
		if rest[0] != 'Z' && rest[0] != 'z' {
			o := int64(atoi(rest[1:3])*3600 + atoi(rest[4:6])*60)
			if rest[0] == '-' {
				o = -o
			}
			sec -= o
		}
	}
	return sec, ns
}

// refParse returns the tree, or nil if the text is rejected; unsure if that
// depends on library details.
func refParse(q string) (n *rnode, errs []rerr, unsure bool) {
	n, errs, unsure, _ = refParse2(q)
	return
}

// refParse2 also tells whether only literals are to blame for a rejection.
func refParse2(q string) (n *rnode, errs []rerr, unsure, onlyLits bool) {
	p := &refParser{q: q, memo: map[[2]int]rres{}}
	n, e, ok := p.or(p.skip(0))
	if ok {
		e = p.skip(e)
		ok = e == len(q)
	}
	if !ok || len(p.errs) > 0 || !utf8.ValidString(q) {
		n = nil
		onlyLits = ok && utf8.ValidString(q)
		for _, e := range p.errs {
			onlyLits = onlyLits && e.lit
		}
	}
	return n, p.errs, p.unsure, onlyLits
}

func (n *rnode) walk(f func(*rnode)) {
	f(n)
	for _, k := range n.kids {
		k.walk(f)
	}
}

// ---- operand rules ----

func (n *rnode) illFormed() (bad, unsure bool) {
	num := func(v *rval) bool { return v.typ == "int" || v.typ == "float" }
	lists := func() {
		for i, a := range n.vals {
			for _, b := range n.vals[:i] {
				if a.typ == b.typ && a.text == b.text {
					bad = true
				} else if a.typ == b.typ && a.same(b) || num(a) && num(b) && a.same(b) {
					unsure = true
				}
				if n.op == "==" && a.typ == "bool" && b.typ == "bool" && a.text != b.text {
					bad = true
				}
			}
		}
	}
	switch n.op {
	case "exists", "null":
		return len(n.vals) > 0, false
	case "<", "<=", ">", ">=":
		return len(n.vals) != 1 || !num(n.vals[0]) && n.vals[0].typ != "time", false
	case "><":
		if len(n.vals) != 2 {
			return true, false
		}
		a, b := n.vals[0], n.vals[1]
		if num(a) && num(b) {
			return a.float().Cmp(b.float()) >= 0, false
		}
		if a.typ == "time" && b.typ == "time" {
			s1, n1 := a.instant()
			s2, n2 := b.instant()
			return s1 > s2 || s1 == s2 && n1 >= n2, false
		}
		return true, false
	case "~":
		for _, v := range n.vals {
			if v.typ != "string" && v.typ != "regex" && v.typ != "bool" {
				return true, false
			}
		}
	}
	lists()
	return bad, unsure
}

// float is the value compared by the range operator: float64.
func (v *rval) float() *big.Float {
	f, _ := strconv.ParseFloat(v.text, 64)
	return big.NewFloat(f)
}

func (v *rval) same(o *rval) bool {
	switch v.typ {
	case "int", "float":
		return v.float().Cmp(o.float()) == 0
	case "string":
		a, _ := unquoteRef(v.text)
		b, _ := unquoteRef(o.text)
		return a == b
	case "net":
		return strings.TrimSuffix(v.text, "/32") == strings.TrimSuffix(o.text, "/32")
	case "time":
		a, x := v.instant()
		b, y := o.instant()
		return a == b && x == y
	}
	return v.text == o.text
}

func (n *rnode) valid() (ok, unsure bool) {
	ok = true
	n.walk(func(e *rnode) {
		if e.kind == 'e' {
			b, u := e.illFormed()
			ok = ok && !b
			unsure = unsure || u
		}
	})
	return
}

// ---- comparisons with the real tree ----

// diffTree compares structure, or the values of literals.
func diffTree(q string, r *rnode, n ast.Node, values bool) string {
	switch r.kind {
	case '&', '|':
		var l, rr ast.Node
		switch t := n.(type) {
		case *ast.AndNode:
			if r.kind == '&' {
				l, rr = t.Left, t.Right
			}
		case *ast.OrNode:
			if r.kind == '|' {
				l, rr = t.Left, t.Right
			}
		}
		if l == nil || rr == nil {
			return fmt.Sprintf("query %q: %q is a %T", q, r.text, n)
		}
		if d := diffTree(q, r.kids[0], l, values); d != "" {
			return d
		}
		return diffTree(q, r.kids[1], rr, values)
	case '!':
		t, ok := n.(*ast.NotNode)
		if !ok {
			return fmt.Sprintf("query %q: %q is a %T", q, r.text, n)
		}
		return diffTree(q, r.kids[0], t.Expr, values)
	}
	e, ok := n.(*ast.ExprNode)
	if !ok {
		return fmt.Sprintf("query %q: %q is a %T", q, r.text, n)
	}
	if string(e.Op) != r.op {
		return fmt.Sprintf("query %q: the operator of %q is %q", q, r.text, e.Op)
	}
	if strings.Join(e.Field, "\x00") != strings.Join(r.field, "\x00") || len(e.Field) != len(r.field) {
		return fmt.Sprintf("query %q: the field of %q is %q, want %q", q, r.text, e.Field, r.field)
	}
	if len(e.RVals) != len(r.vals) {
		return fmt.Sprintf("query %q: %q has %d values, want %d", q, r.text, len(e.RVals), len(r.vals))
	}
	for i, v := range r.vals {
		if v.typeOf(e.RVals[i]) != v.typ {
			return fmt.Sprintf("query %q: value %d of %q is a %T, want %s", q, i, r.text, e.RVals[i], v.typ)
		}
		d := v.diffValue(e.RVals[i])
		if d == "" {
			continue
		}
		if values {
			return fmt.Sprintf("query %q: value %d of %q: %s", q, i, r.text, d)
		}
		for j, w := range r.vals {
			if j != i && w.typeOf(e.RVals[i]) == w.typ && w.diffValue(e.RVals[i]) == "" {
				return fmt.Sprintf("query %q: value %d of %q is %s", q, i, r.text, w.text)
			}
		}
	}
	return ""
}

func (v *rval) typeOf(x ast.Val) string {
	switch x.(type) {
	case *ast.IntVal:
		return "int"
	case *ast.FloatVal:
		return "float"
	case *ast.StringVal:
		return "string"
	case *ast.BoolVal:
		return "bool"
	case *ast.RegexpVal:
		return "regex"
	case *ast.NetVal:
		return "net"
	case *ast.TimeVal:
		return "time"
	}
	return "?"
}

func (v *rval) diffValue(x ast.Val) string {
	switch t := x.(type) {
	case *ast.IntVal:
		if big.NewInt(t.Value()).Cmp(func() *big.Int { n, _ := new(big.Int).SetString(v.text, 10); return n }()) != 0 {
			return fmt.Sprintf("%s has the value %d", v.text, t.Value())
		}
		if t.Type() != ast.TypeInt {
			return "type " + string(t.Type())
		}
	case *ast.FloatVal:
		r, _ := new(big.Rat).SetString(v.text)
		if f, _ := r.Float64(); f != t.Value() {
			return fmt.Sprintf("%s has the value %v", v.text, t.Value())
		}
		if t.Type() != ast.TypeFloat {
			return "type " + string(t.Type())
		}
	case *ast.StringVal:
		if s, _ := unquoteRef(v.text); s != t.Value() {
			return fmt.Sprintf("%s has the content %q", v.text, t.Value())
		}
		if t.Type() != ast.TypeString {
			return "type " + string(t.Type())
		}
	case *ast.BoolVal:
		if (v.text == "true") != t.Value() {
			return fmt.Sprintf("%s has the value %v", v.text, t.Value())
		}
		if t.Type() != ast.TypeBool {
			return "type " + string(t.Type())
		}
	case *ast.RegexpVal:
		if t.Value() == nil || t.Value().String() != v.text[1:len(v.text)-1] {
			return fmt.Sprintf("%s is the expression %v", v.text, t.Value())
		}
		if t.Type() != ast.TypeRegex {
			return "type " + string(t.Type())
		}
	case *ast.NetVal:
		a, b, has := strings.Cut(v.text, "/")
		bits := 32
		if has {
			bits = atoi(b)
		}
		var o [4]byte
		for i, s := range strings.Split(a, ".") {
			o[i] = byte(atoi(s))
		}
		if !t.Value().Addr().Is4() || t.Value().Addr().As4() != o || t.Value().Bits() != bits {
			return fmt.Sprintf("%s is the network %v", v.text, t.Value())
		}
		if t.Type() != ast.TypeNet {
			return "type " + string(t.Type())
		}
	case *ast.TimeVal:
		s, ns := v.instant()
		if t.Value().Unix() != s || int64(t.Value().Nanosecond()) != ns {
			return fmt.Sprintf("%s is the instant %v", v.text, t.Value().UTC().Format(time.RFC3339Nano))
		}
		if t.DayOnly() != (len(v.text) == 10) {
			return fmt.Sprintf("%s: day only is %v", v.text, t.DayOnly())
		}
		if t.Type() != ast.TypeTime {
			return "type " + string(t.Type())
		}
	}
	return ""
}

// diffPos compares a position with the text it should mark.
func diffPos(q, what, text string, off int, p ast.Pos) string {
	l, c := lineCol(q, off)
	want := ast.Pos{Line: l, Col: c, Offset: off, Len: utf8.RuneCountInString(text)}
	if p != want {
		return fmt.Sprintf("query %q: position of %s %q is %+v, want %+v", q, what, text, p, want)
	}
	return ""
}

func lineCol(q string, off int) (int, int) {
	l := 1 + strings.Count(q[:off], "\n")
	return l, 1 + utf8.RuneCountInString(q[strings.LastIndexByte(q[:off], '\n')+1:off])
}

func diffPositions(q string, r *rnode, n ast.Node) string {
	switch t := n.(type) {
	case *ast.AndNode:
		if r.kind == '&' {
			if d := diffPositions(q, r.kids[0], t.Left); d != "" {
				return d
			}
			return diffPositions(q, r.kids[1], t.Right)
		}
	case *ast.OrNode:
		if r.kind == '|' {
			if d := diffPositions(q, r.kids[0], t.Left); d != "" {
				return d
			}
			return diffPositions(q, r.kids[1], t.Right)
		}
	case *ast.NotNode:
		if r.kind == '!' {
			return diffPositions(q, r.kids[0], t.Expr)
		}
	case *ast.ExprNode:
		if r.kind != 'e' || len(t.RVals) != len(r.vals) {
			return ""
		}
		if d := diffPos(q, "comparison", r.text, r.off, t.Pos()); d != "" {
			return d
		}
		for i, v := range r.vals {
			if d := diffPos(q, "value", v.text, v.off, t.RVals[i].Pos()); d != "" {
				return d
			}
		}
	}
	return ""
}

func diffErrPos(q string, p ast.Pos) string {
	if p == ast.NoPosition() {
		return ""
	}
	if p.Offset < 0 || p.Offset > len(q) || p.Len < 0 {
		return fmt.Sprintf("query %q: position %+v of the error lies outside", q, p)
	}
	l, c := lineCol(q, p.Offset)
	if p.Line == l && p.Col == c || p.Offset < len(q) && q[p.Offset] == '\n' && p.Line == l+1 && p.Col == 0 {
		if rest := utf8.RuneCountInString(q[p.Offset:]); p.Len > 1 && p.Len > rest {
			return fmt.Sprintf("query %q: the error at %+v reaches past the end", q, p)
		}
		return ""
	}
	return fmt.Sprintf("query %q: line and column of the error at %+v are %d:%d", q, p, l, c)
}

// ---- generators ----

var (
	qFields = []string{"a", "b.c", "*.a", "a.*.b", `"a b"`, `"a.b".c`, `"*".x`, "A_b-1", "0", "NOT", "OR", "exists", `"é\u00e9"`, "*", `"*"`, "null", "a.*", "*.*.a.*", `"\n"`, `"q\"q"`, "trueish", "\u212a", "x9"}
	qVals   = []string{"1", "-1", "0", "007", "42", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "1.5", "-0.0", "0.1", "1.10", "3.", ".5", "1e3", "1.2.3", "12345678901234567890.5", "0.30000000000000004", "1.7976931348623157", `""`, `"x"`, `"a\nb"`, `"\u0041"`, `"\ud800"`, `"\ud83d\ude00"`, `"é\t\\\"\b\f\r"`, `"\x41"`, `"a`, `"tab	in"`, `"*?"`, "\"\ufffd\"", "/\ufffd+/", "true", "false", "True", "truex", "/a/", "/a.b*/", `/a\/b/`, `/\//`, "//", "/(/", "/[/", "/é+/", "/a", `/\n\\/`, "1.2.3.4", "10.0.0.0/8", "1.2.3.4/32", "1.2.3.4/33", "256.1.1.1", "1.2.3.4/0", "01.2.3.4", "255.255.255.255/1", "1.2.3.4/99", "1.2.3.4.5", "2020-01-02", "2020-02-29", "2021-02-29", "1900-02-29", "2000-02-29", "2020-13-01", "2020-00-10", "2020-04-31", "0000-01-01", "9999-12-31", "2020-01-02T03:04:05Z", "2020-01-02T03:04:05.123456789Z", "2020-01-02T03:04:05.1Z", "2020-01-02T23:59:59+05:30", "2020-01-02T00:00:00-08:00", "2020-01-02T24:00:00Z", "2020-01-02T03:60:05Z", "2020-01-02T03:04:60Z", "2020-01-02t03:04:05z", "2020-01-02 03:04:05Z", "2020-01-02T03:04:05", "2020-01-02T03:04Z", "2020-1-2", "exists", "null", "NOT", "-", "--1", "x", "_", "1x", ")", "*"}
	qOps    = []string{"", "", "", "<", "<=", ">", ">=", "><", "~", "=", "==", "<>", "=>"}
	qGood   = []string{"1", "2", "-3", "1.5", "2.25", `"x"`, `"y z"`, "true", "false", "/a/", `/b\/c/`, "1.2.3.4", "10.0.0.0/8", "2020-01-02", "2021-03-04", "2020-01-02T03:04:05Z", "2022-01-02T03:04:05.5+01:00", `"é"`, `"ü"`}
)

func qws(r *rand.Rand, must bool) string {
	if !must && !chance(r, 3) {
		return ""
	}
	s := ""
	for {
		s += pick(r, []string{" ", " ", " ", "\n", "\t", "\r\n"})
		if !chance(r, 4) {
			return s
		}
	}
}

func genValueText(r *rand.Rand, good bool) string {
	if good {
		return pick(r, qGood)
	}
	if chance(r, 5) {
		// a timestamp, network, number or string made up
		switch r.Intn(5) {
		case 0:
			s := fmt.Sprintf("%04d-%02d-%02d", pick(r, []int{r.Intn(10000), 1970, 2000, 2024, 1900, 2100}), 1+r.Intn(12), 1+r.Intn(31))
			if chance(r, 2) {
				return s
			}
			s += fmt.Sprintf("T%02d:%02d:%02d", r.Intn(25), r.Intn(60), r.Intn(60))
			if chance(r, 2) {
				s += "." + strconv.Itoa(r.Intn(1000000000))
			}
			if chance(r, 2) {
				return s + "Z"
			}
			return s + fmt.Sprintf("%s%02d:%02d", pick(r, []string{"+", "-"}), r.Intn(24), r.Intn(60))
		case 1:
			s := fmt.Sprintf("%d.%d.%d.%d", r.Intn(260), r.Intn(260), r.Intn(256), r.Intn(256))
			if chance(r, 2) {
				s += fmt.Sprintf("/%d", r.Intn(35))
			}
			return s
		case 2:
			return strconv.FormatInt(int64(r.Uint64()), 10)
		case 3:
			return strconv.FormatFloat(r.NormFloat64()*pick(r, []float64{1, 1e-5, 1e20, 1e300}), 'f', 1+r.Intn(20), 64)
		default:
			s := `"`
			for n := r.Intn(6); n > 0; n-- {
				s += pick(r, []string{"a", "é", "\\n", "\\\\", "\\\"", "\\u00e9", "\\u20AC", "𝄞", " ", "/", "\\t", "\\b", "'", "\\ufffd", "\ufffd", "\u007f"})
			}
			return s + `"`
		}
	}
	return pick(r, qVals)
}

func genCmpText(r *rand.Rand, good bool) string {
	f := pick(r, qFields)
	if good || chance(r, 2) {
		f = pick(r, []string{"a", "b.c", `"a b".c`, "*.x", "d_1"})
	}
	s := f + qws(r, false) + ":" + qws(r, false)
	if chance(r, 8) {
		return s + pick(r, []string{"exists", "null"})
	}
	op := pick(r, qOps)
	if good {
		op = pick(r, []string{"", "", "~", "<", "><", ">="})
	}
	s += op + qws(r, false)
	n := 1
	if op == "><" && !chance(r, 6) {
		n = 2
	} else if chance(r, 3) {
		n = 1 + r.Intn(4)
	}
	var vals []string
	same := chance(r, 2)
	first := ""
	for i := 0; i < n; i++ {
		v := genValueText(r, good || !chance(r, 3))
		if i > 0 && chance(r, 6) {
			v = vals[r.Intn(i)]
		}
		if same && i > 0 && (op == "><" || op == "<") {
			if strings.Contains(first, "-0") {
				v = pick(r, []string{"2020-01-02", "2021-03-04", "2020-01-02T03:04:05Z", "2019-01-01", "2020-01-02T00:00:00Z"})
			} else {
				v = pick(r, []string{"1", "2", "-3", "1.5", "2.25", "100", "1.0"})
			}
		}
		if i == 0 {
			first = v
			if op == "><" || op == "<" || op == ">=" || op == ">" || op == "<=" {
				v = pick(r, []string{v, "1", "2", "-3", "1.5", "2020-01-02", "2020-06-02", "2020-01-02T03:04:05Z"})
				first = v
			}
		}
		vals = append(vals, v)
	}
	if n == 1 && !chance(r, 12) {
		return s + vals[0]
	}
	s += "(" + qws(r, false)
	for i, v := range vals {
		if i > 0 {
			s += qws(r, false) + "," + qws(r, false)
		}
		s += v
	}
	return s + qws(r, false) + ")"
}

func genQueryText(r *rand.Rand, depth int, good bool) string {
	if depth <= 0 || chance(r, 4) {
		return genCmpText(r, good)
	}
	not := func() string {
		if chance(r, 2) {
			return "!" + qws(r, false)
		}
		return "NOT" + qws(r, true)
	}
	switch r.Intn(8) {
	case 6, 7: // a chain without parentheses
		var sb strings.Builder
		for n := 2 + r.Intn(4); n > 0; n-- {
			if chance(r, 3) {
				sb.WriteString(not())
			}
			if chance(r, 8) {
				sb.WriteString("(" + genQueryText(r, depth-1, good) + ")")
			} else {
				sb.WriteString(genQueryText(r, 0, good))
			}
			if n > 1 {
				sb.WriteString(qws(r, true) + pick(r, []string{"AND", "AND", "OR"}) + qws(r, true))
			}
		}
		return sb.String()
	case 0:
		return not() + genQueryText(r, 0, good)
	case 1:
		return not() + "(" + genQueryText(r, depth-1, good) + ")"
	case 2:
		return "(" + qws(r, false) + genQueryText(r, depth-1, good) + qws(r, false) + ")"
	case 3:
		return genQueryText(r, depth-1, good) + qws(r, true) + "OR" + qws(r, true) + genQueryText(r, depth-1, good)
	default:
		return genQueryText(r, depth-1, good) + qws(r, true) + "AND" + qws(r, true) + genQueryText(r, depth-1, good)
	}
}

var soup = []string{"a", "b", ":", ".", "*", "(", ")", ",", "AND", "OR", "NOT", "!", " ", " ", "\n", "1", "-", "2.5", `"`, `\`, "/", "true", "exists", "null", "<", ">", "=", "~", "é", "\x80", "\u212a", "2020-01-02", "T", "Z", "'", "{", "}"}

func genAnyQuery(r *rand.Rand) string {
	q := qws(r, false) + genQueryText(r, r.Intn(3), chance(r, 2)) + qws(r, false)
	for chance(r, 3) {
		if len(q) == 0 {
			break
		}
		i := r.Intn(len(q))
		switch r.Intn(5) {
		case 0:
			q = q[:i] + q[i+1:]
		case 1:
			q = q[:i] + pick(r, soup) + q[i:]
		case 2:
			j := i + r.Intn(len(q)-i)
			q = q[:i] + q[j:]
		case 3:
			q = q[:i]
		case 4:
			q = q[:i] + pick(r, soup) + q[i+1:]
		}
	}
	if chance(r, 10) {
		q = ""
		for n := r.Intn(9); n > 0; n-- {
			q += pick(r, soup)
		}
	}
	if strings.Count(q, "(") > 8 {
		return "a:1"
	}
	return q
}

var parseFixed = func() []Case {
	var out []Case
	for _, v := range qVals {
		out = append(out, Case{Query: B("a:" + v)}, Case{Query: B("é:1 OR\n a:(1, " + v + ")")})
	}
	for _, f := range qFields {
		out = append(out, Case{Query: B(f + ":1")}, Case{Query: B(" " + f + "." + f + " : exists")})
	}
	for _, q := range []string{"", " ", "a", "a:", "a:1", "a:1 b:2", "a:1 AND b:2 OR c:3", "a:1 OR b:2 AND c:3", "a:1 OR b:2 OR c:3", "a:1 AND b:2 AND c:3", "NOT a:1 AND b:2", "NOT (a:1 AND b:2)", "!a:1 OR !b:2", "! a:1", "!!a:1", "NOT NOT a:1", "NOTa:1", "NOT:1", "NOT :1", "NOT NOT:1", "a:1AND b:2", "a:1 ANDb:2", "a:1 and b:2", "(a:1)", "((a:1))", "(a:1 OR b:2) AND c:3", "a:1 AND (b:2 OR c:3)", "( a:1 ) ", "(a:1", "a:1)", "a:(1)", "a:(1,2)", "a:(1 2)", "a:(1,)", "a:()", "a:(,1)", "a:1,2", "a:exists b:null", "a:exists AND b:null", "a:existsAND b:1", "a:null OR b:exists", "a:<1", "a:< 1", "a:<=1", "a:>=1", "a:>1", "a:><(1,2)", "a:><(1, 2) AND b:1", "a:~true", "a:=1", "a :1", "a: 1", "a\n:\n1\n", "\n\na:1", "é:1", "\"é\":\"é\" AND b:\"x", "a:1 AND\n\tb:/x", "a.b.c:1", "a..b:1", ".a:1", "a.:1", "a.*:1", "*:1", "a:\x80", "a:1 \xff", "\xffa:1", "a:1 AND (b:2 AND (c:3 OR d:4))", "(a:1 OR b:2) AND (c:3 OR d:4)", "((a:1 AND b:2) OR c:3) AND d:4", "NOT (a:1) AND !(b:2 OR c:3)"} {
		out = append(out, Case{Query: B(q)})
	}
	return out
}()

func parseGen(r *rand.Rand) Case { return Case{Query: B(genAnyQuery(r))} }

const parseBound = "random texts of up to about 200 characters and at most 8 parentheses, and a fixed list of odd ones"

// ---- C13, C16, C17, C18 ----

func c13() *Prop {
	run := func(c *Case) (string, bool) {
		q := string(c.Query)
		r, _, unsure := refParse(q)
		if r == nil || unsure {
			return "", true
		}
		ok, unsure := r.valid()
		n, err := parser.ParseQuery(q)
		if err == nil && n == nil {
			return fmt.Sprintf("query %q: neither tree nor error", q), false
		}
		if unsure && ok {
			return "", true
		}
		if (err == nil) != ok {
			return fmt.Sprintf("query %q: operands are well-formed: %v, parsing returns %v", q, ok, err), false
		}
		if ok {
			return "", false
		}
		var pe *parser.ParseError
		if !errors.As(err, &pe) {
			return fmt.Sprintf("query %q: error %v has no position", q, err), false
		}
		found := false
		r.walk(func(e *rnode) {
			if e.kind != 'e' {
				return
			}
			if b, _ := e.illFormed(); !b {
				return
			}
			found = found || pe.Pos().Offset == e.off && pe.Pos().Len == utf8.RuneCountInString(e.text)
			for _, v := range e.vals {
				found = found || pe.Pos().Offset == v.off && pe.Pos().Len == utf8.RuneCountInString(v.text)
			}
		})
		if !found {
			return fmt.Sprintf("query %q: error %v is at no offending value or comparison", q, err), false
		}
		return "", false
	}
	p := &Prop{rule: "acceptance of syntactically correct queries compared with the operand rules evaluated on an independent parse; error positions compared with the ill-formed comparisons", bound: parseBound, run: run, fixed: parseFixed,
		gen: func(r *rand.Rand) Case {
			if chance(r, 4) {
				return Case{Query: B(genAnyQuery(r))}
			}
			return Case{Query: B(genQueryText(r, r.Intn(3), true))}
		}}
	times := []string{"2020-01-02", "2020-01-02T00:00:00Z", "2020-01-02T02:00:00+02:00", "2020-01-01T16:00:00-08:00", "2020-01-02T00:00:01Z", "2020-01-03T00:00:00+02:00", "2020-01-02T00:00:00.000000001Z"}
	for _, v := range times {
		for _, w := range times {
			p.fixed = append(p.fixed, Case{Query: B("a:><(" + v + "," + w + ")")}, Case{Query: B("a:(" + v + "," + w + ")")})
		}
	}
	nums := []string{"1", "1.0", "-1", "0", "-0.0", "0.0", "1e0", "9007199254740992", "9007199254740993", "9007199254740992.0", "1.5"}
	for _, v := range nums {
		for _, w := range nums {
			p.fixed = append(p.fixed, Case{Query: B("a:><(" + v + "," + w + ")")}, Case{Query: B("a:(" + v + "," + w + ")")})
		}
	}
	vals := []string{"1", "1.5", `"s"`, "/r/", "true", "false", "1.2.3.4", "2020-01-02", "2020-01-03T00:00:00Z", "2"}
	for _, op := range []string{"", "<", "<=", ">", ">=", "><", "~"} {
		for _, v := range vals {
			p.fixed = append(p.fixed, Case{Query: B("x:1 AND NOT (b:2 OR a:" + op + v + ")")})
			for _, w := range vals {
				p.fixed = append(p.fixed, Case{Query: B("a:" + op + "(" + v + "," + w + ")")}, Case{Query: B("!(a:" + op + "(" + v + "," + w + `,"t"))`)})
			}
		}
	}
	return p
}

func c16() *Prop {
	run := func(c *Case) (string, bool) {
		q := string(c.Query)
		r, _, unsure, onlyLits := refParse2(q)
		n, err := parser.ParseQuery(q)
		if r == nil {
			if err == nil && !unsure && !onlyLits {
				return fmt.Sprintf("query %q is accepted as %v, it is no sentence of the language", q, n), false
			}
			return "", unsure || onlyLits
		}
		if err != nil {
			if ok, u := r.valid(); unsure || u || !ok {
				return "", true
			}
			return fmt.Sprintf("query %q is rejected: %v", q, err), false
		}
		return diffTree(q, r, n, false), false
	}
	return &Prop{rule: "acceptance and tree compared with an independent recursive-descent parser", bound: parseBound, run: run, fixed: parseFixed, gen: parseGen}
}

func c17() *Prop {
	run := func(c *Case) (string, bool) {
		q := string(c.Query)
		r, _, unsure, onlyLits := refParse2(q)
		n, err := parser.ParseQuery(q)
		if r == nil {
			if err == nil && !unsure && onlyLits {
				return fmt.Sprintf("query %q is accepted as %v, it has a literal without a value", q, n), false
			}
			return "", !onlyLits
		}
		if err != nil {
			if ok, u := r.valid(); unsure || u || !ok {
				return "", true
			}
			return fmt.Sprintf("query %q is rejected: %v", q, err), false
		}
		return diffTree(q, r, n, true), false
	}
	return &Prop{rule: "values of literals compared with an independent reading of their text", bound: parseBound, run: run, fixed: parseFixed,
		gen: func(r *rand.Rand) Case {
			if chance(r, 3) {
				return parseGen(r)
			}
			return Case{Query: B("a:" + genValueText(r, false) + " OR b:(" + genValueText(r, true) + ", " + genValueText(r, chance(r, 2)) + ")")}
		}}
}

func c18() *Prop {
	run := func(c *Case) (string, bool) {
		q := string(c.Query)
		r, errs, unsure := refParse(q)
		n, err := parser.ParseQuery(q)
		if err == nil {
			if r == nil {
				return "", true
			}
			return diffPositions(q, r, n), false
		}
		var pe *parser.ParseError
		if !errors.As(err, &pe) {
			return fmt.Sprintf("query %q: error %v has no position", q, err), false
		}
		if d := diffErrPos(q, pe.Pos()); d != "" {
			return d, false
		}
		if pe.Pos() == ast.NoPosition() {
			return fmt.Sprintf("query %q: error %v has no position", q, err), false
		}
		if len(errs) > 0 && !unsure && utf8.ValidString(q) {
			e := errs[0]
			if pe.Pos().Offset != e.off || e.token && pe.Pos().Len != e.len {
				return fmt.Sprintf("query %q: the error %v is at %+v, want offset %d (length %d)", q, err, pe.Pos(), e.off, e.len), false
			}
		}
		return "", false
	}
	return &Prop{rule: "positions of comparisons, values and errors compared with an independent parse and a count of lines and characters", bound: parseBound, run: run, fixed: parseFixed, gen: parseGen}
}

// ---- C14: visitors ----

type vscript struct {
	At   []int  `json:"at"`   // visits at which it does something
	Does []byte `json:"does"` // s skip, S skip all, e error, p parse error
}

func (s *vscript) does(k int) byte {
	for i, a := range s.At {
		if a == k {
			return s.Does[i]
		}
	}
	return 0
}

func nodeID(n ast.Node) string {
	if e, ok := n.(*ast.ExprNode); ok {
		return fmt.Sprintf("%s@%d", n, e.Position.Offset)
	}
	return fmt.Sprintf("%T %s", n, n)
}

// refWalk runs the script over the tree and logs; it returns what ends it.
func refWalk(r *rnode, s *vscript, k *int, log *[]string, who int) byte {
	*log = append(*log, fmt.Sprintf("%d:%s", who, r.id()))
	d := s.does(*k)
	*k++
	switch d {
	case 's':
		return 0
	case 'S', 'e', 'p':
		return d
	}
	for _, c := range r.kids {
		if d := refWalk(c, s, k, log, who); d != 0 {
			return d
		}
	}
	return 0
}

func (r *rnode) id() string {
	switch r.kind {
	case '&':
		return fmt.Sprintf("*ast.AndNode %s", r.str())
	case '|':
		return fmt.Sprintf("*ast.OrNode %s", r.str())
	case '!':
		return fmt.Sprintf("*ast.NotNode %s", r.str())
	}
	return fmt.Sprintf("%s@%d", r.str(), r.off)
}

func (r *rnode) str() string {
	switch r.kind {
	case '&':
		return "(&& " + r.kids[0].str() + " " + r.kids[1].str() + ")"
	case '|':
		return "(|| " + r.kids[0].str() + " " + r.kids[1].str() + ")"
	case '!':
		return "(! " + r.kids[0].str() + ")"
	}
	s := "(" + r.op + " " + strings.Join(r.field, ".")
	if len(r.vals) > 0 {
		s += " " + r.vals[0].text
	}
	return s + ")"
}

type vcase struct {
	Visitors []vscript `json:"visitors"`
}

func simpleTree(r *rand.Rand, depth int) string {
	if depth <= 0 || chance(r, 5) {
		return pick(r, []string{"a:1", "b:2", "c:exists", "d.e:<3", "f:\"x\"", "g:true"})
	}
	switch r.Intn(4) {
	case 0:
		return "NOT (" + simpleTree(r, depth-1) + ")"
	case 1:
		return "(" + simpleTree(r, depth-1) + ") AND (" + simpleTree(r, depth-1) + ")"
	case 2:
		return "(" + simpleTree(r, depth-1) + " OR " + simpleTree(r, depth-1) + ")"
	default:
		return simpleTree(r, depth-1) + " AND " + simpleTree(r, depth-1)
	}
}

func c14() *Prop {
	run := func(c *Case) (string, bool) {
		q := string(c.Query)
		var vc vcase
		if json.Unmarshal(c.Raw, &vc) != nil {
			return "", true
		}
		r, _, unsure := refParse(q)
		if r == nil || unsure {
			return "", true
		}
		valid, u := r.valid()
		if u {
			return "", true
		}
		var got, want []string
		var opts []parser.Option
		wantEnd, wantWho := byte(0), -1
		errOf := func(i int, kind byte) error {
			switch kind {
			case 's':
				return parser.Skip
			case 'S':
				return parser.SkipAll
			case 'p':
				return parser.ErrorAt(ast.Pos{Line: 1, Col: 1, Offset: i, Len: 1}, fmt.Sprintf("stop %d", i))
			case 'e':
				return fmt.Errorf("halt %d", i)
			}
			return nil
		}
		for i := range vc.Visitors {
			i, k := i, 0
			s := &vc.Visitors[i]
			v := parser.VisitorFunc(func(n ast.Node) error {
				got = append(got, fmt.Sprintf("%d:%s", i, nodeID(n)))
				d := s.does(k)
				k++
				return errOf(i, d)
			})
			if i%2 == 0 {
				opts = append(opts, parser.Visitors(v))
			} else {
				opts = append(opts, parser.Visitors(parser.Visitor(parser.NewMessageVisitor(func(n ast.Node, _ *parser.MessageTape) error { return v(n) }))))
			}
			if valid && wantEnd != 'e' && wantEnd != 'p' {
				k := 0
				if d := refWalk(r, s, &k, &want, i); d == 'e' || d == 'p' {
					wantEnd, wantWho = d, i
				}
			}
		}
		_, err := parser.ParseQuery(q, opts...)
		if !valid {
			if len(got) > 0 || err == nil {
				return fmt.Sprintf("query %q is ill-formed, yet visitors were called: %v (error %v)", q, got, err), false
			}
			return "", false
		}
		if strings.Join(got, "\n") != strings.Join(want, "\n") {
			return fmt.Sprintf("query %q, visitors %s: visits\n%s\nwant\n%s", q, c.Raw, strings.Join(got, "\n"), strings.Join(want, "\n")), false
		}
		switch wantEnd {
		case 'e':
			if err == nil || !strings.Contains(err.Error(), fmt.Sprintf("halt %d", wantWho)) {
				return fmt.Sprintf("query %q, visitors %s: error %v, want that of visitor %d", q, c.Raw, err, wantWho), false
			}
		case 'p':
			var pe *parser.ParseError
			if !errors.As(err, &pe) || pe.Pos().Offset != wantWho || pe.Message() != fmt.Sprintf("stop %d", wantWho) {
				return fmt.Sprintf("query %q, visitors %s: error %v, want that of visitor %d", q, c.Raw, err, wantWho), false
			}
		default:
			if err != nil {
				return fmt.Sprintf("query %q, visitors %s: error %v", q, c.Raw, err), false
			}
		}
		return "", len(vc.Visitors) == 0
	}
	return &Prop{rule: "the sequence of visits of scripted visitors and the outcome compared with a reference walk of an independent parse", bound: "random trees of depth <= 4, up to 3 visitors with up to 2 scripted results each", run: run,
		gen: func(r *rand.Rand) Case {
			c := Case{Query: B(simpleTree(r, r.Intn(5)))}
			if chance(r, 10) {
				c.Query = B(string(c.Query) + " AND z:<true")
			}
			if strings.Count(string(c.Query), "(") > 10 {
				c.Query = B("a:1 AND NOT (b:2 OR c:exists)")
			}
			var vc vcase
			for n := r.Intn(4); n > 0; n-- {
				var s vscript
				for m := r.Intn(3); m > 0; m-- {
					s.At = append(s.At, r.Intn(8))
					s.Does = append(s.Does, pick(r, []byte("sssSSep")))
				}
				vc.Visitors = append(vc.Visitors, s)
			}
			c.Raw, _ = json.Marshal(vc)
			return c
		}}
}

// ---- C15: messages ----

type mstep struct {
	Visit int    `json:"visit"`
	Kind  int    `json:"kind"` // 1 hint 2 warning 3 error
	How   int    `json:"how"`  // 0 no position 1 with node 2 at position
	Text  string `json:"text"`
	Args  int    `json:"args"`
}

func c15() *Prop {
	type want struct {
		kind parser.MessageType
		pos  ast.Pos
		text string
	}
	run := func(c *Case) (string, bool) {
		q := string(c.Query)
		var steps [][]mstep
		if json.Unmarshal(c.Raw, &steps) != nil {
			return "", true
		}
		var exp [][]want
		var mvs []*parser.MessageVisitor
		var opts []parser.Option
		for vi := range steps {
			vi, k := vi, 0
			exp = append(exp, nil)
			mv := parser.NewMessageVisitor(func(n ast.Node, mt *parser.MessageTape) error {
				for _, s := range steps[vi] {
					if s.Visit != k {
						continue
					}
					var args []any
					for a := 0; a < s.Args; a++ {
						args = append(args, a*7)
					}
					w := want{text: fmt.Sprintf(s.Text, args...), pos: ast.NoPosition()}
					e, isExpr := n.(*ast.ExprNode)
					how := s.How
					if how == 1 && !isExpr {
						how = 0
					}
					at := ast.Pos{Line: 1, Col: 1 + s.Visit, Offset: s.Visit, Len: s.Kind}
					switch how {
					case 1:
						w.pos = e.Position
					case 2:
						w.pos = at
					}
					switch s.Kind {
					case 1:
						w.kind = parser.MsgHint
						switch how {
						case 0:
							mt.Hint(s.Text, args...)
						case 1:
							mt.HintWith(e, s.Text, args...)
						case 2:
							mt.HintAt(at, s.Text, args...)
						}
					case 2:
						w.kind = parser.MsgWarning
						switch how {
						case 0:
							mt.Warning(s.Text, args...)
						case 1:
							mt.WarningWith(e, s.Text, args...)
						case 2:
							mt.WarningAt(at, s.Text, args...)
						}
					default:
						w.kind = parser.MsgError
						switch how {
						case 0:
							mt.Error(s.Text, args...)
						case 1:
							mt.ErrorWith(e, s.Text, args...)
						case 2:
							mt.ErrorAt(at, s.Text, args...)
						}
					}
					exp[vi] = append(exp[vi], w)
				}
				k++
				return nil
			})
			mvs = append(mvs, mv)
			opts = append(opts, parser.Visitors(mv))
		}
		_, err := parser.ParseQuery(q, opts...)
		var first *want
		for vi := range exp {
			ms := mvs[vi].Messages()
			if len(ms) != len(exp[vi]) {
				return fmt.Sprintf("query %q, script %s: visitor %d has %d messages, %d were added", q, c.Raw, vi, len(ms), len(exp[vi])), false
			}
			for i, m := range ms {
				w := exp[vi][i]
				if m == nil || m.Type != w.kind || m.Pos() != w.pos || m.Message() != w.text {
					return fmt.Sprintf("query %q, script %s: message %d of visitor %d is %+v, want %+v", q, c.Raw, i, vi, m, w), false
				}
				if m.Type == parser.MsgError && first == nil {
					first = &exp[vi][i]
				}
			}
		}
		if first == nil {
			if err != nil {
				return fmt.Sprintf("query %q, script %s: fails with %v without an error on the tapes", q, c.Raw, err), false
			}
			return "", len(steps) == 0
		}
		var pe *parser.ParseError
		if !errors.As(err, &pe) || pe.Pos() != first.pos || pe.Message() != first.text {
			return fmt.Sprintf("query %q, script %s: parsing returns %v, the first error added is %+v", q, c.Raw, err, *first), false
		}
		return "", false
	}
	return &Prop{rule: "messages of scripted message visitors and the outcome of parsing compared with what was added", bound: "random trees of depth <= 3, up to 3 message visitors, up to 5 messages each", run: run,
		gen: func(r *rand.Rand) Case {
			c := Case{Query: B(simpleTree(r, r.Intn(4)))}
			if strings.Count(string(c.Query), "(") > 10 {
				c.Query = B("a:1 AND NOT (b:2 OR c:exists)")
			}
			steps := [][]mstep{}
			for n := r.Intn(4); n > 0; n-- {
				ss := []mstep{}
				for m := r.Intn(6); m > 0; m-- {
					s := mstep{Visit: r.Intn(5), Kind: 1 + r.Intn(3), How: r.Intn(3), Text: pick(r, []string{"plain", "é %d", "%d and %d", "", "100%%"})}
					if chance(r, 2) && s.Kind == 3 {
						s.Kind = 2
					}
					s.Args = strings.Count(s.Text, "%d")
					ss = append(ss, s)
				}
				steps = append(steps, ss)
			}
			c.Raw, _ = json.Marshal(steps)
			return c
		}}
}

func init() {
	props["C13"] = c13()
	props["C14"] = c14()
	props["C15"] = c15()
	props["C16"] = c16()
	props["C17"] = c17()
	props["C18"] = c18()
}
