package main

import (
	"fmt"
	"math/rand"
	"regexp/syntax"
	"strings"

	"github.com/flowchartsman/aql/jsonmatcher"
	"github.com/flowchartsman/aql/parser"
)

// ---- C24: advice ----

type advice struct {
	kind parser.MessageType
	v    *rval
	why  string
}

// anyRun tells whether an expression is a run of any characters.
func anyRun(r *syntax.Regexp) bool {
	return r.Op == syntax.OpStar && (r.Sub[0].Op == syntax.OpAnyChar || r.Sub[0].Op == syntax.OpAnyCharNotNL)
}

// plain tells whether an expression has no group, + or counted repetition that
// is not below a * or ?.
func plain(r *syntax.Regexp) bool {
	switch r.Op {
	case syntax.OpStar, syntax.OpQuest:
		return true
	case syntax.OpCapture, syntax.OpPlus, syntax.OpRepeat:
		return false
	}
	for _, s := range r.Sub {
		if !plain(s) {
			return false
		}
	}
	return true
}

func (v *rval) advice(op string) []advice {
	var out []advice
	warn := func(why string) { out = append(out, advice{parser.MsgWarning, v, why}) }
	hint := func(why string) { out = append(out, advice{parser.MsgHint, v, why}) }
	switch v.typ {
	case "string":
		if op == "~" {
			warn("~ with a string")
		}
	case "time":
		if op == "==" && len(v.text) > 10 {
			warn("equality with a full timestamp")
		}
	case "regex":
		if op == "~" {
			warn("~ with a regular expression")
		}
		text := v.text[1 : len(v.text)-1]
		rest, fold := strings.CutPrefix(text, "(?i)")
		if fold && strings.IndexFunc(text, func(r rune) bool { return r >= 128 }) >= 0 {
			warn("ignoring the case of other than ASCII characters")
		}
		if strings.HasPrefix(rest, ".*") || strings.HasSuffix(rest, ".*") {
			hint(".* at an end of the text")
		}
		re, err := syntax.Parse(text, syntax.Perl)
		if err != nil {
			return nil
		}
		if re.Op == syntax.OpCapture {
			hint("group around everything")
			re = re.Sub[0]
		}
		if re.Op == syntax.OpAlternate && plain(re) {
			hint("alternation")
		}
		if len(re.Sub) >= 2 && anyRun(re.Sub[0]) {
			hint(".* in front")
		}
		if len(re.Sub) >= 3 && anyRun(re.Sub[len(re.Sub)-1]) {
			hint(".* at the end")
		}
	}
	return out
}

var advRes = []string{"/.*/", "/.*a/", "/a.*/", "/.*a.*/", "/(a)/", "/(.*a)/", "/(.*a.*)/", "/(a|b)/", "/a|b/", "/a|bc*/", "/a|(bc)/", "/a+|b/", "/ab|cd?|x{2}/", "/(?i)é/", "/(?i)a/", "/(?i).*é/", "/(?i)a.*/", "/é.*/",
	"/(?s).*a.*/", "/((a))/", "/()/", "/(?:a|bc)/", "/foo|bar|baz/", "/(a)(b)/", "/.+a.*/", "/a.*b/", `/.*\//`, `/\/.*/`, "/(?P<n>a.*)/", "/((ab)|c)/", "/(foo|.*)/", "/x*|yy/", "/(.*)(.*)/", "/.*.*/", "/.*.*.*/", "/^.*$/", "/[ab]|cd/", "/(?i)(é)/", "/(ab|c+)*|dd/", "/ab|(c|dd)/", "/abc|abd/", "/a.*|b.*/"}

var advTimes = []string{"2020-01-02T00:00:00Z", "2020-01-02T00:00:00+02:00", "2020-01-02T02:00:00+02:00", "2020-01-02T12:00:00Z", "2020-01-02T23:59:59.999999999Z", "1970-01-01", "1970-01-01T00:00:00Z", "2020-01-02T00:00:00.5Z", "0001-01-01T00:00:00Z"}

func c24() *Prop {
	run := func(c *Case) (string, bool) {
		q := string(c.Query)
		r, _, unsure := refParse(q)
		_, perr := parser.ParseQuery(q)
		m, err := jsonmatcher.NewMatcher(q)
		if (perr == nil) != (err == nil) {
			return fmt.Sprintf("query %q: parsed with error %v, a matcher of it with error %v", q, perr, err), false
		}
		if r == nil || err != nil || unsure {
			return "", true
		}
		var exp []advice
		r.walk(func(n *rnode) {
			for _, v := range n.vals {
				exp = append(exp, v.advice(n.op)...)
			}
		})
		got := m.Messages()
		for i, g := range got {
			if i >= len(exp) {
				return fmt.Sprintf("query %q: message %v is about nothing in the query", q, g), false
			}
			if d := diffPos(q, fmt.Sprintf("message %v on", g), exp[i].v.text, exp[i].v.off, g.Pos()); d != "" {
				return d, false
			}
			if g.Type != exp[i].kind {
				return fmt.Sprintf("query %q: message %v on %s has kind %d, want %d", q, g, exp[i].v.text, g.Type, exp[i].kind), false
			}
		}
		if len(got) < len(exp) {
			e := exp[len(got)]
			return fmt.Sprintf("query %q: %d messages, want %d: no message on %s (%s)", q, len(got), len(exp), e.v.text, e.why), false
		}
		return "", len(exp) == 0
	}
	var fixed []Case
	for _, v := range append(append(append([]string{}, qGood...), advRes...), advTimes...) {
		fixed = append(fixed, Case{Query: B("a:" + v)}, Case{Query: B("a:~" + v)}, Case{Query: B("a:(" + v + ",\"x\")")}, Case{Query: B("b:1 OR a:(/.*z/," + v + ")")})
	}
	fixed = append(fixed, Case{Query: B("a:>2020-01-02T03:04:05Z")}, Case{Query: B("a:><(2020-01-02T03:04:05Z,2021-01-02T03:04:05Z)")})
	return &Prop{rule: "kinds, number and positions of a matcher's messages compared with the advice on the values of an independent parse", bound: parseBound, run: run, fixed: fixed,
		gen: func(r *rand.Rand) Case {
			val := func() string {
				if chance(r, 2) {
					return pick(r, advRes)
				}
				if chance(r, 2) {
					return pick(r, []string{genValueText(r, true), pick(r, advTimes)})
				}
				s := ""
				for n := 1 + r.Intn(5); n > 0; n-- {
					s += pick(r, []string{"a", "bc", ".*", "(", ")", "|", "*", "?", "+", ".", "é", "(?i)", "(?:", "[xy]", "{2}", "^", "$", `\/`})
				}
				if chance(r, 3) {
					s = "(" + s + ")"
				}
				return "/" + s + "/"
			}
			cmp := func() string {
				s := pick(r, []string{"a", "b.c", "é"}) + qws(r, false) + ":" + qws(r, false) + pick(r, []string{"", "", "~"})
				if chance(r, 2) {
					return s + val()
				}
				s += "(" + val()
				for n := 1 + r.Intn(3); n > 0; n-- {
					s += "," + qws(r, false) + val()
				}
				return s + ")"
			}
			q := cmp()
			for n := r.Intn(4); n > 0; n-- {
				switch r.Intn(4) {
				case 0:
					q += " AND " + cmp()
				case 1:
					q += " OR " + cmp()
				case 2:
					q = "NOT (" + q + ")"
				default:
					q = cmp() + "\nOR (" + q + ")"
				}
			}
			return Case{Query: B(q)}
		}}
}

func init() { props["C24"] = c24() }
