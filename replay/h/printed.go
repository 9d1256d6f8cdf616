package main

import (
	"errors"
	"fmt"
	"math/rand"
	"strconv"
	"strings"

	"github.com/flowchartsman/aql/jsonmatcher"
	"github.com/flowchartsman/aql/parser"
	"github.com/flowchartsman/aql/parser/ast"
)

// ---- C25: printed forms ----

func (n *rnode) fieldText() string {
	var ps []string
	for _, p := range n.field {
		if strings.Contains(p, " ") || strings.Contains(p, ".") || strings.Contains(p, `"`) {
			p = strconv.Quote(p)
		}
		ps = append(ps, p)
	}
	return strings.Join(ps, ".")
}

func (v *rval) printed() string {
	switch v.typ {
	case "string":
		s, _ := unquoteRef(v.text)
		return strconv.Quote(s)
	case "net":
		if !strings.Contains(v.text, "/") {
			return v.text + "/32"
		}
	}
	return v.text
}

func (n *rnode) valTexts() []string {
	var out []string
	for _, v := range n.vals {
		out = append(out, v.printed())
	}
	return out
}

func (n *rnode) printed() string {
	switch n.kind {
	case '&':
		return "(&& " + n.kids[0].printed() + " " + n.kids[1].printed() + ")"
	case '|':
		return "(|| " + n.kids[0].printed() + " " + n.kids[1].printed() + ")"
	case '!':
		return "(! " + n.kids[0].printed() + ")"
	}
	s := "(" + n.op + " " + n.fieldText()
	switch vs := n.valTexts(); len(vs) {
	case 0:
	case 1:
		s += " " + vs[0]
	default:
		s += " [" + strings.Join(vs, ", ") + "]"
	}
	return s + ")"
}

func (n *rnode) name() string {
	switch n.kind {
	case '&':
		return "AND"
	case '|':
		return "OR"
	case '!':
		return "NOT"
	}
	s := n.fieldText() + ":"
	if n.op != "==" {
		s += n.op
	}
	s += " "
	switch vs := n.valTexts(); len(vs) {
	case 0:
	case 1:
		s += vs[0]
	default:
		s += "(" + strings.Join(vs, ",") + ")"
	}
	return s
}

func (n *rnode) diffNames(s *jsonmatcher.MatchStats) string {
	if s == nil || len(s.Children) != len(n.kids) {
		return fmt.Sprintf("statistics of %s have the wrong shape", n.printed())
	}
	if s.NodeName != n.name() {
		return fmt.Sprintf("statistics of %s are named %q, want %q", n.printed(), s.NodeName, n.name())
	}
	for i, k := range n.kids {
		if d := k.diffNames(s.Children[i]); d != "" {
			return d
		}
	}
	return ""
}

func posText(p ast.Pos) string {
	return strconv.Itoa(p.Line) + ":" + strconv.Itoa(p.Col) + "(" + strconv.Itoa(p.Offset) + ")"
}

func diffMessage(m *parser.ParserMessage) string {
	kind := map[parser.MessageType]string{parser.MsgHint: "HINT", parser.MsgWarning: "WARNING", parser.MsgError: "ERROR"}[m.Type]
	want := kind + ": " + m.Msg
	if p := m.Position; p != ast.NoPosition() {
		if p.Line <= 0 || p.Col <= 0 || p.Offset < 0 {
			return ""
		}
		want = kind + " [" + posText(p) + "]: " + m.Msg
	}
	if m.String() != want {
		return fmt.Sprintf("message %+v is printed as %q, want %q", *m, m.String(), want)
	}
	return ""
}

func diffErrText(e *parser.ParseError) string {
	if want := posText(e.Position) + ": " + e.Msg; e.Error() != want {
		return fmt.Sprintf("error {%+v %q} is printed as %q, want %q", e.Position, e.Msg, e.Error(), want)
	}
	return ""
}

func c25() *Prop {
	run := func(c *Case) (string, bool) {
		if c.Kind == "message" {
			pos := ast.NoPosition()
			if len(c.Ints) == 5 {
				pos = ast.Pos{Line: c.Ints[1], Col: c.Ints[2], Offset: c.Ints[3], Len: c.Ints[4]}
			}
			kinds := []parser.MessageType{parser.MsgHint, parser.MsgWarning, parser.MsgError}
			if d := diffMessage(&parser.ParserMessage{Position: pos, Msg: c.Strs[0], Type: kinds[c.Ints[0]]}); d != "" {
				return d, false
			}
			return diffErrText(&parser.ParseError{Position: pos, Msg: c.Strs[0]}), false
		}
		q := string(c.Query)
		r, _, unsure := refParse(q)
		n, err := parser.ParseQuery(q)
		var pe *parser.ParseError
		if errors.As(err, &pe) {
			return diffErrText(pe), false
		}
		if r == nil || err != nil || unsure || diffTree(q, r, n, false) != "" || diffTree(q, r, n, true) != "" {
			return "", true
		}
		if got := n.String(); got != r.printed() {
			return fmt.Sprintf("query %q is printed as %q, want %q", q, got, r.printed()), false
		}
		m, err := jsonmatcher.NewMatcher(q)
		if err != nil {
			return "", true
		}
		if d := r.diffNames(m.Stats()); d != "" {
			return fmt.Sprintf("query %q: %s", q, d), false
		}
		for _, msg := range m.Messages() {
			if d := diffMessage(msg); d != "" {
				return fmt.Sprintf("query %q: %s", q, d), false
			}
		}
		return "", false
	}
	msgs := []string{"", "x", "100% %s %d %", "a: b", "é\n"}
	var fixed []Case
	for k := 0; k < 3; k++ {
		for _, m := range msgs {
			fixed = append(fixed, Case{Kind: "message", Ints: []int{k}, Strs: []string{m}})
			for _, p := range [][]int{{1, 1, 0, 0}, {1, 1, 0, 4}, {2, 3, 10, 1}, {12, 1, 100, 7}, {3, 45, 60, 2}} {
				fixed = append(fixed, Case{Kind: "message", Ints: append([]int{k}, p...), Strs: []string{m}})
			}
		}
	}
	for _, f := range qFields {
		fixed = append(fixed, Case{Query: B(f + ":1")}, Case{Query: B("x." + f + ":(1,2,3)")}, Case{Query: B(f + ".x:exists")})
	}
	for _, v := range qGood {
		fixed = append(fixed, Case{Query: B("a:" + v)}, Case{Query: B("a:>" + v)}, Case{Query: B("a:(\"p\"," + v + ")")}, Case{Query: B("a:(" + v + ",9,8)")}, Case{Query: B("a:~(" + v + ",/zz/)")})
	}
	for _, q := range []string{"a:1 AND b:2 OR c:3", "!(a:1) AND NOT b:exists", "a:1 OR (b:2 OR c:3) AND !d:null", "a:><(1,2)", "a:><(2020-01-01,2021-01-01)", "a:~/x.*/\nOR b:(/(y)/,/.*z/)", "a:>=1 AND\nb:=2", "a:1 AND", "\na:", "a:1\nAND (b:2"} {
		fixed = append(fixed, Case{Query: B(q)})
	}
	return &Prop{rule: "printed queries, names in the statistics, messages and errors compared with the printing of an independent parse", bound: parseBound, run: run, fixed: fixed,
		gen: func(r *rand.Rand) Case {
			if chance(r, 6) {
				c := Case{Kind: "message", Ints: []int{r.Intn(3)}, Strs: []string{pick(r, msgs)}}
				if !chance(r, 4) {
					c.Ints = append(c.Ints, 1+r.Intn(12), 1+r.Intn(200), r.Intn(1000), r.Intn(20))
				}
				return c
			}
			if chance(r, 4) {
				return parseGen(r)
			}
			part := func() string {
				if chance(r, 2) {
					return pick(r, []string{"a", "b", "c1", "x-y", "é", "*"})
				}
				s := ""
				for n := 1 + r.Intn(4); n > 0; n-- {
					s += pick(r, []string{"a", " ", ".", `\"`, "é", "\\n", "'", `\\`, "*", "/"})
				}
				return `"` + s + `"`
			}
			cmp := func() string {
				s := part()
				for n := r.Intn(3); n > 0; n-- {
					s += "." + part()
				}
				s += ":"
				if chance(r, 4) {
					return s + pick(r, []string{"exists", "null", ">" + genValueText(r, true), "<=3", "~/a.*/", "><(1,5)", "><(10.5,20)"})
				}
				if chance(r, 2) {
					return s + genValueText(r, true)
				}
				s += "(" + genValueText(r, true)
				for n := 1 + r.Intn(4); n > 0; n-- {
					s += "," + qws(r, false) + genValueText(r, true)
				}
				return s + ")"
			}
			q := cmp()
			for n := r.Intn(5); n > 0; n-- {
				switch r.Intn(5) {
				case 0:
					q += " AND " + cmp()
				case 1:
					q += " OR " + cmp()
				case 2:
					q = "NOT (" + q + ")"
				case 3:
					q = "!(" + q + ")"
				default:
					q = cmp() + "\nAND (" + q + ")"
				}
			}
			return Case{Query: B(q)}
		}}
}

func init() { props["C25"] = c25() }
