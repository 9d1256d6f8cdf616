package main

import (
	"fmt"
	"html"
	"math/rand"
	"os"
	"regexp"
	"strings"
	"unicode"

	"github.com/flowchartsman/aql/aqlgraph"
	"github.com/flowchartsman/aql/parser"
	"github.com/flowchartsman/aql/parser/ast"
	"github.com/goccy/go-graphviz"
	"github.com/goccy/go-graphviz/cgraph"
)

// ---- C23 ----

var cellText = regexp.MustCompile(`(?s)<TD[^>]*>(?:<I>)?(.*?)(?:</I>)?</TD>`)

// cells lists the texts of the cells of a label.
func cells(label string) []string {
	var out []string
	for _, m := range cellText.FindAllStringSubmatch(label, -1) {
		out = append(out, html.UnescapeString(m[1]))
	}
	return out
}

func valueKind(v ast.Val) string {
	switch v.(type) {
	case *ast.FloatVal:
		return "float"
	case *ast.IntVal:
		return "integer"
	case *ast.StringVal:
		return "string"
	case *ast.NetVal:
		return "network"
	case *ast.BoolVal:
		return "boolean"
	case *ast.RegexpVal:
		return "regexp"
	case *ast.TimeVal:
		return "datetime"
	}
	return "?"
}

// diffVertex compares the vertex v with the node a, and what is below them.
func diffVertex(g *cgraph.Graph, v *cgraph.Node, a ast.Node, seen map[string]bool) string {
	if seen[v.Name()] {
		return fmt.Sprintf("vertex %s is reached twice", v.Name())
	}
	seen[v.Name()] = true
	var kids []ast.Node
	label := v.Get("label")
	want := ""
	switch n := a.(type) {
	case *ast.AndNode:
		want, kids = "AND", []ast.Node{n.Left, n.Right}
	case *ast.OrNode:
		want, kids = "OR", []ast.Node{n.Left, n.Right}
	case *ast.NotNode:
		want, kids = "NOT", []ast.Node{n.Expr}
	case *ast.ExprNode:
		ws := []string{strings.Join(n.Field, "."), "op", string(n.Op)}
		if len(n.RVals) > 0 {
			ws = append(ws, "Values")
		}
		for _, x := range n.RVals {
			ws = append(ws, valueKind(x), x.String())
		}
		if got := cells(label); fmt.Sprintf("%q", got) != fmt.Sprintf("%q", ws) {
			return fmt.Sprintf("the label of %v shows %q, want %q", a, got, ws)
		}
	}
	if want != "" && label != want {
		return fmt.Sprintf("the label of %v is %q", a, label)
	}
	heads := map[string]*cgraph.Node{}
	var names []string
	for e := g.FirstOut(v); e != nil; e = g.NextOut(e) {
		h := e.Node()
		names = append(names, h.Name())
		heads[h.Name()] = h
	}
	if len(names) != len(kids) {
		return fmt.Sprintf("%d edges leave the vertex of %v, which has %d operands", len(names), a, len(kids))
	}
	if len(heads) != len(names) {
		return fmt.Sprintf("two edges lead from the vertex of %v to the same vertex", a)
	}
	// the operands are matched with the heads in either order
	try := func(order []string) string {
		for i, k := range order {
			s2 := map[string]bool{}
			for x := range seen {
				s2[x] = true
			}
			if d := diffVertex(g, heads[k], kids[i], s2); d != "" {
				return d
			}
			for x := range s2 {
				seen[x] = true
			}
		}
		return ""
	}
	keep := map[string]bool{}
	for x := range seen {
		keep[x] = true
	}
	d := try(names)
	if d != "" && len(names) == 2 {
		for x := range seen {
			if !keep[x] {
				delete(seen, x)
			}
		}
		if try([]string{names[1], names[0]}) == "" {
			return ""
		}
	}
	return d
}

func c23() *Prop {
	run := func(c *Case) (string, bool) {
		q := string(c.Query)
		for _, x := range q {
			if unicode.IsControl(x) && x != '\n' && x != '\t' && x != '\r' || x == unicode.ReplacementChar {
				return "", true
			}
		}
		if strings.Contains(q, `\u`) || strings.Contains(q, `\x`) || strings.Contains(q, `\U`) || strings.ContainsAny(q, "￾￿") {
			return "", true
		}
		n, err := parser.ParseQuery(q)
		g, gerr := aqlgraph.QueryGraph(q)
		if (err == nil) != (gerr == nil) {
			return fmt.Sprintf("query %q: parsing returns %v, drawing %v", q, err, gerr), false
		}
		if err != nil {
			return "", true
		}
		for _, e := range exprs(n) {
			for _, p := range e.Field {
				if strings.IndexFunc(p, unicode.IsControl) >= 0 {
					return "", true
				}
			}
		}
		f, err := os.CreateTemp("", "zzverif*.dot")
		if err != nil {
			fmt.Fprintln(os.Stderr, "oracle failure:", err)
			os.Exit(3)
		}
		f.Close()
		defer os.Remove(f.Name())
		if err := g.OutputDOT(f.Name()); err != nil {
			return fmt.Sprintf("query %q: the graph cannot be written: %v", q, err), false
		}
		b, err := os.ReadFile(f.Name())
		if err != nil {
			return fmt.Sprintf("query %q: the graph cannot be read: %v", q, err), false
		}
		dot, err := graphviz.ParseBytes(b)
		if err != nil || dot == nil {
			return fmt.Sprintf("query %q: the graph written does not parse: %v", q, err), false
		}
		defer dot.Close()
		if t := strings.ReplaceAll(dot.Get("label"), `\\`, `\`); t != q {
			return fmt.Sprintf("query %q: the graph is titled %q", q, t), false
		}
		var start *cgraph.Node
		vertices := 0
		into := map[string]int{}
		for v := dot.FirstNode(); v != nil; v = dot.NextNode(v) {
			vertices++
			for e := dot.FirstOut(v); e != nil; e = dot.NextOut(e) {
				into[e.Node().Name()]++
			}
		}
		for v := dot.FirstNode(); v != nil; v = dot.NextNode(v) {
			if into[v.Name()] == 0 {
				if start != nil {
					return fmt.Sprintf("query %q: no edge leads to either of %s and %s", q, start.Name(), v.Name()), false
				}
				start = v
			}
		}
		if start == nil {
			return fmt.Sprintf("query %q: the graph has no start", q), false
		}
		e := dot.FirstOut(start)
		if e == nil || dot.NextOut(e) != nil {
			return fmt.Sprintf("query %q: not exactly one edge leaves the start", q), false
		}
		seen := map[string]bool{start.Name(): true}
		if d := diffVertex(dot, e.Node(), n, seen); d != "" {
			return fmt.Sprintf("query %q: %s", q, d), false
		}
		if len(seen) != vertices {
			return fmt.Sprintf("query %q: %d vertices, %d of them belong to the tree or are the start", q, vertices, len(seen)), false
		}
		return "", false
	}
	p := &Prop{rule: "the written graph, read back, compared with the syntax tree", run: run,
		bound: "random queries of up to about 200 characters, without control characters in names",
		gen: func(r *rand.Rand) Case {
			if chance(r, 3) {
				return Case{Query: B(simpleTree(r, 2+r.Intn(4)))}
			}
			return Case{Query: B(genQueryText(r, r.Intn(4), true))}
		}}
	for _, q := range []string{`a:1`, `a:"<b>&amp;'\""`, `"a<b>&c":/<x>&/`, `a.b."c d".e:><(1,2)`, `a:exists`, `!a:null`, `a:(1,2.5,"x",true,1.2.3.4,2020-01-02)`,
		`a:1 AND a:1`, `a:1 AND b:2 OR NOT (c:3 AND d:4) OR e:5 AND !f:6`, `a:1 AND (a:1 AND (a:1 AND a:1))`, `a:"AND" OR NOT a:"\\N"`, `"\\N":"\\G"`} {
		p.fixed = append(p.fixed, Case{Query: B(q)})
	}
	return p
}

func exprs(n ast.Node) []*ast.ExprNode {
	switch a := n.(type) {
	case *ast.AndNode:
		return append(exprs(a.Left), exprs(a.Right)...)
	case *ast.OrNode:
		return append(exprs(a.Left), exprs(a.Right)...)
	case *ast.NotNode:
		return exprs(a.Expr)
	case *ast.ExprNode:
		return []*ast.ExprNode{a}
	}
	return nil
}

func init() { props["C23"] = c23() }
