package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"net/netip"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
	"unicode"
	"unicode/utf8"

	"github.com/flowchartsman/aql/jsonmatcher"
)

// ---- documents ----

// jnode is a JSON value of a generated document.
type jnode struct {
	kind byte // o a s
	keys []string
	kids []*jnode
	text string // scalars: JSON text
}

func (j *jnode) write(r *rand.Rand, sb *strings.Builder) {
	ws := func() {
		if r != nil && chance(r, 6) {
			sb.WriteString(pick(r, []string{" ", "\n", "\t", "  ", "\r\n"}))
		}
	}
	switch j.kind {
	case 'o':
		sb.WriteByte('{')
		for i := range j.kids {
			if i > 0 {
				sb.WriteByte(',')
			}
			ws()
			sb.WriteString(jsonKey(r, j.keys[i]))
			ws()
			sb.WriteByte(':')
			ws()
			j.kids[i].write(r, sb)
			ws()
		}
		sb.WriteByte('}')
	case 'a':
		sb.WriteByte('[')
		for i := range j.kids {
			if i > 0 {
				sb.WriteByte(',')
			}
			ws()
			j.kids[i].write(r, sb)
			ws()
		}
		sb.WriteByte(']')
	default:
		sb.WriteString(j.text)
	}
}

func jsonKey(r *rand.Rand, k string) string {
	b, _ := json.Marshal(k)
	if r != nil && len(k) > 0 && k[0] < 128 && k[0] > ' ' && k[0] != '"' && k[0] != '\\' && chance(r, 12) {
		return fmt.Sprintf(`"\u%04x%s`, k[0], string(b[2:]))
	}
	return string(b)
}

var docKeys = []string{"a", "b", "c", "A", "ab", "a b", "a.b", "é", "0", "x_y", "[0]", "q\"q"}

// genDoc makes a document whose scalars come from leaf.
func genDoc(r *rand.Rand, depth int, leaf func() string) *jnode {
	if depth <= 0 || chance(r, 4) {
		return &jnode{kind: 's', text: leaf()}
	}
	n := r.Intn(4)
	if chance(r, 12) {
		n = r.Intn(9)
	}
	if chance(r, 3) {
		j := &jnode{kind: 'a'}
		for i := 0; i < n; i++ {
			j.kids = append(j.kids, genDoc(r, depth-1, leaf))
		}
		return j
	}
	j := &jnode{kind: 'o'}
	used := map[string]bool{}
	for i := 0; i < n; i++ {
		nk := 3
		if chance(r, 4) {
			nk = len(docKeys)
		}
		k := docKeys[r.Intn(nk)]
		if !used[k] {
			used[k] = true
			j.keys = append(j.keys, k)
			j.kids = append(j.kids, genDoc(r, depth-1, leaf))
		}
	}
	return j
}

func (j *jnode) child(k string) *jnode {
	for i := range j.keys {
		if j.keys[i] == k {
			return j.kids[i]
		}
	}
	return nil
}

// resolve is the reference for field paths.
func resolve(j *jnode, path []string) []*jnode {
	if j.kind != 'o' {
		return nil
	}
	c := j.child(path[0])
	if c == nil {
		return nil
	}
	if len(path) == 1 {
		return []*jnode{c}
	}
	if c.kind == 'a' {
		var out []*jnode
		for _, e := range c.kids {
			out = append(out, resolve(e, path[1:])...)
		}
		return out
	}
	return resolve(c, path[1:])
}

func scalars(vs []*jnode) []*jnode {
	var out []*jnode
	for _, v := range vs {
		switch v.kind {
		case 's':
			out = append(out, v)
		case 'a':
			for _, e := range v.kids {
				if e.kind == 's' {
					out = append(out, e)
				}
			}
		}
	}
	return out
}

// parseDoc reads a document back into a tree (numbers keep their text).
func parseDoc(b []byte) (*jnode, bool) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	j, err := parseTok(d)
	if err != nil {
		return nil, false
	}
	if d.More() {
		return nil, false
	}
	return j, true
}

func parseTok(d *json.Decoder) (*jnode, error) {
	t, err := d.Token()
	if err != nil {
		return nil, err
	}
	switch v := t.(type) {
	case json.Delim:
		j := &jnode{kind: 'a'}
		if v == '{' {
			j.kind = 'o'
		}
		for d.More() {
			if j.kind == 'o' {
				k, err := d.Token()
				if err != nil {
					return nil, err
				}
				j.keys = append(j.keys, k.(string))
			}
			c, err := parseTok(d)
			if err != nil {
				return nil, err
			}
			j.kids = append(j.kids, c)
		}
		_, err := d.Token()
		return j, err
	case json.Number:
		return &jnode{kind: 's', text: string(v)}, nil
	}
	b, _ := json.Marshal(t)
	return &jnode{kind: 's', text: string(b)}, nil
}

func fieldText(path []string) string {
	var ps []string
	for _, p := range path {
		bare := p != ""
		for i := 0; i < len(p); i++ {
			c := p[i]
			if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '-') {
				bare = false
			}
		}
		if bare {
			ps = append(ps, p)
		} else {
			ps = append(ps, quoteQ(p))
		}
	}
	return strings.Join(ps, ".")
}

// quoteQ writes a string as a quoted value of the query language.
func quoteQ(s string) string {
	var sb strings.Builder
	sb.WriteByte('"')
	for _, r := range s {
		switch {
		case r == '"' || r == '\\':
			sb.WriteByte('\\')
			sb.WriteRune(r)
		case r == '\n':
			sb.WriteString(`\n`)
		case r == '\t':
			sb.WriteString(`\t`)
		case r == '\r':
			sb.WriteString(`\r`)
		case r < 0x20:
			fmt.Fprintf(&sb, `\u%04x`, r)
		default:
			sb.WriteRune(r)
		}
	}
	sb.WriteByte('"')
	return sb.String()
}

func jstr(s string) string {
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(false)
	e.Encode(s)
	return strings.TrimSuffix(b.String(), "\n")
}

var matchers = map[string]*jsonmatcher.Matcher{}

// verdict matches one query against one document. Matchers are kept because
// parsing dominates; that a used matcher answers like a fresh one is C11.
func verdict(q string, doc []byte) (bool, error) {
	m := matchers[q]
	if m == nil {
		var err error
		if m, err = jsonmatcher.NewMatcher(q); err != nil {
			return false, fmt.Errorf("query %q is rejected: %v", q, err)
		}
		if len(matchers) > 20000 {
			matchers = map[string]*jsonmatcher.Matcher{}
		}
		matchers[q] = m
	}
	v, err := m.Match(append([]byte{}, doc...))
	if err != nil {
		return false, fmt.Errorf("query %q on %q: error %v", q, doc, err)
	}
	return v, nil
}

func expect(q string, doc []byte, want bool) string {
	got, err := verdict(q, doc)
	if err != nil {
		return err.Error()
	}
	if got != want {
		return fmt.Sprintf("query %s on document %s: verdict %v, want %v", q, doc, got, want)
	}
	return ""
}

// ---- C01 and C12: boolean structure ----

type qtree struct {
	Op   string   `json:"op"` // and or not cmp
	L    *qtree   `json:"l,omitempty"`
	R    *qtree   `json:"r,omitempty"`
	Pre  string   `json:"pre,omitempty"`  // field and operator
	Vals []string `json:"vals,omitempty"` // values
}

// text writes the query fully parenthesised, without outer parentheses (the
// time to parse grows exponentially with their nesting).
func (t *qtree) text(r *rand.Rand) string {
	par := func(t *qtree) string {
		if t.Op == "and" || t.Op == "or" {
			return "(" + t.text(r) + ")"
		}
		return t.text(r)
	}
	switch t.Op {
	case "and":
		return par(t.L) + " AND " + par(t.R)
	case "or":
		return par(t.L) + " OR " + par(t.R)
	case "not":
		if r != nil && chance(r, 2) {
			return "!(" + t.L.text(r) + ")"
		}
		return "NOT (" + t.L.text(r) + ")"
	}
	return t.cmp(t.Vals)
}

func (t *qtree) cmp(vals []string) string {
	switch len(vals) {
	case 0:
		return t.Pre
	case 1:
		return t.Pre + vals[0]
	}
	return t.Pre + "(" + strings.Join(vals, ", ") + ")"
}

var (
	leafFields = []string{"a", "b", "c", "a.b", "b.a", "a.c", "A", "ab"}
	eqVals     = []string{`1`, `2`, `0`, `-1`, `1.5`, `"x"`, `"y"`, `"x*"`, `"?"`, `"xy"`, `"é"`, `true`, `/x/`, `/^y$/`, `/./`, `10.0.0.0/8`, `10.1.2.3`, `2020-01-02`, `2020-01-02T03:04:05Z`, `"1"`}
	leafJSON   = []string{`1`, `2`, `0`, `-1`, `1.5`, `"x"`, `"y"`, `"xy"`, `"x y"`, `""`, `true`, `false`, `null`, `"1"`, `"10.1.2.3"`, `"2020-01-02"`, `"2020-01-02T03:04:05Z"`, `"é"`, `{}`, `[]`, `[[1]]`, `1e0`}
)

func genCmp(r *rand.Rand) *qtree {
	f := pick(r, leafFields)
	switch r.Intn(8) {
	case 0:
		return &qtree{Op: "cmp", Pre: f + ":exists"}
	case 1:
		return &qtree{Op: "cmp", Pre: f + ":null"}
	case 2:
		return &qtree{Op: "cmp", Pre: f + ":" + pick(r, []string{"<", "<=", ">", ">="}), Vals: []string{pick(r, []string{"0", "1", "1.5", "2020-01-02"})}}
	case 3:
		return &qtree{Op: "cmp", Pre: f + ":><", Vals: []string{pick(r, []string{"-5", "0", "1"}), pick(r, []string{"1.5", "2"})}}
	case 4:
		vs := []string{`"x"`, `"y*"`, `/x/`, `true`, `false`, `"é"`}
		r.Shuffle(len(vs), func(i, j int) { vs[i], vs[j] = vs[j], vs[i] })
		return &qtree{Op: "cmp", Pre: f + ":~", Vals: vs[:1+r.Intn(3)]}
	}
	vs := append([]string{}, eqVals...)
	r.Shuffle(len(vs), func(i, j int) { vs[i], vs[j] = vs[j], vs[i] })
	n := 1 + r.Intn(4)
	if chance(r, 8) {
		n = 1 + r.Intn(len(vs))
	}
	return &qtree{Op: "cmp", Pre: f + ":", Vals: vs[:n]}
}

func genTree(r *rand.Rand, depth int) *qtree {
	if depth == 0 || chance(r, 4) {
		return genCmp(r)
	}
	switch r.Intn(5) {
	case 0:
		return &qtree{Op: "not", L: genTree(r, depth-1)}
	case 1, 2:
		return &qtree{Op: "and", L: genTree(r, depth-1), R: genTree(r, depth-1)}
	}
	return &qtree{Op: "or", L: genTree(r, depth-1), R: genTree(r, depth-1)}
}

func smallDoc(r *rand.Rand) B {
	j := &jnode{kind: 'o'}
	used := map[string]bool{}
	for n := 1 + r.Intn(4); n > 0; n-- {
		k := pick(r, []string{"a", "b", "c", "A", "ab", "[0]"})
		if used[k] {
			continue
		}
		used[k] = true
		j.keys = append(j.keys, k)
		j.kids = append(j.kids, genDoc(r, 2, func() string { return pick(r, leafJSON) }))
	}
	var sb strings.Builder
	if chance(r, 5) {
		sb.WriteString(pick(r, []string{" ", "\n", "\t", "\r\n "}))
	}
	j.write(r, &sb)
	if chance(r, 5) {
		sb.WriteString(pick(r, []string{" ", "\n", "\t", "\r\n "}))
	}
	return B(sb.String())
}

// eval evaluates the comparisons of a tree one by one.
func (t *qtree) eval(doc []byte) (bool, error) {
	switch t.Op {
	case "and", "or":
		l, err := t.L.eval(doc)
		if err != nil {
			return false, err
		}
		r, err := t.R.eval(doc)
		if err != nil {
			return false, err
		}
		if t.Op == "and" {
			return l && r, nil
		}
		return l || r, nil
	case "not":
		l, err := t.L.eval(doc)
		return !l, err
	}
	if strings.HasSuffix(t.Pre, "><") || len(t.Vals) <= 1 {
		return verdict(t.cmp(t.Vals), doc)
	}
	any := false
	for _, v := range t.Vals {
		b, err := verdict(t.cmp([]string{v}), doc)
		if err != nil {
			return false, err
		}
		any = any || b
	}
	return any, nil
}

// counts mirrors the statistics of a tree.
type counts struct {
	checked, matched int64
	kids             []*counts
}

func (t *qtree) newCounts() *counts {
	c := &counts{}
	if t.L != nil {
		c.kids = append(c.kids, t.L.newCounts())
	}
	if t.R != nil {
		c.kids = append(c.kids, t.R.newCounts())
	}
	return c
}

func (t *qtree) count(c *counts, doc []byte) (bool, error) {
	var v bool
	var err error
	switch t.Op {
	case "and":
		v, err = t.L.count(c.kids[0], doc)
		if err == nil && v {
			v, err = t.R.count(c.kids[1], doc)
		}
	case "or":
		v, err = t.L.count(c.kids[0], doc)
		if err == nil && !v {
			v, err = t.R.count(c.kids[1], doc)
		}
	case "not":
		v, err = t.L.count(c.kids[0], doc)
		v = !v
	default:
		v, err = verdict(t.cmp(t.Vals), doc)
	}
	c.checked++
	if v {
		c.matched++
	}
	return v, err
}

func (c *counts) diff(s *jsonmatcher.MatchStats, path string) string {
	if s == nil {
		return "no statistics at " + path
	}
	if len(s.Children) != len(c.kids) {
		return fmt.Sprintf("node %s (%s) has %d children, want %d", path, s.NodeName, len(s.Children), len(c.kids))
	}
	if s.TimesChecked != c.checked || s.TimesMatched != c.matched {
		return fmt.Sprintf("node %s (%s): checked %d matched %d, want %d and %d", path, s.NodeName, s.TimesChecked, s.TimesMatched, c.checked, c.matched)
	}
	for i := range c.kids {
		if d := c.kids[i].diff(s.Children[i], fmt.Sprintf("%s.%d", path, i)); d != "" {
			return d
		}
	}
	return ""
}

func init() {
	props["C01"] = &Prop{
		rule:  "random AND/OR/NOT trees of up to 3 levels over comparisons of every operator with up to 4 values, on documents that mention the same fields; the verdict must be the boolean combination of the verdicts of single-value queries. Non-trivial: the tree has an operator or a list",
		bound: "random trees of depth <= 3",
		gen: func(r *rand.Rand) Case {
			t := genTree(r, r.Intn(4))
			return Case{Tree: t, Query: B(t.text(r)), Docs: []B{smallDoc(r), smallDoc(r), smallDoc(r)}}
		},
		run: func(c *Case) (string, bool) {
			for _, d := range c.Docs {
				want, err := c.Tree.eval(d)
				if err != nil {
					return err.Error(), false
				}
				if bad := expect(string(c.Query), d, want); bad != "" {
					return bad, false
				}
			}
			return "", c.Tree.Op == "cmp" && len(c.Tree.Vals) < 2
		},
	}
	props["C12"] = &Prop{
		rule:  "random trees as for C01, a sequence of documents some of which are not JSON, statistics read in between; counts compared with a reference count over the verdicts of single comparisons",
		bound: "random trees of depth <= 3, sequences of up to 6 documents",
		gen: func(r *rand.Rand) Case {
			t := genTree(r, r.Intn(4))
			c := Case{Tree: t, Query: B(t.text(r))}
			for n := r.Intn(7); n > 0; n-- {
				if chance(r, 6) {
					c.Docs = append(c.Docs, pick(r, []B{B("{"), B(""), B("{\"a\":1}x"), B("nul")}))
				} else {
					c.Docs = append(c.Docs, smallDoc(r))
				}
			}
			return c
		},
		run: func(c *Case) (string, bool) {
			m, err := jsonmatcher.NewMatcher(string(c.Query))
			if err != nil {
				return "query is rejected: " + err.Error(), false
			}
			other, err := jsonmatcher.NewMatcher(string(c.Query))
			if err != nil {
				return "query is rejected: " + err.Error(), false
			}
			want := c.Tree.newCounts()
			if d := want.diff(m.Stats(), "root"); d != "" {
				return "before the first match: " + d, false
			}
			for i, d := range c.Docs {
				m.Match(append([]byte{}, d...))
				if json.Valid(d) {
					if _, err := c.Tree.count(want, d); err != nil {
						return err.Error(), false
					}
				}
				if df := want.diff(m.Stats(), "root"); df != "" {
					return fmt.Sprintf("query %s, after document %d (%s): %s", c.Query, i, d, df), false
				}
				if df := want.diff(m.Stats(), "root"); df != "" {
					return fmt.Sprintf("query %s, statistics read twice: %s", c.Query, df), false
				}
			}
			if d := c.Tree.newCounts().diff(other.Stats(), "root"); d != "" {
				return "statistics of another matcher changed: " + d, false
			}
			return "", len(c.Docs) == 0
		},
	}
	props["C02"] = c02()
	props["C03"] = c03()
	props["C04"] = c04()
	props["C05"] = c05()
	props["C06"] = c06()
	props["C07"] = c07()
	props["C08"] = c08()
	props["C09"] = c09()
	props["C10"] = c10()
	props["C11"] = c11()
}

// ---- C02: field paths ----

func c02() *Prop {
	return &Prop{
		rule:  "random documents of up to 5 levels whose scalars are distinct numbers, random paths of up to 4 segments; every number of the document and the exists operator are queried and compared with a reference path resolution. Non-trivial: the path selects something",
		bound: "documents of depth <= 5, paths of length <= 4",
		fixed: []Case{
			{Docs: []B{B(`[{"a":1},{"a":2}]`)}, Strs: []string{"a"}},
			{Docs: []B{B(`[1,2,3]`)}, Strs: []string{"[0]"}},
			{Docs: []B{B(` {"a":1}`)}, Strs: []string{"a"}},
			{Docs: []B{B("\n\t\r {\"a\":[[{\"b\":1}],{\"b\":[2,[3],{\"c\":4}]}]}")}, Strs: []string{"a", "b"}},
			{Docs: []B{B(`5`)}, Strs: []string{"a"}},
			{Docs: []B{B(`{"a":{"a":{"a":7}}}`)}, Strs: []string{"a", "a"}},
			{Docs: []B{B(`{"a":{"b":1},"b":2}`)}, Strs: []string{"b"}},
			{Docs: []B{B(`{"a":[{"b":1},{"b":2},{"b":3}]}`)}, Strs: []string{"a", "b"}},
		},
		gen: func(r *rand.Rand) Case {
			n := 0
			leaf := func() string { n++; return strconv.Itoa(100 + n) }
			j := genDoc(r, 1+r.Intn(5), leaf)
			if j.kind == 's' || chance(r, 2) {
				k := &jnode{kind: 'o', keys: []string{"a"}, kids: []*jnode{j}}
				if chance(r, 2) {
					k.keys = append(k.keys, "b")
					k.kids = append(k.kids, genDoc(r, 2, leaf))
				}
				j = k
			}
			var sb strings.Builder
			j.write(r, &sb)
			doc := sb.String()
			if chance(r, 4) {
				doc = pick(r, []string{" ", "\n", "\t \r\n"}) + doc + " "
			}
			var p []string
			cur := j
			for l := 1 + r.Intn(4); l > 0; l-- {
				for cur != nil && cur.kind == 'a' && len(cur.kids) > 0 {
					cur = pick(r, cur.kids)
				}
				if cur != nil && cur.kind == 'o' && len(cur.keys) > 0 && !chance(r, 5) {
					i := r.Intn(len(cur.keys))
					p = append(p, cur.keys[i])
					cur = cur.kids[i]
				} else {
					p = append(p, pick(r, docKeys))
					cur = nil
				}
			}
			return Case{Docs: []B{B(doc)}, Strs: p}
		},
		run: func(c *Case) (string, bool) {
			j, ok := parseDoc(c.Docs[0])
			if !ok {
				return "", true
			}
			sel := resolve(j, c.Strs)
			f := fieldText(c.Strs)
			if bad := expect(f+":exists", c.Docs[0], len(sel) > 0); bad != "" {
				return bad, false
			}
			want := map[string]bool{}
			for _, s := range scalars(sel) {
				want[s.text] = true
			}
			var all []string
			var walk func(j *jnode)
			walk = func(j *jnode) {
				if j.kind == 's' {
					all = append(all, j.text)
				}
				for _, k := range j.kids {
					walk(k)
				}
			}
			walk(j)
			for _, n := range all {
				if bad := expect(f+":"+n, c.Docs[0], want[n]); bad != "" {
					return bad, false
				}
			}
			return "", len(sel) == 0
		},
	}
}

// ---- C03 to C06: scalars ----

// scalarDoc hides scalars in a document at field a, among decoys elsewhere.
func scalarDoc(r *rand.Rand, sc []string) (doc string) {
	sep := pick(r, []string{",", ", ", " ,\n"})
	switch r.Intn(4) {
	case 0:
		if len(sc) == 1 {
			return `{"a":` + sc[0] + `}`
		}
		fallthrough
	case 1:
		return `{"b":0,"a":[` + strings.Join(sc, sep) + `]}`
	case 2:
		return `{"a":[` + strings.Join(sc, sep) + `],"c":{"a":1}}`
	}
	if len(sc) == 1 {
		return `{"x":null,"a":` + sc[0] + `,"b":[1]}`
	}
	return ` {"a":[` + strings.Join(sc, sep) + `]}`
}

// several repeats a choice up to eight times, mostly not at all.
func several(r *rand.Rand, one func() string) []string {
	sc := []string{one()}
	if chance(r, 4) {
		for n := r.Intn(8); n > 0; n-- {
			sc = append(sc, one())
		}
	}
	return sc
}

func scalarCase(r *rand.Rand, pool []string, kind string, vals ...string) Case {
	n := 1
	if chance(r, 2) {
		n = r.Intn(4)
	}
	if chance(r, 8) {
		n = r.Intn(10)
	}
	var sc []string
	for i := 0; i < n; i++ {
		sc = append(sc, pick(r, pool))
	}
	if len(sc) == 0 {
		sc = []string{pick(r, pool)}
	}
	return Case{Kind: kind, Strs: vals, Docs: []B{B(scalarDoc(r, sc))}}
}

// selected are the scalars at field a of a document.
func selected(c *Case) []*jnode {
	j, ok := parseDoc(c.Docs[0])
	if !ok {
		return nil
	}
	return scalars(resolve(j, []string{"a"}))
}

func strOf(s *jnode) (string, bool) {
	if s.text[0] == '"' {
		var v string
		if json.Unmarshal([]byte(s.text), &v) != nil {
			return "", false
		}
		return v, true
	}
	if s.text[0] == '-' || s.text[0] >= '0' && s.text[0] <= '9' {
		f, err := strconv.ParseFloat(s.text, 64)
		if err != nil {
			return "", false
		}
		return strconv.FormatFloat(f, 'f', -1, 64), true
	}
	return "", false
}

func numOf(s *jnode) (float64, bool) {
	t := s.text
	if t[0] == '"' {
		t = t[1 : len(t)-1]
		if strings.ContainsAny(t, `\`) {
			return 0, false
		}
	} else if !(t[0] == '-' || t[0] >= '0' && t[0] <= '9') {
		return 0, false
	}
	f, err := strconv.ParseFloat(t, 64)
	return f, err == nil
}

func cmpFloat(op string, x float64, a, b float64) bool {
	switch op {
	case "":
		return x == a
	case "<":
		return x < a
	case "<=":
		return x <= a
	case ">":
		return x > a
	case ">=":
		return x >= a
	}
	return x >= a && x <= b
}

var numOps = []string{"", "<", "<=", ">", ">=", "><"}

func c03() *Prop {
	lits := []string{"0", "1", "-1", "2", "10", "9", "100", "1.5", "0.1", "-0.5", "1.0", "-0.0", "0.30000000000000004", "3.0", "9007199254740993", "9007199254740992", "-9223372036854775808", "123456789.125", "00.5", "007"}
	pool := []string{"0", "1", "-1", "2", "10", "9", "100", "1.5", "0.1", "-0.5", "1.0", "-0.0", "-0", "1e0", "1E2", "10e-1", "0.3", "0.30000000000000004", "3", "9007199254740993", "9007199254740992", "9007199254740994", "-9223372036854775808", "1e308", "1e400", "123456789.125",
		`"0"`, `"1"`, `"-1"`, `"1.5"`, `"1e2"`, `"10"`, `"NaN"`, `"nan"`, `"Inf"`, `"-inf"`, `""`, `" 1"`, `"1 "`, `"x"`, `"1x"`, `"0x1p1"`, `"1_0"`, `"+1"`, `".5"`, `"9"`, "true", "false", "null", "{}", "[1]", `{"a":1}`, `"true"`}
	run := func(c *Case) (string, bool) {
		op := c.Kind
		lit := func(i int) float64 { f, _ := strconv.ParseFloat(c.Strs[i], 64); return f }
		if !strings.Contains(c.Strs[0], ".") {
			n, _ := strconv.ParseInt(c.Strs[0], 10, 64)
			if float64(n) != lit(0) {
				return "", true
			}
		}
		var a, b float64
		a = lit(0)
		q := "a:" + op + c.Strs[0]
		if op == "><" {
			b = lit(1)
			if b <= a || c.Strs[0] == c.Strs[1] {
				return "", true
			}
			q = "a:><(" + c.Strs[0] + "," + c.Strs[1] + ")"
		}
		want, some := false, false
		for _, s := range selected(c) {
			if x, ok := numOf(s); ok {
				some = true
				want = want || cmpFloat(op, x, a, b)
			}
		}
		return expect(q, c.Docs[0], want), !some
	}
	p := &Prop{rule: "every numeric operator against integer and float literals, on documents with numbers in every JSON spelling, numeric strings, NaN and non-numbers, single and in arrays. Non-trivial: a number is selected", bound: "fixed pools of literals and scalars, all pairs, and random arrays", run: run,
		gen: func(r *rand.Rand) Case {
			return scalarCase(r, pool, pick(r, numOps), pick(r, lits), pick(r, lits))
		}}
	for _, op := range numOps {
		for i, l := range lits {
			for _, s := range pool {
				p.fixed = append(p.fixed, Case{Kind: op, Strs: []string{l, lits[(i*7+3)%len(lits)]}, Docs: []B{B(`{"a":` + s + `}`)}})
				if op == "><" {
					for _, h := range lits {
						p.fixed = append(p.fixed, Case{Kind: op, Strs: []string{l, h}, Docs: []B{B(`{"a":` + s + `}`)}})
					}
				}
			}
		}
	}
	return p
}

func c04() *Prop {
	base := []time.Time{
		time.Date(2020, 1, 2, 0, 0, 0, 0, time.UTC), time.Date(2020, 1, 2, 3, 4, 5, 0, time.UTC), time.Date(2020, 1, 2, 23, 59, 59, 999999999, time.UTC),
		time.Date(2020, 1, 3, 0, 0, 0, 0, time.UTC), time.Date(2020, 1, 1, 23, 59, 59, 999999999, time.UTC), time.Date(1969, 12, 31, 23, 59, 59, 0, time.UTC), time.Date(1970, 1, 1, 0, 0, 0, 0, time.UTC),
		time.Date(1600, 2, 29, 12, 0, 0, 0, time.UTC), time.Date(2300, 6, 1, 12, 30, 0, 0, time.UTC), time.Date(2262, 4, 12, 0, 0, 0, 0, time.UTC), time.Date(1677, 9, 20, 0, 0, 0, 0, time.UTC), time.Date(9999, 12, 31, 23, 59, 59, 0, time.UTC), time.Date(1000, 1, 1, 0, 0, 0, 0, time.UTC),
		time.Date(2020, 1, 2, 3, 4, 5, 1, time.UTC), time.Date(2020, 1, 2, 3, 4, 5, 123456789, time.UTC), time.Date(2020, 1, 2, 3, 4, 5, 123000000, time.UTC),
	}
	zones := []*time.Location{time.UTC, time.FixedZone("", 3600), time.FixedZone("", -8*3600), time.FixedZone("", 19800)}
	var lits, pool []string
	for _, t := range base {
		for _, z := range zones {
			u := t.In(z)
			if u.Year() > 9999 || u.Year() < 1 {
				continue
			}
			lits = append(lits, u.Format(time.RFC3339Nano))
			pool = append(pool, `"`+u.Format(time.RFC3339Nano)+`"`)
		}
		lits = append(lits, t.Format("2006-01-02"))
		pool = append(pool, `"`+t.Format("2006-01-02")+`"`)
	}
	other := []string{`"x"`, "null", "true", "{}", `"not a date"`, `""`, "[]"}
	all := append(append([]string{}, pool...), other...)
	parse := func(s string) (time.Time, bool, bool) {
		if len(s) == 10 {
			t, err := time.Parse("2006-01-02", s)
			return t, true, err == nil
		}
		t, err := time.Parse(time.RFC3339, s)
		return t, false, err == nil
	}
	run := func(c *Case) (string, bool) {
		op := c.Kind
		a, day, ok := parse(c.Strs[0])
		if !ok {
			return "", true
		}
		var b time.Time
		q := "a:" + op + c.Strs[0]
		if op == "><" {
			b, _, _ = parse(c.Strs[1])
			if !a.Before(b) {
				return "", true
			}
			q = "a:><(" + c.Strs[0] + "," + c.Strs[1] + ")"
		}
		want, some := false, false
		for _, s := range selected(c) {
			if s.text[0] != '"' {
				continue
			}
			x, _, ok := parse(s.text[1 : len(s.text)-1])
			if !ok {
				continue
			}
			some = true
			switch op {
			case "":
				if day {
					want = want || !x.Before(a) && x.Before(a.AddDate(0, 0, 1))
				} else {
					want = want || x.Equal(a)
				}
			case "<":
				want = want || x.Before(a)
			case "<=":
				want = want || !x.After(a)
			case ">":
				want = want || x.After(a)
			case ">=":
				want = want || !x.Before(a)
			default:
				want = want || !x.Before(a) && !x.After(b)
			}
		}
		return expect(q, c.Docs[0], want), !some
	}
	p := &Prop{rule: "every operator against timestamps and dates from year 1000 to 9999 in several zones and with fractional seconds, on documents with such timestamps and with things that are none. Non-trivial: a timestamp is selected", bound: "fixed pools of instants, random combinations", run: run,
		gen: func(r *rand.Rand) Case {
			return scalarCase(r, all, pick(r, numOps), pick(r, lits), pick(r, lits))
		}}
	for _, op := range numOps[:5] {
		for i, l := range lits {
			for k, s := range pool {
				if (i+k)%3 == 0 || len(l) == 10 {
					p.fixed = append(p.fixed, Case{Kind: op, Strs: []string{l}, Docs: []B{B(`{"a":` + s + `}`)}})
				}
			}
		}
	}
	return p
}

func c05() *Prop {
	pool := []string{"null", "null", "null", `""`, `"null"`, "0", "1", "true", "false", "{}", "[]", "[null]", `"x"`, "-0", `{"b":null}`, `[[]]`}
	run := func(c *Case) (string, bool) {
		j, ok := parseDoc(c.Docs[0])
		if !ok {
			return "", true
		}
		triv := true
		for _, p := range [][]string{{"a"}, {"a", "b"}, {"b"}} {
			sel := resolve(j, p)
			f := strings.Join(p, ".")
			if bad := expect(f+":exists", c.Docs[0], len(sel) > 0); bad != "" {
				return bad, false
			}
			null := len(sel) > 0
			for _, s := range sel {
				if s.kind != 's' || s.text != "null" {
					null = false
				}
			}
			if bad := expect(f+":null", c.Docs[0], null); bad != "" {
				return bad, false
			}
			triv = triv && len(sel) == 0
		}
		return "", triv
	}
	p := &Prop{rule: "exists and null on fields that are absent, null, empty, nested, and reached through arrays of objects. Non-trivial: something is selected", bound: "arrays of up to 4 objects", run: run,
		gen: func(r *rand.Rand) Case {
			var els []string
			for n := r.Intn(5); n > 0; n-- {
				switch r.Intn(4) {
				case 0:
					els = append(els, pick(r, pool))
				case 1:
					els = append(els, `{"c":1}`)
				default:
					els = append(els, `{"b":`+pick(r, pool)+`}`)
				}
			}
			return Case{Docs: []B{B(`{"a":[` + strings.Join(els, ",") + `]` + pick(r, []string{"}", `,"b":` + pick(r, pool) + "}"}))}}
		}}
	for _, s := range pool {
		p.fixed = append(p.fixed, Case{Docs: []B{B(`{"a":` + s + `}`)}}, Case{Docs: []B{B(`{"a":{"b":` + s + `}}`)}}, Case{Docs: []B{B(`{"c":` + s + `}`)}})
		for _, t := range pool {
			p.fixed = append(p.fixed, Case{Docs: []B{B(`{"a":[{"b":` + s + `},{"b":` + t + `}]}`)}})
		}
	}
	return p
}

func c06() *Prop {
	pool := []string{"true", "false", `"true"`, `"false"`, `"True"`, "1", "0", "null", `"1"`, `""`, `"t"`, "{}", "[]", "[true]"}
	run := func(c *Case) (string, bool) {
		some := false
		for _, op := range []string{"", "~"} {
			for _, lit := range []string{"true", "false"} {
				want := false
				for _, s := range selected(c) {
					some = some || s.text == "true" || s.text == "false"
					want = want || s.text == lit
				}
				if bad := expect("a:"+op+lit, c.Docs[0], want); bad != "" {
					return bad, false
				}
			}
		}
		return "", !some
	}
	p := &Prop{rule: "true and false under : and ~ against booleans and look-alikes, single and in arrays. Non-trivial: a JSON boolean is selected", bound: "fixed pool, arrays of up to 3", run: run,
		gen: func(r *rand.Rand) Case { return scalarCase(r, pool, "") }}
	for _, s := range pool {
		p.fixed = append(p.fixed, Case{Docs: []B{B(`{"a":` + s + `}`)}})
		for _, t := range pool {
			p.fixed = append(p.fixed, Case{Docs: []B{B(`{"a":[` + s + `,` + t + `]}`)}})
		}
	}
	return p
}

// ---- C07: wildcard strings ----

type wtok struct {
	r    rune
	kind byte // c ? *
}

func wtoks(s string) []wtok {
	var out []wtok
	rs := []rune(s)
	for i := 0; i < len(rs); i++ {
		switch {
		case rs[i] == '\\' && i+1 < len(rs) && (rs[i+1] == '?' || rs[i+1] == '*'):
			out = append(out, wtok{rs[i+1], 'c'})
			i++
		case rs[i] == '?' || rs[i] == '*':
			out = append(out, wtok{0, byte(rs[i])})
		default:
			out = append(out, wtok{rs[i], 'c'})
		}
	}
	return out
}

func foldEq(a, b rune) bool {
	if a == b {
		return true
	}
	a = unicode.ToLower(a)
	for f := unicode.SimpleFold(a); f != a; f = unicode.SimpleFold(f) {
		if f == b {
			return true
		}
	}
	return a == b
}

func isWord(r rune) bool {
	return r == '_' || r >= '0' && r <= '9' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z'
}

func wordBoundary(t []rune, i int) bool {
	l := i > 0 && isWord(t[i-1])
	r := i < len(t) && isWord(t[i])
	return l != r
}

func wildSearch(pat, text string) bool {
	ascii := true
	for i := 0; i < len(pat); i++ {
		ascii = ascii && pat[i] < 128
	}
	toks := wtoks(pat)
	t := []rune(text)
	var match func(i, k int) bool
	memo := map[[2]int]bool{}
	match = func(i, k int) bool {
		if i == len(toks) {
			return !ascii || wordBoundary(t, k)
		}
		key := [2]int{i, k}
		if v, ok := memo[key]; ok {
			return v
		}
		res := false
		switch toks[i].kind {
		case 'c':
			res = k < len(t) && foldEq(toks[i].r, t[k]) && match(i+1, k+1)
		case '?':
			res = k < len(t) && t[k] != '\n' && match(i+1, k+1)
		case '*':
			res = match(i+1, k) || k < len(t) && t[k] != '\n' && match(i, k+1)
		}
		memo[key] = res
		return res
	}
	for s := 0; s <= len(t); s++ {
		if ascii && !wordBoundary(t, s) {
			continue
		}
		if match(0, s) {
			return true
		}
	}
	return false
}

func c07() *Prop {
	patA := []string{"a", "b", "A", "c", "x", "1", " ", ".", "?", "*", `\?`, `\*`, `\`, "(", ")", "[", "+", "^", "$", "|", "{2}", "-", "_", "/", "ab", "foo", "\\\\"}
	patU := []string{"é", "É", "ß", "世", "α", "Σ"}
	txtA := []string{"a", "b", "A", "B", "c", "x", "1", " ", ".", "?", "*", `\`, "(", ")", "[", "+", "^", "$", "|", "{2}", "-", "_", "/", "ab", "AB", "foo", "FOO", "é", "É", "世", "α", "ß"}
	num := []string{"1", "10", "1.5", "-2", "1e3", "100000000000000000000000", "0.000001", "true", "null", "{}", "[]"}
	gen := func(r *rand.Rand) Case {
		var p, t strings.Builder
		uni := chance(r, 4)
		for n := 1 + r.Intn(5); n > 0; n-- {
			if uni && chance(r, 2) {
				p.WriteString(pick(r, patU))
			} else {
				p.WriteString(pick(r, patA))
			}
		}
		switch r.Intn(3) {
		case 0: // text made to match
			for _, k := range wtoks(p.String()) {
				switch k.kind {
				case 'c':
					c := k.r
					if chance(r, 2) {
						c = unicode.ToUpper(c)
					}
					t.WriteRune(c)
				case '?':
					t.WriteString(pick(r, txtA))
				default:
					for m := r.Intn(3); m > 0; m-- {
						t.WriteString(pick(r, txtA))
					}
				}
			}
			s := t.String()
			t.Reset()
			t.WriteString(pick(r, []string{"", "", " ", "x", "zz ", "_"}) + s + pick(r, []string{"", "", " ", "x", " zz", "_"}))
		default:
			for n := r.Intn(7); n > 0; n-- {
				t.WriteString(pick(r, txtA))
			}
		}
		sc := []string{jstr(t.String())}
		if chance(r, 4) {
			sc = append(sc, pick(r, num))
		}
		if chance(r, 8) {
			sc = []string{pick(r, num)}
		}
		if chance(r, 6) {
			sc = append(several(r, func() string { return jstr(randText(r, txtA, r.Intn(4))) }), sc...)
		}
		return Case{Strs: []string{p.String()}, Docs: []B{B(scalarDoc(r, sc))}}
	}
	run := func(c *Case) (string, bool) {
		p := c.Strs[0]
		uni := false
		for i := 0; i < len(p); i++ {
			uni = uni || p[i] >= 128
		}
		if uni && !strings.ContainsAny(p, "?*") {
			// collation search: it must find the value itself and nothing in
			// texts that share no letter with it
			letters := map[rune]bool{}
			for _, x := range p {
				if !unicode.IsLetter(x) || strings.ContainsRune("ßΣσς", x) {
					return "", true
				}
				letters[unicode.ToLower(x)] = true
			}
			want, sure := false, true
			for _, s := range selected(c) {
				t, ok := strOf(s)
				if !ok {
					continue
				}
				if strings.ContainsAny(t, "ßΣσς") {
					sure = false
				}
				if strings.Contains(strings.ToLower(t), strings.ToLower(p)) {
					want = true
					continue
				}
				for _, x := range strings.ToLower(t) {
					if letters[x] || unicode.IsLetter(x) {
						sure = false
					}
				}
			}
			if want || sure {
				return expect("a:"+quoteQ(p), c.Docs[0], want), false
			}
			return "", true
		}
		want := false
		for _, s := range selected(c) {
			if t, ok := strOf(s); ok {
				want = want || wildSearch(p, t)
			}
		}
		for _, op := range []string{"", "~"} {
			if bad := expect("a:"+op+quoteQ(p), c.Docs[0], want); bad != "" {
				return bad, false
			}
		}
		return "", false
	}
	p := &Prop{rule: "random wildcard strings over letters, metacharacters, escapes and non-ASCII letters against random texts and texts made to match, compared with a reference wildcard matcher", bound: "values of up to 5 pieces, texts of up to 9 pieces", run: run, gen: gen}
	fix := func(pat string, texts ...string) {
		for _, t := range texts {
			p.fixed = append(p.fixed, Case{Strs: []string{pat}, Docs: []B{B(`{"a":` + jstr(t) + `}`)}})
		}
	}
	fix(`foo`, "foo", "Foo bar", "xfoo", "foox", "a foo.", "fo", "FOO", "foo_")
	fix(`a\*b`, "a*b", "axb", "a*B", `a\*b`, "aab")
	fix(`a\?b`, "a?b", "axb", `a\?b`)
	fix(`a\\*b`, `a\xb`, `a\*b`, `a*b`)
	fix(`a\`, `a\`, `a`, `a\b`)
	fix(`a?`, "a", "ab", "a b", "abc")
	fix(`a*c`, "ac", "abc", "abcd", "a\nc", "a x c")
	fix(`a.c`, "a.c", "abc")
	fix(`(a)`, "(a)", "x(a)y", "a")
	fix(`é?`, "éa", "É1", "ea")
	fix(`日*本`, "日本", "日x本", "日")
	fix(`a\?`, "a?", "a?b", "ab")
	return p
}

// ---- C08: regular expressions ----

func c08() *Prop {
	res := []string{`x`, `^x$`, `x+y*`, `a.c`, `\d+`, `[a-c]{2}`, `(?i)abc`, `a|b`, `(a)(b)`, `\/`, `\/a`, `a\/`, `\/\/`, `^\/a\/$`, `a\/b`, `\\`, `\.`, `^$`, `.`, `.*`, `\bfoo\b`, `é`, `[^x]`, `a{2,3}`, `\x41`, `"`, `'`, ` `, `\s`, `^1`, `5$`, `(?s)a.c`, `\\\/`, `a\\`}
	txts := []string{"", "x", "xy", "a", "b", "ab", "abc", "ABC", "aXc", "a/c", "/", "/a", "a/", "/a/", "//", "a/b", `\`, `\/`, `a\`, ".", "foo", "foo bar", "é", "aaa", "A", `"`, "'", " ", "\n", "a\nc", "1", "15", "12.5"}
	nums := []string{"1", "15", "1.5", "1e2", "-0.5", "true", "null", "{}"}
	run := func(c *Case) (string, bool) {
		src := c.Strs[0]
		re, err := regexp.Compile(src)
		if err != nil {
			return "", true
		}
		want := false
		for _, s := range selected(c) {
			if t, ok := strOf(s); ok {
				want = want || re.MatchString(t)
			}
		}
		for _, op := range []string{"", "~"} {
			if bad := expect("a:"+op+"/"+src+"/", c.Docs[0], want); bad != "" {
				return bad, false
			}
		}
		return "", false
	}
	p := &Prop{rule: "regular expressions with anchors, classes, flags, escapes and escaped slashes in every place against texts and numbers, compared with Go's regexp on the text between the delimiters", bound: "fixed pools, all pairs; random concatenations of two expressions", run: run,
		gen: func(r *rand.Rand) Case {
			sc := several(r, func() string { return jstr(pick(r, txts) + pick(r, txts)) })
			if chance(r, 3) {
				sc = append(sc, pick(r, nums))
			}
			if chance(r, 2) {
				sc = several(r, func() string { return jstr(pick(r, txts)) })
				return Case{Strs: []string{pick(r, res)}, Docs: []B{B(scalarDoc(r, sc))}}
			}
			return Case{Strs: []string{pick(r, res) + pick(r, res)}, Docs: []B{B(scalarDoc(r, sc))}}
		}}
	for _, re := range res {
		for _, t := range txts {
			p.fixed = append(p.fixed, Case{Strs: []string{re}, Docs: []B{B(`{"a":` + jstr(t) + `}`)}})
		}
		for _, t := range nums {
			p.fixed = append(p.fixed, Case{Strs: []string{re}, Docs: []B{B(`{"a":` + t + `}`)}})
		}
	}
	return p
}

// ---- C09: networks ----

func c09() *Prop {
	addrs := []string{"10.0.0.1", "10.1.2.3", "192.168.1.1", "192.168.1.255", "192.168.2.0", "0.0.0.0", "255.255.255.255", "172.16.5.4", "127.0.0.1", "8.8.8.8"}
	blocks := []string{"10.0.0.0/8", "10.1.0.0/16", "10.1.2.0/24", "192.168.1.0/24", "192.168.1.128/25", "0.0.0.0/0", "255.255.255.255/32", "172.16.0.0/12", "10.1.2.3/8", "192.168.1.77/24", "10.1.2.3/32", "11.0.0.0/8"}
	bad := []string{"256.1.1.1", "1.2.3", "10.1.2.300", "999.999.999.999", "1.2.3.4/33", "10.0.0.1/99", "text", "10.1.2.", "012.1.2.3", "a.b.c.d"}
	quers := append(append([]string{}, addrs...), blocks...)
	run := func(c *Case) (string, bool) {
		q := c.Strs[0]
		pt := q
		if !strings.Contains(pt, "/") {
			pt += "/32"
		}
		want, some := false, false
		pre, err := netip.ParsePrefix(pt)
		if err != nil {
			return "", true
		}
		for _, s := range selected(c) {
			if s.text[0] != '"' {
				continue
			}
			t, _ := strOf(s)
			// the texts are tokens separated by spaces, each an address, a block
			// or neither
			for _, tok := range strings.Fields(t) {
				tok = strings.Trim(tok, "(),;=[]<>")
				tok = strings.TrimPrefix(tok, "ip=")
				if p, err := netip.ParsePrefix(tok); err == nil {
					some = true
					want = want || p.Overlaps(pre)
				} else if a, err := netip.ParseAddr(tok); err == nil && a.Is4() {
					some = true
					want = want || pre.Contains(a)
				}
			}
		}
		return expect("a:"+q, c.Docs[0], want), !some
	}
	p := &Prop{rule: "address and block queries against texts with addresses, blocks, ill-formed addresses and words in every order and punctuation. Non-trivial: the text has an address or block", bound: "texts of up to 4 tokens", run: run,
		gen: func(r *rand.Rand) Case {
			mk := func() string {
				var ts []string
				for n := r.Intn(5); n > 0; n-- {
					t := ""
					switch r.Intn(4) {
					case 0:
						t = pick(r, bad)
					case 1:
						t = pick(r, blocks)
					default:
						t = pick(r, addrs)
					}
					switch r.Intn(6) {
					case 0:
						t = "(" + t + ")"
					case 1:
						t = "ip=" + t
					case 2:
						t += ","
					}
					ts = append(ts, t)
				}
				return jstr(strings.Join(ts, pick(r, []string{" ", "  ", "\n"})))
			}
			sc := several(r, mk)
			if chance(r, 6) {
				sc = append(sc, pick(r, []string{"1", "null", "10.1", "true"}))
			}
			return Case{Strs: []string{pick(r, quers)}, Docs: []B{B(scalarDoc(r, sc))}}
		}}
	for _, q := range quers {
		for _, t := range quers {
			p.fixed = append(p.fixed, Case{Strs: []string{q}, Docs: []B{B(`{"a":` + jstr(t) + `}`)}})
		}
	}
	return p
}

// ---- C10, C11 ----

func randText(r *rand.Rand, toks []string, n int) string {
	var sb strings.Builder
	for ; n > 0; n-- {
		sb.WriteString(pick(r, toks))
	}
	return sb.String()
}

func c10() *Prop {
	qtoks := []string{"a", "b.c", "*", ".", ":", " ", "\n", "(", ")", ",", "AND", "OR", "NOT", "!", "exists", "null", "><", "<", ">=", "~", "1", "-", "1.5", `"x"`, `"`, `\`, "/x/", "/", "true", "false", "1.2.3.4", "/8", "2020-01-02", "T03:04:05Z", "é", "\x00", "\xff", " AND ", " OR ", `""`, `"\u00e9"`, "00", "99999999999999999999", "*.*", "x:1", "a:exists", "a:(1,2)", "\u2028"}
	dtoks := []string{"{", "}", "[", "]", `"a"`, ":", ",", "1", "null", "true", `"x"`, " ", "\n", `"\u00"`, `\`, `"`, "-", "1e", "\x00", "\xff", `{"a":1}`, `"\ud800"`, "[]", "{}", "tru", `"a":[{"b":1}]`, "\xef\xbb\xbf"}
	stoks := []string{"a", "B", `\`, `\\`, "?", "*", "é", "世", "\U0001F600", "(", "[", "{2}", "^", "$", "+", "/", ".", " ", "-", ":", ",", "0", "1", "12", "2020", "2020-01-02", "T", "Z", "+02:00", "10.0.0.1", "/8", "Jan", "Monday", "PM", "年", "\u0301", "\x00"}
	var okq []string
	for _, f := range []string{"a", "a.b", "b", `""`, `"[0]"`, "a.a.a", "*.a", "a.*.b", "[0]"} {
		for _, o := range []string{":exists", ":null", ":1", `:"x*"`, `:"é"`, ":<1", ":><(1,2)", ":><(2020-01-02,2021-01-02)", ":/x/", ":true", ":1.2.3.4", ":2020-01-02", `:~("x",true,/y/)`} {
			okq = append(okq, f+o)
		}
	}
	run := func(c *Case) (string, bool) {
		m, err := jsonmatcher.NewMatcher(string(c.Query))
		if err != nil {
			if m != nil {
				return "a matcher and an error", false
			}
			return "", true
		}
		for _, d := range c.Docs {
			in := append([]byte{}, d...)
			v, err := m.Match(in)
			if (err != nil) == json.Valid(d) {
				return fmt.Sprintf("query %q on %q: error %v, but validity of the document is %v", c.Query, d, err, json.Valid(d)), false
			}
			if err != nil && v {
				return fmt.Sprintf("query %q on %q: matched with an error", c.Query, d), false
			}
		}
		m.Stats()
		m.Messages()
		return "", false
	}
	odd := []B{B("{}"), B("[]"), B("null"), B("0"), B(`""`), B(`"a"`), B("[[]]"), B(`{"a":null}`), B(`{"":1}`), B(`{"a":[]}`), B(`{"a":{}}`), B(`{"a":[[[{"a":1}]]]}`), B(` {"a":1}`), B("\n"), B(""), B("{"), B(`{"a":`), B(`{"a":"\ud800"}`), B(`{"a":"\u0000"}`), B(`{"a":1e999}`), B(`{"a":-0}`), B(`{"a":"\xff"}`), B("{\"a\":\"\xff\"}"), B(`[{"a":1}]`), B("nul"), B("{} x"), B(`{"a":1,"a":2}`), B(`{"[0]":[1]}`), B(`{"a":[1,2,{"b":[{"c":1}]}]}`), B(`[0]`), B(`["a"]`)}
	p := &Prop{rule: "random token soup and well-formed queries, on random bytes, odd and well-formed documents; no panic, an error exactly for invalid JSON, no match with an error. Non-trivial: the query is accepted", bound: "queries of up to 12 tokens, documents of up to 10", run: run,
		gen: func(r *rand.Rand) Case {
			q := pick(r, okq)
			switch r.Intn(5) {
			case 0:
				q = randText(r, qtoks, r.Intn(12))
			case 3: // every kind of text in a string or regular expression
				t := randText(r, stoks, r.Intn(5))
				q = "a:" + pick(r, []string{"", "~"}) + quoteQ(t)
				if chance(r, 4) {
					q = "a:/" + strings.ReplaceAll(t, "/", `\/`) + "/"
				}
			case 1:
				q = genTree(r, r.Intn(3)).text(r)
			case 2: // damage
				q = genTree(r, r.Intn(2)).text(r)
				i := r.Intn(len(q) + 1)
				q = q[:i] + pick(r, qtoks) + q[i:]
			}
			c := Case{Query: B(q)}
			for n := 0; n < 4; n++ {
				switch r.Intn(5) {
				case 3:
					c.Docs = append(c.Docs, B(scalarDoc(r, several(r, func() string { return jstr(randText(r, stoks, r.Intn(6))) }))))
				case 0:
					c.Docs = append(c.Docs, B(randText(r, dtoks, r.Intn(10))))
				case 1:
					c.Docs = append(c.Docs, pick(r, odd))
				case 2:
					d := append(B{}, smallDoc(r)...)
					if len(d) > 0 {
						switch r.Intn(3) {
						case 0:
							d = d[:r.Intn(len(d))]
						case 1:
							d[r.Intn(len(d))] = byte(r.Intn(256))
						}
					}
					c.Docs = append(c.Docs, d)
				default:
					c.Docs = append(c.Docs, smallDoc(r))
				}
			}
			return c
		}}
	for _, q := range okq {
		p.fixed = append(p.fixed, Case{Query: B(q), Docs: odd})
	}
	for _, q := range []string{"*:1", "*.*:1", "*.a:1", "a.*:1", `"*":1`, `"*"."*":exists`, "", "a", "a:", "()", "a:()", "a:(1)", "a:(1,)", "!", "NOT", `a:"`, "a:/", "a:/(/", "a:/[/", "a:><1", "a:><(1,1)", "a:><(2,1)", "a:><(1,2020-01-02)", "a:><(2020-01-02,1)", "a:<true", "a:(true,false)", "a:(1,1)", "a:1 AND", "a:1 OR", "a:1 AND b", "a:99999999999999999999", "a:1.2.3.999", "a:2020-13-01", "a:1.2.3.4/99", `a:"\x"`, `a:"\ud800"`} {
		p.fixed = append(p.fixed, Case{Query: B(q), Docs: odd})
	}
	return p
}

func c11() *Prop {
	run := func(c *Case) (string, bool) {
		m, err := jsonmatcher.NewMatcher(string(c.Query))
		if err != nil {
			return "", true
		}
		type res struct {
			v bool
			e bool
		}
		alone := make([]res, len(c.Docs))
		for i, d := range c.Docs {
			f, err := jsonmatcher.NewMatcher(string(c.Query))
			if err != nil {
				return "rejected the second time: " + err.Error(), false
			}
			v, e := f.Match(append([]byte{}, d...))
			alone[i] = res{v, e != nil}
		}
		check := func(i int) string {
			// spare capacity behind the document must stay as it was as well
			buf := make([]byte, len(c.Docs[i])+16)
			copy(buf, c.Docs[i])
			for k := len(c.Docs[i]); k < len(buf); k++ {
				buf[k] = 0xA5
			}
			in := buf[:len(c.Docs[i])]
			v, e := m.Match(in)
			if (res{v, e != nil}) != alone[i] {
				return fmt.Sprintf("query %s on %s: verdict %v (error %v) on a used matcher, %v on a fresh one", c.Query, c.Docs[i], v, e, alone[i].v)
			}
			if !bytes.Equal(buf[:len(c.Docs[i])], c.Docs[i]) {
				return fmt.Sprintf("query %s changed document %s to %s", c.Query, c.Docs[i], in)
			}
			for k := len(c.Docs[i]); k < len(buf); k++ {
				if buf[k] != 0xA5 {
					return fmt.Sprintf("query %s wrote behind document %s", c.Query, c.Docs[i])
				}
			}
			return ""
		}
		for round := 0; round < 2; round++ {
			for i := range c.Docs {
				if bad := check(i); bad != "" {
					return bad, false
				}
			}
		}
		var wg sync.WaitGroup
		var mu sync.Mutex
		out := ""
		const G = 4
		for g := 0; g < G; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				defer func() {
					if r := recover(); r != nil {
						mu.Lock()
						out = fmt.Sprint("panic: ", r)
						mu.Unlock()
					}
				}()
				for k := range c.Docs {
					if bad := check((k + g) % len(c.Docs)); bad != "" {
						mu.Lock()
						out = bad
						mu.Unlock()
					}
				}
			}(g)
		}
		wg.Wait()
		if out != "" {
			return out + " (concurrently)", false
		}
		valid := 0
		for _, d := range c.Docs {
			if json.Valid(d) {
				valid++
			}
		}
		if s := m.Stats(); s == nil || s.TimesChecked != int64(valid*(2+G)) {
			return fmt.Sprintf("query %s: root checked %d times, want %d", c.Query, s.TimesChecked, valid*(2+G)), false
		}
		return "", false
	}
	return &Prop{rule: "one matcher used twice in sequence and from 4 goroutines on the same documents, compared with fresh matchers; documents and the memory behind them compared byte by byte", bound: "random trees of depth <= 2, up to 5 documents, 4 goroutines", run: run,
		gen: func(r *rand.Rand) Case {
			c := Case{Query: B(genTree(r, r.Intn(3)).text(r))}
			for n := 1 + r.Intn(5); n > 0; n-- {
				d := smallDoc(r)
				if chance(r, 8) {
					d = d[:len(d)-1]
				}
				if chance(r, 4) {
					d = B(strings.Replace(string(d), `"x"`, `"\u0078\n"`, -1))
				}
				c.Docs = append(c.Docs, d)
			}
			return c
		}}
}

var _ = utf8.RuneError
var _ = math.NaN
var _ = sort.Strings
