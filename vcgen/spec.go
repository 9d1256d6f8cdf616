package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"unicode"
)

// ---- lexer ----

type tok struct {
	k    byte // i ident, n number, s string, r rune, o operator, e eof
	v    string
	line int
}

type specErr struct {
	file string
	line int
	msg  string
}

func (e specErr) Error() string { return fmt.Sprintf("%s:%d: %s", e.file, e.line, e.msg) }

func lex(file, src string) []tok {
	var out []tok
	line := 1
	i := 0
	ops := []string{"<==>", "==>", "...", "++", "::", ":=", "==", "!=", "<=", ">=", "&&", "||", "->"}
	for i < len(src) {
		c := src[i]
		switch {
		case c == '\n':
			line++
			i++
		case c == ' ' || c == '\t' || c == '\r':
			i++
		case strings.HasPrefix(src[i:], "//"):
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case unicode.IsLetter(rune(c)) || c == '_' || c == '$':
			j := i
			for j < len(src) && (unicode.IsLetter(rune(src[j])) || src[j] == '_' || src[j] == '$' || src[j] >= '0' && src[j] <= '9') {
				j++
			}
			out = append(out, tok{'i', src[i:j], line})
			i = j
		case c >= '0' && c <= '9':
			j := i
			for j < len(src) && (src[j] >= '0' && src[j] <= '9') {
				j++
			}
			out = append(out, tok{'n', src[i:j], line})
			i = j
		case c == '"' || c == '`' || c == '\'':
			j := i + 1
			for j < len(src) && src[j] != c {
				if src[j] == '\\' && c != '`' {
					j++
				}
				j++
			}
			v, err := strconv.Unquote(src[i : j+1])
			if err != nil {
				panic(specErr{file, line, "bad literal " + src[i:j+1]})
			}
			k := byte('s')
			if c == '\'' {
				k = 'r'
			}
			out = append(out, tok{k, v, line})
			line += strings.Count(src[i:j+1], "\n")
			i = j + 1
		default:
			found := false
			for _, o := range ops {
				if strings.HasPrefix(src[i:], o) {
					out = append(out, tok{'o', o, line})
					i += len(o)
					found = true
					break
				}
			}
			if !found {
				out = append(out, tok{'o', string(c), line})
				i++
			}
		}
	}
	return append(out, tok{'e', "", line})
}

// ---- syntax ----

type Ty struct {
	k    string // name, ptr, slice, seq, arr, map, func
	name string // possibly qualified
	a, b *Ty
}

type Expr struct {
	k    string // id int str rune call field index slice un bin ite quant old type let
	v    string
	args []*Expr
	ty   *Ty
	vars []Param
	pats [][]*Expr
	line int
}

type Param struct {
	name string
	ty   *Ty
}

type Clause struct {
	e     *Expr
	tags  []string
	label string
	line  int
}

type LoopInv struct {
	holes []Param
	e     *Expr
	line  int
	label string
}

type Contract struct {
	kind     string // func extern iface functype
	key      string
	file     string
	line     int
	pkg      string
	params   []string
	results  []string
	requires []Clause
	ensures  []Clause
	onpanic  []Clause // holds when the call panics
	defines  []Clause // names a property of a function value made here
	effects  []Clause // what a call does to ghost state: assumed at calls, by definition
	modifies []*Expr
	ghosts   []Param
	invs     []LoopInv
	tags     []string
	nopanic  []string
	frame    []string
	impltags map[string][]string
	flags    map[string]bool
	lets     []Let
	uses     []string
	owed     *Expr // type invariants are owed only if this holds
	bound    bool  // bound to a function of the program
}

type Let struct {
	name string
	e    *Expr
}

type RecDef struct {
	name   string
	params []Param
	res    *Ty
	body   *Expr
	kind   string // fun rec def
	pkg    string
	file   string
	line   int
	depth  int
	open   bool // unfolded under quantifiers too
	konst  bool // unfolded without end if the first argument is a constant
	known  bool // unfolded as long as the first argument is a known object
}

type Axiom struct {
	name   string
	e      *Expr
	pkg    string
	file   string
	line   int
	lemma  bool
	local  bool // only where it is named
	induct *Expr
	tags   []string
	uses   []string
}

type TypeInv struct {
	ty   *Ty
	self string
	cl   Clause
	pkg  string
	file string
}

type GhostVar struct {
	pkg string
	ty  *Ty
}

type Spec struct {
	signatures string // functions the contracts were written for
	contracts  map[string]*Contract
	recs       map[string]*RecDef
	axioms     []*Axiom
	immutable  map[string]bool // type keys, filled on resolution
	immutNames []struct{ pkg, name string }
	invs       []*TypeInv
	witnesses  []*TypeInv // what defines specification functions at the objects of a table
	tables     []struct{ pkg, name string }
	owned      []struct{ pkg, name, field string }
	atomic     []struct{ pkg, name, field string } // fields assigned through atomic operations only
	ghostfs    []struct {
		pkg string
		ty  *Ty
		f   Param
	}
	extsorts []struct {
		name string
		ty   *Ty
	}
	ghostvars map[string]*GhostVar
	sorts     map[string]bool
	pkgs      []string
	order     []string
	purePk    map[string]bool
	alias     map[string]string   // names of packages
	touches   map[string][]string // ghost variables functions of a package may change
	mutOK     map[string]bool
}

type sparser struct {
	file string
	toks []tok
	p    int
	pkg  string
	sp   *Spec

	defNopanic, defFrame []string
}

// ids is a list of property ids.
func (s *sparser) ids() (out []string) {
	for s.cur().k == 'i' && len(s.cur().v) >= 3 && s.cur().v[0] == 'C' && s.cur().v[1] >= '0' && s.cur().v[1] <= '9' {
		out = append(out, s.ident())
		s.accept(",")
	}
	return
}

func (s *sparser) cur() tok { return s.toks[s.p] }
func (s *sparser) fail(f string, a ...any) {
	panic(specErr{s.file, s.cur().line, fmt.Sprintf(f, a...)})
}
func (s *sparser) is(v string) bool {
	return (s.cur().k == 'o' || s.cur().k == 'i') && s.cur().v == v
}
func (s *sparser) accept(v string) bool {
	if s.is(v) {
		s.p++
		return true
	}
	return false
}
func (s *sparser) expect(v string) {
	if !s.accept(v) {
		s.fail("expected %q, found %q", v, s.cur().v)
	}
}
func (s *sparser) ident() string {
	if s.cur().k != 'i' {
		s.fail("expected identifier, found %q", s.cur().v)
	}
	v := s.cur().v
	s.p++
	return v
}

func (s *sparser) typ() *Ty {
	switch {
	case s.accept("*"):
		return &Ty{k: "ptr", a: s.typ()}
	case s.accept("["):
		if s.cur().k == 'n' {
			n := s.cur().v
			s.p++
			s.expect("]")
			return &Ty{k: "array", name: n, a: s.typ()}
		}
		s.expect("]")
		return &Ty{k: "slice", a: s.typ()}
	case s.accept("seq"):
		return &Ty{k: "seq", a: s.typ()}
	case s.accept("arr"):
		a := s.typ()
		return &Ty{k: "arr", a: a, b: s.typ()}
	case s.accept("map"):
		s.expect("[")
		a := s.typ()
		s.expect("]")
		return &Ty{k: "map", a: a, b: s.typ()}
	case s.accept("("):
		t := s.typ()
		s.expect(")")
		return t
	case s.accept("struct"):
		s.expect("{")
		s.expect("}")
		return &Ty{k: "empty"}
	}
	n := s.ident()
	if s.is(".") {
		s.p++
		n += "." + s.ident()
	}
	return &Ty{k: "name", name: n}
}

func (s *sparser) params() []Param {
	s.expect("(")
	var out []Param
	for !s.is(")") {
		n := s.ident()
		out = append(out, Param{n, s.typ()})
		if !s.accept(",") {
			break
		}
	}
	s.expect(")")
	// a, b int style is not supported: every parameter carries its type
	return out
}

var binPrec = map[string]int{
	"<==>": 1, "==>": 2, "||": 4, "&&": 5,
	"==": 6, "!=": 6, "<": 6, "<=": 6, ">": 6, ">=": 6,
	"++": 7, "+": 8, "-": 8, "*": 9, "/": 9, "%": 9,
}

func (s *sparser) expr() *Expr { return s.ternary() }

func (s *sparser) ternary() *Expr {
	c := s.binary(1)
	if s.is("?") {
		ln := s.cur().line
		s.p++
		a := s.ternary()
		s.expect(":")
		b := s.ternary()
		return &Expr{k: "ite", args: []*Expr{c, a, b}, line: ln}
	}
	return c
}

func (s *sparser) binary(min int) *Expr {
	l := s.unary()
	for {
		t := s.cur()
		if t.k != 'o' {
			return l
		}
		p, ok := binPrec[t.v]
		if !ok || p < min {
			return l
		}
		s.p++
		var r *Expr
		if t.v == "==>" {
			r = s.binary(p) // right associative
		} else {
			r = s.binary(p + 1)
		}
		l = &Expr{k: "bin", v: t.v, args: []*Expr{l, r}, line: t.line}
	}
}

func (s *sparser) unary() *Expr {
	t := s.cur()
	if t.k == 'o' {
		switch t.v {
		case "!", "-", "*":
			s.p++
			return &Expr{k: "un", v: t.v, args: []*Expr{s.unary()}, line: t.line}
		}
	}
	return s.postfix()
}

func (s *sparser) postfix() *Expr {
	e := s.primary()
	for {
		t := s.cur()
		if t.k != 'o' {
			return e
		}
		switch t.v {
		case ".":
			s.p++
			e = &Expr{k: "field", v: s.ident(), args: []*Expr{e}, line: t.line}
			if s.is("(") && e.args[0].k == "id" {
				// library function: pkg.f(...)
				e = &Expr{k: "call", v: e.args[0].v + "." + e.v, args: s.args(), line: t.line}
			} else if s.is("(") && e.args[0].k == "field" && e.args[0].args[0].k == "id" {
				// library method: pkg.T.m(x, ...)
				e = &Expr{k: "call", v: e.args[0].args[0].v + "." + e.args[0].v + "." + e.v, args: s.args(), line: t.line}
			}
		case "[":
			s.p++
			var lo, hi *Expr
			if !s.is(":") {
				lo = s.expr()
			}
			if s.accept(":") {
				if !s.is("]") {
					hi = s.expr()
				}
				s.expect("]")
				e = &Expr{k: "slice", args: []*Expr{e, lo, hi}, line: t.line}
			} else {
				s.expect("]")
				e = &Expr{k: "index", args: []*Expr{e, lo}, line: t.line}
			}
		default:
			return e
		}
	}
}

func (s *sparser) args() []*Expr {
	s.expect("(")
	var out []*Expr
	for !s.is(")") {
		out = append(out, s.expr())
		if !s.accept(",") {
			break
		}
	}
	s.expect(")")
	return out
}

func (s *sparser) primary() *Expr {
	t := s.cur()
	switch t.k {
	case 'n':
		s.p++
		return &Expr{k: "int", v: t.v, line: t.line}
	case 's':
		s.p++
		return &Expr{k: "str", v: t.v, line: t.line}
	case 'r':
		s.p++
		return &Expr{k: "rune", v: t.v, line: t.line}
	case 'o':
		if t.v == "(" {
			s.p++
			e := s.expr()
			s.expect(")")
			return e
		}
		s.fail("unexpected %q", t.v)
	case 'i':
		switch t.v {
		case "forall", "exists":
			s.p++
			var vars []Param
			for {
				n := s.ident()
				vars = append(vars, Param{n, s.typ()})
				if !s.accept(",") {
					break
				}
			}
			s.expect("::")
			var pats [][]*Expr
			for s.accept("{") {
				var p []*Expr
				for {
					p = append(p, s.expr())
					if !s.accept(",") {
						break
					}
				}
				s.expect("}")
				pats = append(pats, p)
			}
			return &Expr{k: "quant", v: t.v, vars: vars, pats: pats, args: []*Expr{s.expr()}, line: t.line}
		case "let":
			s.p++
			n := s.ident()
			s.expect(":=")
			v := s.expr()
			s.expect("in")
			return &Expr{k: "let", v: n, args: []*Expr{v, s.expr()}, line: t.line}
		case "old", "entry", "pre":
			s.p++
			s.expect("(")
			e := s.expr()
			s.expect(")")
			return &Expr{k: t.v, args: []*Expr{e}, line: t.line}
		case "is", "as", "iface", "boxed":
			s.p++
			s.expect("(")
			e := s.expr()
			s.expect(",")
			ty := s.typ()
			s.expect(")")
			return &Expr{k: t.v, args: []*Expr{e}, ty: ty, line: t.line}
		case "empty", "tag", "zero":
			if s.toks[s.p+1].v == "(" {
				s.p++
				s.expect("(")
				ty := s.typ()
				s.expect(")")
				return &Expr{k: t.v, ty: ty, line: t.line}
			}
		case "mk":
			if s.toks[s.p+1].v == "(" {
				s.p++
				s.expect("(")
				e := &Expr{k: "mk", ty: s.typ(), line: t.line}
				for s.accept(",") {
					e.args = append(e.args, s.expr())
				}
				s.expect(")")
				return e
			}
		case "maps":
			if s.toks[s.p+1].v == "(" {
				s.p++
				s.expect("(")
				k := s.typ()
				if s.accept(")") {
					return &Expr{k: "call", v: "maps", ty: k, line: t.line}
				}
				s.expect(",")
				v := s.typ()
				s.expect(")")
				return &Expr{k: "call", v: "maps", ty: &Ty{k: "map", a: k, b: v}, line: t.line}
			}
		case "heap":
			if s.toks[s.p+1].v == "(" {
				s.p++
				s.expect("(")
				ty := s.typ()
				s.expect(",")
				f := s.ident()
				s.expect(")")
				return &Expr{k: "heap", ty: ty, v: f, line: t.line}
			}
		}
		s.p++
		if s.is("(") {
			return &Expr{k: "call", v: t.v, args: s.args(), line: t.line}
		}
		return &Expr{k: "id", v: t.v, line: t.line}
	}
	s.fail("unexpected end")
	return nil
}

func (s *sparser) tagList() (tags []string, label string) {
	if s.accept("[") {
		for !s.is("]") {
			if s.cur().k == 's' {
				label = s.cur().v
				s.p++
			} else {
				tags = append(tags, s.ident())
			}
			s.accept(",")
		}
		s.expect("]")
	}
	return
}

func (s *sparser) nameList(end string) []string {
	var out []string
	for !s.is(end) {
		out = append(out, s.ident())
		if !s.accept(",") {
			break
		}
	}
	return out
}

// function reference: name, (T).name, (*T).name, pkg.name; written as a string for externs
func (s *sparser) contract(kind string) {
	c := &Contract{kind: kind, file: s.file, line: s.cur().line, pkg: s.pkg, flags: map[string]bool{}, impltags: map[string][]string{}, nopanic: s.defNopanic, frame: s.defFrame}
	if s.cur().k == 's' {
		c.key = s.cur().v
		s.p++
	} else {
		n := s.ident()
		for s.accept(".") {
			n += "." + s.ident()
		}
		c.key = n
	}
	s.expect("(")
	c.params = s.nameList(")")
	s.expect(")")
	if s.accept("(") {
		c.results = s.nameList(")")
		s.expect(")")
	}
	if s.accept("{") {
		for !s.accept("}") {
			ln := s.cur().line
			kw := s.ident()
			switch kw {
			case "tags":
				c.tags = s.ids()
			case "nopanic":
				c.nopanic = s.ids()
			case "frame":
				c.frame = s.ids()
			case "impltags":
				n := s.ident()
				c.impltags[n] = s.ids()
			case "requires":
				tg, lb := s.tagList()
				c.requires = append(c.requires, Clause{s.expr(), tg, lb, ln})
			case "ensures":
				tg, lb := s.tagList()
				c.ensures = append(c.ensures, Clause{s.expr(), tg, lb, ln})
			case "onpanic":
				tg, lb := s.tagList()
				c.onpanic = append(c.onpanic, Clause{s.expr(), tg, lb, ln})
				c.flags["maypanic"] = true
			case "defines":
				tg, lb := s.tagList()
				c.defines = append(c.defines, Clause{s.expr(), tg, lb, ln})
			case "effect":
				tg, lb := s.tagList()
				c.effects = append(c.effects, Clause{s.expr(), tg, lb, ln})
			case "modifies":
				for {
					c.modifies = append(c.modifies, s.expr())
					if !s.accept(",") {
						break
					}
				}
			case "ghost":
				n := s.ident()
				c.ghosts = append(c.ghosts, Param{n, s.typ()})
			case "owed":
				c.owed = s.expr()
			case "let":
				n := s.ident()
				s.expect(":=")
				c.lets = append(c.lets, Let{n, s.expr()})
			case "uses":
				c.uses = append(c.uses, s.ident())
				for s.accept(",") {
					c.uses = append(c.uses, s.ident())
				}
			case "inv":
				_, lb := s.tagList()
				var holes []Param
				if s.is("(") {
					// holes are a parenthesised parameter list followed by an expression;
					// try it, fall back to a plain expression
					save := s.p
					ok := func() (ok bool) {
						defer func() {
							if r := recover(); r != nil {
								ok = false
							}
						}()
						holes = s.params()
						return len(holes) > 0 && !s.is("&&") && !s.is("==")
					}()
					if !ok {
						s.p = save
						holes = nil
					}
				}
				for _, e := range conjuncts(s.expr()) {
					c.invs = append(c.invs, LoopInv{holes, e, ln, lb})
				}
			default:
				c.flags[kw] = true
			}
		}
	}
	k := kind + " " + c.key
	if kind == "func" || kind == "iface" || kind == "functype" {
		k = kind + " " + s.pkg + " " + c.key
	}
	if s.sp.contracts[k] != nil {
		s.fail("duplicate contract %s", k)
	}
	s.sp.contracts[k] = c
	s.sp.order = append(s.sp.order, k)
}

func (s *sparser) file1() {
	for s.cur().k != 'e' {
		ln := s.cur().line
		kw := s.ident()
		switch kw {
		case "package":
			s.pkg = s.cur().v
			s.p++
			s.sp.pkgs = append(s.sp.pkgs, s.pkg)
		case "default":
			if s.accept("nopanic") {
				s.defNopanic = s.ids()
			} else {
				s.expect("frame")
				s.defFrame = s.ids()
			}
		case "sort":
			s.sp.sorts[s.ident()] = true
		case "immutable":
			for {
				n := s.ident()
				s.sp.immutNames = append(s.sp.immutNames, struct{ pkg, name string }{s.pkg, n})
				if !s.accept(",") {
					break
				}
			}
		case "alias":
			name := s.ident()
			s.sp.alias[name] = s.cur().v
			s.p++
		case "purepkg":
			for {
				s.sp.purePk[s.cur().v] = true
				s.p++
				if !s.accept(",") {
					break
				}
			}
		case "touches":
			g := s.ident()
			for {
				s.sp.touches[s.cur().v] = append(s.sp.touches[s.cur().v], g)
				s.p++
				if !s.accept(",") {
					break
				}
			}
		case "mutates":
			for {
				s.sp.mutOK[s.cur().v] = true
				s.p++
				if !s.accept(",") {
					break
				}
			}
		case "extsort":
			n := s.cur().v
			s.p++
			s.expect("=")
			s.sp.extsorts = append(s.sp.extsorts, struct {
				name string
				ty   *Ty
			}{n, s.typ()})
		case "ghostvar":
			n := s.ident()
			s.sp.ghostvars[n] = &GhostVar{s.pkg, s.typ()}
		case "ghostfield":
			t := s.typ()
			n := s.ident()
			s.sp.ghostfs = append(s.sp.ghostfs, struct {
				pkg string
				ty  *Ty
				f   Param
			}{s.pkg, t, Param{n, s.typ()}})
		case "atomic":
			t := s.ident()
			s.sp.atomic = append(s.sp.atomic, struct{ pkg, name, field string }{s.pkg, t, s.ident()})
		case "owned":
			t := s.ident()
			s.sp.owned = append(s.sp.owned, struct{ pkg, name, field string }{s.pkg, t, s.ident()})
		case "table":
			s.sp.tables = append(s.sp.tables, struct{ pkg, name string }{s.pkg, s.ident()})
		case "invariant", "witness":
			tg, lb := s.tagList()
			t := s.typ()
			s.expect("(")
			self := s.ident()
			s.expect(")")
			ti := &TypeInv{t, self, Clause{s.expr(), tg, lb, ln}, s.pkg, s.file}
			if kw == "witness" {
				s.sp.witnesses = append(s.sp.witnesses, ti)
			} else {
				s.sp.invs = append(s.sp.invs, ti)
			}
		case "fun", "rec", "def":
			n := s.ident()
			d := &RecDef{name: n, kind: kw, pkg: s.pkg, file: s.file, line: ln}
			d.params = s.params()
			d.res = s.typ()
			d.open = s.accept("open")
			d.known = s.accept("known")
			d.konst = s.accept("const")
			if s.accept("depth") {
				fmt.Sscan(s.cur().v, &d.depth)
				s.p++
			}
			if kw != "fun" {
				s.expect("=")
				d.body = s.expr()
			}
			if s.sp.recs[n] != nil {
				s.fail("duplicate function %s", n)
			}
			s.sp.recs[n] = d
		case "axiom", "lemma":
			n := s.ident()
			a := &Axiom{name: n, pkg: s.pkg, file: s.file, line: ln, lemma: kw == "lemma"}
			a.tags, _ = s.tagList()
			a.local = s.accept("local")
			if s.accept("induct") {
				s.expect("(")
				a.induct = s.expr()
				s.expect(")")
			}
			if s.accept("uses") {
				a.uses = append(a.uses, s.ident())
				for s.accept(",") {
					a.uses = append(a.uses, s.ident())
				}
			}
			s.expect(":")
			a.e = s.expr()
			s.sp.axioms = append(s.sp.axioms, a)
		case "func", "extern", "iface", "functype":
			s.contract(kw)
		default:
			s.p--
			s.fail("unexpected %q", kw)
		}
	}
}

func loadSpecs(dir string) (sp *Spec, err error) {
	defer func() {
		if r := recover(); r != nil {
			if se, ok := r.(specErr); ok {
				err = se
				return
			}
			panic(r)
		}
	}()
	sp = &Spec{contracts: map[string]*Contract{}, recs: map[string]*RecDef{}, immutable: map[string]bool{}, sorts: map[string]bool{}, ghostvars: map[string]*GhostVar{}, purePk: map[string]bool{}, alias: map[string]string{}, touches: map[string][]string{}, mutOK: map[string]bool{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(files)
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		s := &sparser{file: filepath.Base(f), toks: lex(f, string(b)), sp: sp}
		s.file1()
	}
	if b, err := os.ReadFile(filepath.Join(dir, "signatures.txt")); err == nil {
		sp.signatures = string(b)
	}
	return sp, nil
}

// conjuncts are the parts of a conjunction.
func conjuncts(e *Expr) []*Expr {
	if e.k == "bin" && e.v == "&&" {
		return append(conjuncts(e.args[0]), conjuncts(e.args[1])...)
	}
	return []*Expr{e}
}
