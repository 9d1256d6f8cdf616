package main

import (
	"bufio"
	"fmt"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

// SItem is a fact or obligation ready for printing.
type SItem struct {
	fact *Term
	ob   *Oblig
	ext  []*Term // extensionality facts of the goal
}

const unfoldDepth = 3

// prep interleaves the items with the definitions of the terms they mention.
func (x *Exec) prep() []SItem {
	var out []SItem
	gen := map[int]int{} // how many unfoldings away from the program a term is
	type work struct {
		t *Term
		g int
	}
	var scan func(t *Term, g int, q *[]work)
	scan = func(t *Term, g int, q *[]work) {
		if g0, ok := gen[t.id]; ok && g0 <= g {
			return
		}
		gen[t.id] = g
		for _, a := range t.args {
			scan(a, g, q)
		}
		if !t.bound || x.openRec(t) != nil {
			*q = append(*q, work{t, g})
		}
	}
	emit := func(t *Term) {
		if !isTrue(t) {
			out = append(out, SItem{fact: t})
		}
	}
	given := map[int]bool{}
	process := func(root *Term) {
		var q []work
		scan(root, 0, &q)
		for len(q) > 0 {
			w := q[0]
			q = q[1:]
			for _, f := range x.defFacts(w.t, w.g) {
				scan(f, w.g+1, &q)
				if !given[f.id] {
					given[f.id] = true
					emit(f)
				}
			}
		}
	}
	// axioms that talk about the symbols in use
	base := x.items
	for _, it := range base {
		if it.fact != nil {
			process(it.fact)
			emit(it.fact)
			continue
		}
		it.ob.goal = x.skolem(it.ob.goal)
		process(it.ob.goal)
		process(it.ob.pc)
		si := SItem{ob: it.ob}
		seenE := map[int]bool{}
		x.extFacts(it.ob.goal, true, seenE, &si.ext)
		for _, e := range si.ext {
			process(e)
		}
		out = append(out, si)
	}
	return out
}

// skolem replaces the universally quantified variables of a goal by constants.
func (x *Exec) skolem(t *Term) *Term {
	tt := x.tt
	if t.sort != SBool {
		return t
	}
	switch t.op {
	case "forall":
		m := map[*Term]*Term{}
		for _, v := range t.vars {
			m[v] = tt.freshVar("sk", v.sort)
		}
		return x.skolem(tt.subst(t.args[0], m, map[int]*Term{}))
	case "and":
		var as []*Term
		for _, a := range t.args {
			as = append(as, x.skolem(a))
		}
		return tt.and(as...)
	case "or":
		var as []*Term
		for _, a := range t.args {
			as = append(as, x.skolem(a))
		}
		return tt.or(as...)
	case "=>":
		return tt.implies(t.args[0], x.skolem(t.args[1]))
	case "ite":
		return tt.ite(t.args[0], x.skolem(t.args[1]), x.skolem(t.args[2]))
	}
	return t
}

// extFacts instantiates extensionality for sequence equalities a goal asks for.
func (x *Exec) extFacts(t *Term, pos bool, seen map[int]bool, out *[]*Term) {
	if seen[t.id] || t.bound {
		return
	}
	seen[t.id] = true
	switch t.op {
	case "and", "or", "=>", "not", "ite":
		for _, a := range t.args {
			if a.sort == SBool {
				x.extFacts(a, pos, seen, out)
			}
		}
	case "=":
		a, b := t.args[0], t.args[1]
		if a.sort == SBool {
			x.extFacts(a, pos, seen, out)
			x.extFacts(b, pos, seen, out)
		}
		if x.so.seqs[a.sort] != nil {
			tt := x.tt
			k := tt.freshVar("ext", SInt)
			*out = append(*out, tt.or(t, tt.neq(tt.slen(a), tt.slen(b)),
				tt.and(tt.le(tt.int(0), k), tt.lt(k, tt.slen(a)), tt.neq(tt.at(a, k), tt.at(b, k)))))
		}
		if strings.HasPrefix(string(a.sort), "(Array") {
			tt := x.tt
			ks := Sort(strings.Fields(strings.TrimPrefix(string(a.sort), "(Array "))[0])
			if !strings.HasPrefix(string(ks), "(") {
				k := tt.freshVar("exta", ks)
				*out = append(*out, tt.or(t, tt.neq(tt.sel(a, k), tt.sel(b, k))))
			}
		}
	}
}

func (x *Exec) hasAllocRef(t *Term, memo map[int]bool) bool {
	if r, ok := memo[t.id]; ok {
		return r
	}
	r := x.allocRefs[t]
	for _, a := range t.args {
		if r {
			break
		}
		r = x.hasAllocRef(a, memo)
	}
	memo[t.id] = r
	return r
}

// openRec is the definition of an application that is unfolded under quantifiers.
func (x *Exec) openRec(t *Term) *RecDef {
	op := strings.Trim(t.op, "|")
	if !strings.HasPrefix(op, "r.") {
		return nil
	}
	if d := x.p.spec.recs[op[2:]]; d != nil && d.kind == "rec" && d.open {
		return d
	}
	return nil
}

// freeVars are the bound variables that occur free in a term without quantifiers.
func (x *Exec) freeVars(t *Term, out *[]*Term) {
	if !t.bound {
		return
	}
	if strings.HasPrefix(t.op, "?") {
		for _, v := range *out {
			if v == t {
				return
			}
		}
		*out = append(*out, t)
	}
	for _, a := range t.args {
		x.freeVars(a, out)
	}
}

// defFacts are the facts that hold of a ground term because of its head symbol.
func (x *Exec) defFacts(t *Term, g int) []*Term {
	tt := x.tt
	var out []*Term
	op := strings.Trim(t.op, "|")
	switch {
	case strings.HasPrefix(op, "r."):
		d := x.p.spec.recs[op[2:]]
		if d == nil || d.kind != "rec" {
			break
		}
		depth := d.depth
		if depth == 0 {
			depth = unfoldDepth
		}
		if d.known {
			switch x.knownTerm(t.args[0]) {
			case 2:
				depth = 250
			case 0:
				depth = 0
			}
		}
		if d.konst {
			depth = d.depth
			if constLike(t.args[0]) {
				depth = 250
			}
		}
		if g >= depth {
			break
		}
		ri := x.recBodyOf(d)
		m := map[*Term]*Term{}
		for i, v := range ri.vars {
			m[v] = t.args[i]
		}
		def := tt.eq(t, tt.subst(ri.body, m, map[int]*Term{}))
		if t.bound {
			var vs []*Term
			x.freeVars(t, &vs)
			def = tt.forall(vs, [][]*Term{{t}}, def)
		}
		out = append(out, def)
	case strings.HasPrefix(op, "im."):
		f, ok := x.imField[t.op]
		if !ok || len(t.args) != 1 {
			break
		}
		if x.hasAllocRef(t.args[0], map[int]bool{}) {
			break
		}
		if v := x.plainFacts(f.ft, t); v != nil {
			out = append(out, v)
		}
		k := fmt.Sprintf("solve %s %d", typeKey(f.t), t.args[0].id)
		if !x.invSeen[k] && !x.tabUnit {
			x.invSeen[k] = true
			for _, w := range x.p.wits[typeKey(f.t)] {
				out = append(out, tt.implies(tt.neq(t.args[0], tt.int(0)), x.invTerm(x.emptyState(), w, f.t, t.args[0])))
			}
			for _, in := range x.p.invs[typeKey(f.t)] {
				out = append(out, tt.implies(tt.neq(t.args[0], tt.int(0)), x.invTerm(x.emptyState(), in, f.t, t.args[0])))
			}
		}
	case strings.HasPrefix(op, "at.") && strings.HasPrefix(t.args[0].op, "tab."):
		for i, e := range x.tabSeq[t.args[0]] {
			out = append(out, tt.implies(tt.eq(t.args[1], tt.int(int64(i))), tt.eq(t, e)))
		}
	case strings.HasPrefix(op, "unbox."), strings.HasPrefix(op, "box."):
	}
	return out
}

// knownTerm tells how much of a term is known: 2 a constant, 1 an interface value
// of known type or anything that is no interface value, 0 the rest.
func (x *Exec) knownTerm(t *Term) int {
	if t.sort == SIfc {
		if _, ok := intVal(x.tt.ifTag(t)); !ok {
			return 0
		}
		t = x.tt.ifRef(t)
	}
	if constLike(t) || strings.HasPrefix(t.op, "tab.") {
		return 2
	}
	return 1
}

// plainFacts are the type facts that need no state.
func (x *Exec) plainFacts(t types.Type, v *Term) *Term {
	tt := x.tt
	if _, ok := x.so.ext[typeKey(t)]; ok {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if lo, hi, ok := intRange(u); ok {
			if hi != nil {
				return tt.and(tt.le(tt.big(lo), v), tt.le(v, tt.big(hi)))
			}
			return tt.le(tt.big(lo), v)
		}
	case *types.Pointer, *types.Map:
		return tt.le(tt.int(0), v)
	case *types.Slice:
		return tt.implies(tt.sliceNil(v), tt.eq(tt.slen(tt.sliceSeq(v)), tt.int(0)))
	case *types.Interface:
		return tt.and(tt.le(tt.int(0), tt.ifTag(v)), tt.implies(tt.eq(tt.ifTag(v), tt.int(0)), tt.eq(v, tt.nilIfc())))
	}
	return nil
}

// ---- axioms ----

func (x *Exec) collectSyms(t *Term, syms map[string]bool, seen map[int]bool) {
	if seen[t.id] {
		return
	}
	seen[t.id] = true
	if len(t.args) > 0 || true {
		syms[t.op] = true
	}
	for _, a := range t.args {
		x.collectSyms(a, syms, seen)
	}
	for _, p := range t.pats {
		for _, a := range p {
			x.collectSyms(a, syms, seen)
		}
	}
}

// axiomTerm evaluates an axiom.
func (x *Exec) axiomTerm(a *Axiom) *Term {
	st := x.emptyState()
	e := &Env{x: x, pkg: a.pkg, file: a.file, st: st, old: st, vars: map[string]SV{}, noinv: true}
	return e.boolTerm(a.e)
}

// relevantAxioms selects axioms all of whose trigger symbols occur.
func (x *Exec) relevantAxioms(items []SItem, uses []string, before *Axiom) []*Term {
	syms := map[string]bool{}
	seen := map[int]bool{}
	for _, it := range items {
		if it.fact != nil {
			x.collectSyms(it.fact, syms, seen)
		} else {
			x.collectSyms(it.ob.goal, syms, seen)
			x.collectSyms(it.ob.pc, syms, seen)
		}
		for _, e := range it.ext {
			x.collectSyms(e, syms, seen)
		}
	}
	use := map[string]bool{}
	for _, u := range uses {
		use[u] = true
	}
	type cand struct {
		a *Axiom
		t *Term
	}
	var cs []cand
	for _, a := range x.p.spec.axioms {
		if a == before {
			break
		}
		if (a.lemma || a.local) && !use[a.name] {
			continue
		}
		cs = append(cs, cand{a, x.axiomTerm(a)})
	}
	var out []*Term
	taken := map[*Axiom]bool{}
	for {
		ch := false
		for _, c := range cs {
			if taken[c.a] {
				continue
			}
			ok := true
			if c.t.op == "forall" {
				ok = len(c.t.pats) == 0
				for _, p := range c.t.pats {
					all := true
					for _, q := range p {
						ps := map[string]bool{}
						x.collectSyms(q, ps, map[int]bool{})
						for s := range ps {
							if strings.HasPrefix(s, "?") {
								continue
							}
							if !syms[s] && x.isSpecSym(s) {
								all = false
							}
						}
					}
					ok = ok || all
				}
			} else {
				// ground axiom: any of its symbols
				ps := map[string]bool{}
				x.collectSyms(c.t, ps, map[int]bool{})
				ok = false
				for s := range ps {
					if x.isSpecSym(s) && syms[s] {
						ok = true
					}
				}
			}
			if ok {
				taken[c.a] = true
				ch = true
				x.collectSyms(c.t, syms, seen)
				out = append(out, c.t)
				if c.a.lemma {
					x.usedLemmas[c.a.name] = true
				} else {
					x.used["axiom "+c.a.name] = true
				}
			}
		}
		if !ch {
			return out
		}
	}
}

func (x *Exec) isSpecSym(s string) bool {
	s = strings.Trim(s, "|")
	for _, p := range []string{"r.", "x.", "im.", "box.", "unbox.", "runes", "unrunes", "card.", "errtext", "i2f", "f.", "str.less", "runeat", "runew"} {
		if strings.HasPrefix(s, p) {
			return true
		}
	}
	return false
}

// ---- printing ----

type printer struct {
	x    *Exec
	defs map[int]bool
	out  *strings.Builder
}

func atomSym(op string) string {
	if len(op) > 1 && op[0] == '-' && op[1] >= '0' && op[1] <= '9' {
		return "(- " + op[1:] + ")"
	}
	return op
}

// define emits definitions for the larger ground subterms of t.
func (p *printer) define(t *Term) {
	if p.defs[t.id] {
		return
	}
	if len(t.args) == 0 {
		return
	}
	for _, a := range t.args {
		p.define(a)
	}
	for _, q := range t.pats {
		for _, a := range q {
			p.define(a)
		}
	}
	if t.bound || t.size < 8 || t.op == "forall" || t.op == "exists" {
		return
	}
	var sb strings.Builder
	p.write(&sb, t, true)
	p.defs[t.id] = true
	fmt.Fprintf(p.out, "(define-fun t!%d () %s %s)\n", t.id, t.sort, sb.String())
}

func (p *printer) write(sb *strings.Builder, t *Term, top bool) {
	if !top && p.defs[t.id] {
		fmt.Fprintf(sb, "t!%d", t.id)
		return
	}
	if len(t.args) == 0 {
		if strings.HasPrefix(t.op, "?") {
			sb.WriteString(quoteSym(t.op))
			return
		}
		sb.WriteString(atomSym(t.op))
		return
	}
	if t.op == "forall" || t.op == "exists" {
		sb.WriteString("(" + t.op + " (")
		for i, v := range t.vars {
			if i > 0 {
				sb.WriteByte(' ')
			}
			fmt.Fprintf(sb, "(%s %s)", quoteSym(v.op), v.sort)
		}
		sb.WriteString(") ")
		if len(t.pats) > 0 {
			sb.WriteString("(! ")
		}
		p.write(sb, t.args[0], false)
		for _, q := range t.pats {
			sb.WriteString(" :pattern (")
			for i, a := range q {
				if i > 0 {
					sb.WriteByte(' ')
				}
				p.write(sb, a, false)
			}
			sb.WriteString(")")
		}
		if len(t.pats) > 0 {
			sb.WriteString(")")
		}
		sb.WriteString(")")
		return
	}
	sb.WriteByte('(')
	sb.WriteString(t.op)
	for _, a := range t.args {
		sb.WriteByte(' ')
		p.write(sb, a, false)
	}
	sb.WriteByte(')')
}

func (p *printer) str(t *Term) string {
	p.define(t)
	var sb strings.Builder
	p.write(&sb, t, false)
	return sb.String()
}

// builtin function symbols that are not declared
func (x *Exec) prelude(axioms []*Term) string {
	var sb strings.Builder
	so := x.so
	sb.WriteString("(define-sort F64 () Float64)\n")
	for _, u := range so.uninterp {
		fmt.Fprintf(&sb, "(declare-sort %s 0)\n", u)
	}
	for _, c := range so.dts {
		if len(c.fields) == 0 {
			fmt.Fprintf(&sb, "(declare-datatypes ((%s 0)) (((%s))))\n", c.sort, c.name)
			continue
		}
		fmt.Fprintf(&sb, "(declare-datatypes ((%s 0)) (((%s", c.sort, c.name)
		for _, f := range c.fields {
			fmt.Fprintf(&sb, " (%s %s)", f.name, f.sort)
		}
		sb.WriteString("))))\n")
	}
	declared := map[string]bool{}
	for _, q := range so.seqOrder {
		k, S, E := q.key, string(q.sort), string(q.elem)
		for _, d := range []string{"len." + k + " (" + S + ") Int", "at." + k + " (" + S + " Int) " + E, "emp." + k + " () " + S, "unit." + k + " (" + E + ") " + S,
			"cat." + k + " (" + S + " " + S + ") " + S, "sub." + k + " (" + S + " Int Int) " + S, "upd." + k + " (" + S + " Int " + E + ") " + S} {
			fmt.Fprintf(&sb, "(declare-fun %s)\n", d)
			declared[strings.Fields(d)[0]] = true
		}
	}
	var names []string
	for n := range x.tt.decls {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if declared[n] {
			continue
		}
		d := x.tt.decls[n]
		fmt.Fprintf(&sb, "(declare-fun %s (", n)
		for i, a := range d.args {
			if i > 0 {
				sb.WriteByte(' ')
			}
			sb.WriteString(string(a))
		}
		fmt.Fprintf(&sb, ") %s)\n", d.res)
	}
	for _, q := range so.seqOrder {
		sb.WriteString(strings.NewReplacer("$S", string(q.sort), "$E", string(q.elem), "$k", q.key).Replace(seqAxioms))
	}
	// literals
	var lits []string
	for v := range x.tt.strLit {
		lits = append(lits, v)
	}
	sort.Strings(lits)
	ik := so.seqOf(SInt).key
	for _, v := range lits {
		t := x.tt.strLit[v]
		fmt.Fprintf(&sb, "(assert (= (len.%s %s) %d))\n", ik, t.op, len(v))
		if len(v) <= 24 {
			for i := 0; i < len(v); i++ {
				fmt.Fprintf(&sb, "(assert (= (at.%s %s %d) %d))\n", ik, t.op, i, v[i])
			}
		}
	}
	if len(lits) > 0 {
		sb.WriteString("(assert (distinct emp." + ik)
		for _, v := range lits {
			sb.WriteString(" " + x.tt.strLit[v].op)
		}
		sb.WriteString("))\n")
	}
	// function identities
	var fns []string
	for _, t := range x.fnIDs {
		fns = append(fns, t.op)
	}
	sort.Strings(fns)
	if len(fns) > 1 {
		sb.WriteString("(assert (distinct " + strings.Join(fns, " ") + "))\n")
	}
	// implementations
	var impls []string
	for n := range x.implUsed {
		impls = append(impls, n)
	}
	sort.Strings(impls)
	for _, n := range impls {
		fmt.Fprintf(&sb, "(assert (not (%s 0)))\n", quoteSym(n))
		for i, t := range so.tagTypes {
			if i == 0 {
				continue
			}
			v := "false"
			if types.Implements(t, x.implUsed[n]) {
				v = "true"
			}
			fmt.Fprintf(&sb, "(assert (= (%s %d) %s))\n", quoteSym(n), i, v)
		}
	}
	p := &printer{x: x, defs: map[int]bool{}, out: &sb}
	for _, a := range axioms {
		s := p.str(a)
		fmt.Fprintf(&sb, "(assert %s)\n", s)
	}
	x.pr = p
	return sb.String()
}

const seqAxioms = `(assert (= (len.$k emp.$k) 0))
(assert (forall ((s $S)) (! (and (>= (len.$k s) 0) (=> (= (len.$k s) 0) (= s emp.$k))) :pattern ((len.$k s)))))
(assert (forall ((x $E)) (! (and (= (len.$k (unit.$k x)) 1) (= (at.$k (unit.$k x) 0) x)) :pattern ((unit.$k x)))))
(assert (forall ((s $S)) (! (=> (= (len.$k s) 1) (= s (unit.$k (at.$k s 0)))) :pattern ((len.$k s)))))
(assert (forall ((a $S) (b $S)) (! (= (len.$k (cat.$k a b)) (+ (len.$k a) (len.$k b))) :pattern ((cat.$k a b)))))
(assert (forall ((a $S)) (! (= (cat.$k a emp.$k) a) :pattern ((cat.$k a emp.$k)))))
(assert (forall ((a $S)) (! (= (cat.$k emp.$k a) a) :pattern ((cat.$k emp.$k a)))))
(assert (forall ((a $S) (b $S) (i Int)) (! (and (=> (and (<= 0 i) (< i (len.$k a))) (= (at.$k (cat.$k a b) i) (at.$k a i))) (=> (and (<= (len.$k a) i) (< i (+ (len.$k a) (len.$k b)))) (= (at.$k (cat.$k a b) i) (at.$k b (- i (len.$k a)))))) :pattern ((at.$k (cat.$k a b) i)))))
(assert (forall ((a $S) (b $S) (c $S)) (! (= (cat.$k (cat.$k a b) c) (cat.$k a (cat.$k b c))) :pattern ((cat.$k (cat.$k a b) c)))))
(assert (forall ((s $S) (l Int) (h Int)) (! (=> (and (<= 0 l) (<= l h) (<= h (len.$k s))) (and (= (len.$k (sub.$k s l h)) (- h l)) (=> (and (= l 0) (= h (len.$k s))) (= (sub.$k s l h) s)) (=> (= h (+ l 1)) (= (sub.$k s l h) (unit.$k (at.$k s l)))))) :pattern ((sub.$k s l h)))))
(assert (forall ((s $S) (l Int) (h Int) (i Int)) (! (=> (and (<= 0 l) (<= l h) (<= h (len.$k s)) (<= 0 i) (< i (- h l))) (= (at.$k (sub.$k s l h) i) (at.$k s (+ l i)))) :pattern ((at.$k (sub.$k s l h) i)))))
(assert (forall ((s $S) (l Int) (h Int) (m Int) (n Int)) (! (=> (and (<= 0 l) (<= l h) (<= h (len.$k s)) (<= 0 m) (<= m n) (<= n (- h l))) (= (sub.$k (sub.$k s l h) m n) (sub.$k s (+ l m) (+ l n)))) :pattern ((sub.$k (sub.$k s l h) m n)))))
(assert (forall ((s $S) (l Int) (m Int) (n Int) (h Int)) (! (=> (and (= m n) (<= 0 l) (<= l m) (<= m h) (<= h (len.$k s))) (= (cat.$k (sub.$k s l m) (sub.$k s n h)) (sub.$k s l h))) :pattern ((cat.$k (sub.$k s l m) (sub.$k s n h))))))
(assert (forall ((a $S) (b $S) (l Int) (h Int)) (! (=> (and (<= 0 l) (<= l h) (<= h (+ (len.$k a) (len.$k b)))) (= (sub.$k (cat.$k a b) l h) (ite (<= h (len.$k a)) (sub.$k a l h) (ite (<= (len.$k a) l) (sub.$k b (- l (len.$k a)) (- h (len.$k a))) (cat.$k (sub.$k a l (len.$k a)) (sub.$k b 0 (- h (len.$k a)))))))) :pattern ((sub.$k (cat.$k a b) l h)))))
(assert (forall ((s $S) (i Int) (v $E)) (! (= (len.$k (upd.$k s i v)) (len.$k s)) :pattern ((upd.$k s i v)))))
(assert (forall ((s $S) (i Int) (v $E) (j Int)) (! (=> (and (<= 0 j) (< j (len.$k s))) (= (at.$k (upd.$k s i v) j) (ite (= i j) v (at.$k s j)))) :pattern ((at.$k (upd.$k s i v) j)))))
`

// ---- solvers ----

type solver struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

func startZ3(bin string, timeoutMs, rlimit int, mbqi bool, seed string) (*solver, error) {
	args := []string{"-in", "-smt2"}
	c := exec.Command(bin, args...)
	in, err := c.StdinPipe()
	if err != nil {
		return nil, err
	}
	o, err := c.StdoutPipe()
	if err != nil {
		return nil, err
	}
	c.Stderr = nil
	if err := c.Start(); err != nil {
		return nil, err
	}
	s := &solver{c, in, bufio.NewReaderSize(o, 1<<16)}
	fmt.Fprintf(in, "(set-option :auto_config false)\n(set-option :smt.mbqi %v)\n(set-option :timeout %d)\n(set-option :rlimit %d)\n", mbqi, timeoutMs, rlimit)
	if seed != "" {
		fmt.Fprintf(in, "(set-option :smt.random_seed %s)\n(set-option :sat.random_seed %s)\n", seed, seed)
	}
	return s, nil
}

func (s *solver) send(t string) { io.WriteString(s.in, t) }

func (s *solver) line() string {
	l, err := s.out.ReadString('\n')
	if err != nil {
		return "eof"
	}
	return strings.TrimSpace(l)
}

func (s *solver) close() {
	s.in.Close()
	done := make(chan bool)
	go func() { s.cmd.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(2 * time.Second):
		s.cmd.Process.Kill()
	}
}

// check gives up on a solver that does not answer in time: "stuck".
func (s *solver) check(limit time.Duration) string {
	s.send("(check-sat)\n")
	done := make(chan string, 1)
	go func() {
		for {
			l := s.line()
			switch {
			case l == "sat" || l == "unsat" || l == "unknown" || l == "timeout" || l == "eof", strings.HasPrefix(l, "(error"):
				done <- l
				return
			}
		}
	}()
	select {
	case l := <-done:
		return l
	case <-time.After(limit):
		s.cmd.Process.Kill()
		return "stuck"
	}
}

// Result of one obligation.
type Result struct {
	Fn      string   `json:"fn"`
	Kind    string   `json:"kind"`
	Label   string   `json:"label"`
	Pos     string   `json:"pos"`
	Tags    []string `json:"tags"`
	Status  string   `json:"status"` // proved, failed
	Backend string   `json:"backend"`
	Ms      int64    `json:"ms"`
	Output  string   `json:"output,omitempty"`
	cand    string
}

// VCGEN_SEED perturbs the search, to find obligations that are proved by luck
var z3Seed = os.Getenv("VCGEN_SEED")

// VCGEN_TRACE reports slow queries
var trace = os.Getenv("VCGEN_TRACE") != ""

var dumpDir = os.Getenv("VCGEN_DUMP")

// session runs the items through one incremental z3.
func (x *Exec) session(items []SItem, axioms []*Term, want func(*Oblig) bool, timeoutMs, rlimit int, handle func(o *Oblig, status string, d time.Duration, script func() string)) error {
	pre := x.prelude(axioms)
	z, err := startZ3("z3", timeoutMs, rlimit, false, x.seed)
	if err != nil {
		return err
	}
	defer func() { z.close() }()
	var dump *os.File
	if dumpDir != "" {
		x.sessions++
		dump, _ = os.Create(filepath.Join(dumpDir, fmt.Sprintf("%s.%d.smt2", sym(x.owner), x.sessions)))
		if dump != nil {
			defer dump.Close()
		}
	}
	var hist strings.Builder
	send := func(s string) {
		hist.WriteString(s)
		if dump != nil {
			io.WriteString(dump, s)
		}
		z.send(s)
	}
	send(pre)
	// ask starts over with a new process when the old one is stuck
	ask := func(ms int) (string, error) {
		r := z.check(time.Duration(ms+ms/2+500) * time.Millisecond)
		if r != "stuck" {
			return r, nil
		}
		z.close()
		if z, err = startZ3("z3", timeoutMs, rlimit, false, x.seed); err != nil {
			return "", err
		}
		z.send(hist.String() + "(push)\n")
		return "unknown", nil
	}
	p := x.pr
	for _, it := range items {
		var sb strings.Builder
		p.out = &sb
		if it.fact != nil {
			s := p.str(it.fact)
			send(sb.String() + "(assert " + s + ")\n")
			continue
		}
		if !want(it.ob) {
			continue
		}
		if isTrue(it.ob.goal) || isFalse(it.ob.pc) {
			handle(it.ob, "unsat", 0, nil)
			continue
		}
		var es []string
		for _, e := range it.ext {
			es = append(es, p.str(e))
		}
		pc, g := p.str(it.ob.pc), p.str(it.ob.goal)
		send(sb.String())
		q := "(assert " + pc + ")\n(assert (not " + g + "))\n"
		for _, e := range es {
			q += "(assert " + e + ")\n"
		}
		if dump != nil {
			fmt.Fprintf(dump, "; %s %s %s\n(push)\n%s(check-sat)\n(pop)\n", it.ob.Kind, it.ob.Label, it.ob.Pos, q)
		}
		t0 := time.Now()
		rl, tl := rlimit, timeoutMs
		if it.ob.Kind == "vacuity" {
			rl, tl = rlimit/10, 1000
		}
		z.send(fmt.Sprintf("(push)\n(set-option :rlimit %d)\n(set-option :timeout %d)\n", rl, tl) + q)
		r, err := ask(tl)
		if err != nil {
			return err
		}
		if strings.HasPrefix(r, "(error") || r == "eof" {
			return fmt.Errorf("z3: %s (%s)", r, x.owner)
		}
		if cs := x.cases(it.ob.pc, 0); r != "unsat" && it.ob.Kind != "vacuity" && it.ob.cand == "" && len(cs) > 1 && len(cs) <= 24 {
			// path by path
			all := true
			for _, c := range cs {
				var cb strings.Builder
				p.out = &cb
				s := p.str(c)
				hist.WriteString(cb.String())
				z.send("(pop)\n" + cb.String() + "(push)\n" + q + "(assert " + s + ")\n")
				rc, err := ask(tl)
				if err != nil {
					return err
				}
				if strings.HasPrefix(rc, "(error") || rc == "eof" {
					return fmt.Errorf("z3: %s (%s)", rc, x.owner)
				}
				if rc != "unsat" {
					all = false
					q += "(assert " + s + ")\n"
					break
				}
			}
			if all {
				r = "unsat"
			}
		}
		z.send("(pop)\n")
		if trace && time.Since(t0) > 200*time.Millisecond {
			fmt.Fprintf(os.Stderr, "%s: %s %s %s: %s %v\n", x.owner, it.ob.Kind, it.ob.Label, it.ob.Pos, r, time.Since(t0).Round(time.Millisecond))
		}
		handle(it.ob, r, time.Since(t0), func() string { return hist.String() + q })
	}
	return nil
}

// cases splits a path condition into its disjuncts.
func (x *Exec) cases(t *Term, depth int) []*Term {
	if depth > 6 {
		return []*Term{t}
	}
	switch t.op {
	case "or":
		var out []*Term
		for _, a := range t.args {
			out = append(out, x.cases(a, depth+1)...)
		}
		return out
	case "and":
		for i, a := range t.args {
			cs := x.cases(a, depth+1)
			if len(cs) < 2 {
				continue
			}
			rest := append(append([]*Term{}, t.args[:i]...), t.args[i+1:]...)
			var out []*Term
			for _, c := range cs {
				out = append(out, x.tt.and(append([]*Term{c}, rest...)...))
			}
			return out
		}
	}
	return []*Term{t}
}

var retrySem = make(chan bool, 8)

// retry gives an obligation to the other solvers, each on a fresh process.
func retry(script string, timeoutS int) (backend string, ok bool, outputs string) {
	type r struct {
		name, out string
	}
	cmds := []struct {
		name string
		args []string
		pre  string
	}{
		{"z3-5.3.2", []string{"z3-new", "-in", "-smt2", fmt.Sprintf("-T:%d", timeoutS)}, "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n"},
		{"cvc5-1.1.2", []string{"cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", timeoutS*1000)}, "(set-logic ALL)\n"},
		{"z3-4.8.12", []string{"z3", "-in", "-smt2", fmt.Sprintf("-T:%d", timeoutS)}, "(set-option :smt.mbqi true)\n"},
	}
	ch := make(chan r, len(cmds))
	var procs []*exec.Cmd
	var mu sync.Mutex
	for _, c := range cmds {
		c := c
		go func() {
			retrySem <- true
			defer func() { <-retrySem }()
			cmd := exec.Command(c.args[0], c.args[1:]...)
			cmd.Stdin = strings.NewReader(c.pre + script + "(check-sat)\n")
			mu.Lock()
			procs = append(procs, cmd)
			mu.Unlock()
			b, _ := cmd.Output()
			ch <- r{c.name, strings.TrimSpace(string(b))}
		}()
	}
	var outs []string
	for range cmds {
		v := <-ch
		l := v.out
		if i := strings.LastIndex(l, "\n"); i >= 0 {
			l = l[i+1:]
		}
		outs = append(outs, v.name+": "+l)
		if l == "unsat" {
			mu.Lock()
			for _, p := range procs {
				if p.Process != nil {
					p.Process.Kill()
				}
			}
			mu.Unlock()
			return v.name, true, ""
		}
	}
	sort.Strings(outs)
	return "", false, strings.Join(outs, "; ")
}
