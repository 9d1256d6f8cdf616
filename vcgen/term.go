package main

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Sort is the name of an SMT sort, already in SMT-LIB syntax.
type Sort string

const (
	SBool Sort = "Bool"
	SInt  Sort = "Int"
	SF64  Sort = "F64"
	SIfc  Sort = "Ifc"
)

// Term is a hash-consed SMT term.
type Term struct {
	id    int
	op    string
	args  []*Term
	sort  Sort
	vars  []*Term // quantifiers: bound variables
	pats  [][]*Term
	bound bool // contains a free bound variable
	size  int
}

// TermTable interns terms. One table per verified function.
type TermTable struct {
	tab     map[string]*Term
	next    int
	decls   map[string]Decl // uninterpreted symbols by name
	fresh   map[string]int
	sorts   *Sorts
	strLit  map[string]*Term
	litBack map[*Term]string
	rw      map[*Term]*Term // terms known to equal a simpler one
}

type Decl struct {
	args []Sort
	res  Sort
}

func newTable(s *Sorts) *TermTable {
	return &TermTable{tab: map[string]*Term{}, decls: map[string]Decl{}, fresh: map[string]int{}, sorts: s, strLit: map[string]*Term{}, rw: map[*Term]*Term{}}
}

func (tt *TermTable) mk(op string, so Sort, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(string(so))
	for _, a := range args {
		if a == nil {
			panic("nil argument to " + op)
		}
		sb.WriteByte(' ')
		sb.WriteString(strconv.Itoa(a.id))
	}
	k := sb.String()
	if t, ok := tt.tab[k]; ok {
		if r := tt.rw[t]; r != nil {
			return r
		}
		return t
	}
	tt.next++
	t := &Term{id: tt.next, op: op, args: args, sort: so, size: 1}
	for _, a := range args {
		t.size += a.size
		if a.bound {
			t.bound = true
		}
	}
	tt.tab[k] = t
	return t
}

// quoteSym makes a legal SMT symbol.
func quoteSym(s string) string {
	for _, r := range s {
		if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || strings.ContainsRune("_.!$%&*+-/<=>?@^~", r)) {
			return "|" + strings.NewReplacer("|", "_", "\\", "_").Replace(s) + "|"
		}
	}
	return s
}

// app applies an uninterpreted symbol, declaring it on first use.
func (tt *TermTable) app(name string, res Sort, args ...*Term) *Term {
	name = quoteSym(name)
	d, ok := tt.decls[name]
	if !ok {
		as := make([]Sort, len(args))
		for i, a := range args {
			as[i] = a.sort
		}
		tt.decls[name] = Decl{as, res}
	} else {
		if len(d.args) != len(args) || d.res != res {
			panic(fmt.Sprintf("symbol %s used with %d args/%s, declared %v/%s", name, len(args), res, d.args, d.res))
		}
		for i := range args {
			if args[i].sort != d.args[i] {
				panic(fmt.Sprintf("symbol %s argument %d: sort %s, want %s", name, i, args[i].sort, d.args[i]))
			}
		}
	}
	return tt.mk(name, res, args...)
}

func (tt *TermTable) freshVar(base string, so Sort) *Term {
	base = strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' || r == '$' {
			return r
		}
		return '_'
	}, base)
	n := tt.fresh[base]
	tt.fresh[base] = n + 1
	return tt.app(fmt.Sprintf("%s!%d", base, n), so)
}

func (tt *TermTable) boundVar(name string, so Sort) *Term {
	n := tt.fresh["?"+name]
	tt.fresh["?"+name] = n + 1
	t := tt.mk(fmt.Sprintf("?%s.%d", name, n), so)
	t.bound = true
	return t
}

func (tt *TermTable) tru() *Term  { return tt.mk("true", SBool) }
func (tt *TermTable) fals() *Term { return tt.mk("false", SBool) }
func (tt *TermTable) bool(b bool) *Term {
	if b {
		return tt.tru()
	}
	return tt.fals()
}
func (tt *TermTable) int(n int64) *Term { return tt.big(big.NewInt(n)) }
func (tt *TermTable) big(n *big.Int) *Term {
	return tt.mk(n.String(), SInt)
}

func isTrue(t *Term) bool  { return t.op == "true" }
func isFalse(t *Term) bool { return t.op == "false" }

func intVal(t *Term) (*big.Int, bool) {
	if t.sort != SInt || len(t.args) != 0 {
		return nil, false
	}
	c := t.op[0]
	if c >= '0' && c <= '9' || c == '-' && len(t.op) > 1 {
		n, ok := new(big.Int).SetString(t.op, 10)
		return n, ok
	}
	return nil, false
}

func (tt *TermTable) not(a *Term) *Term {
	switch {
	case isTrue(a):
		return tt.fals()
	case isFalse(a):
		return tt.tru()
	case a.op == "not":
		return a.args[0]
	}
	return tt.mk("not", SBool, a)
}

func (tt *TermTable) nary(op string, unit bool, in []*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(ts []*Term) bool
	add = func(ts []*Term) bool {
		for _, t := range ts {
			if t.op == op {
				if !add(t.args) {
					return false
				}
				continue
			}
			if unit && isTrue(t) || !unit && isFalse(t) {
				continue
			}
			if unit && isFalse(t) || !unit && isTrue(t) {
				return false
			}
			if seen[t.id] {
				continue
			}
			if t.op == "not" && seen[t.args[0].id] {
				return false
			}
			if n, ok := tt.tab["not|Bool "+strconv.Itoa(t.id)]; ok && seen[n.id] {
				return false
			}
			seen[t.id] = true
			out = append(out, t)
		}
		return true
	}
	if !add(in) {
		return tt.bool(!unit)
	}
	switch len(out) {
	case 0:
		return tt.bool(unit)
	case 1:
		return out[0]
	}
	return tt.mk(op, SBool, out...)
}

func (tt *TermTable) and(ts ...*Term) *Term { return tt.nary("and", true, ts) }
func (tt *TermTable) or(ts ...*Term) *Term {
	// (a && b) || (a && !b) == a, the shape every join of an if makes
	if len(ts) == 2 {
		if r := tt.resolveOr(ts[0], ts[1]); r != nil {
			return r
		}
	}
	return tt.nary("or", false, ts)
}

func conj(t *Term) []*Term {
	if t.op == "and" {
		return t.args
	}
	return []*Term{t}
}

func (tt *TermTable) resolveOr(a, b *Term) *Term {
	ca, cb := conj(a), conj(b)
	in := map[int]bool{}
	for _, x := range ca {
		in[x.id] = true
	}
	var onlyB []*Term
	shared := map[int]bool{}
	for _, x := range cb {
		if in[x.id] {
			shared[x.id] = true
		} else {
			onlyB = append(onlyB, x)
		}
	}
	var onlyA, sh []*Term
	for _, x := range ca {
		if shared[x.id] {
			sh = append(sh, x)
		} else {
			onlyA = append(onlyA, x)
		}
	}
	if len(onlyA) == 0 {
		return a
	}
	if len(onlyB) == 0 {
		return b
	}
	if len(onlyA) == 1 && len(onlyB) == 1 && tt.not(onlyA[0]) == onlyB[0] {
		return tt.and(sh...)
	}
	return nil
}

func (tt *TermTable) implies(a, b *Term) *Term {
	if isTrue(a) {
		return b
	}
	if isFalse(a) || isTrue(b) || a == b {
		return tt.tru()
	}
	if isFalse(b) {
		return tt.not(a)
	}
	return tt.mk("=>", SBool, a, b)
}

func (tt *TermTable) ite(c, a, b *Term) *Term {
	if a.sort != b.sort {
		panic(fmt.Sprintf("ite of %s and %s", a.sort, b.sort))
	}
	if isTrue(c) || a == b {
		return a
	}
	if isFalse(c) {
		return b
	}
	if c.op == "not" {
		return tt.ite(c.args[0], b, a)
	}
	if a.sort == SBool {
		switch {
		case isTrue(a) && isFalse(b):
			return c
		case isFalse(a) && isTrue(b):
			return tt.not(c)
		case isTrue(a):
			return tt.or(c, b)
		case isFalse(a):
			return tt.and(tt.not(c), b)
		case isTrue(b):
			return tt.or(tt.not(c), a)
		case isFalse(b):
			return tt.and(c, a)
		}
	}
	if a.op == "ite" && a.args[0] == c {
		a = a.args[1]
	}
	if b.op == "ite" && b.args[0] == c {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	return tt.mk("ite", a.sort, c, a, b)
}

// constLike reports terms that are pairwise distinct values when not identical.
func constLike(t *Term) bool {
	if _, ok := intVal(t); ok {
		return true
	}
	return isTrue(t) || isFalse(t) || strings.HasPrefix(t.op, "str!") || strings.HasPrefix(t.op, "|str!")
}

func (tt *TermTable) eq(a, b *Term) *Term {
	if a.sort != b.sort {
		panic(fmt.Sprintf("= of %s (%s) and %s (%s)", a.op, a.sort, b.op, b.sort))
	}
	if a == b {
		return tt.tru()
	}
	if constLike(a) && constLike(b) {
		return tt.fals()
	}
	if a.sort == SBool {
		switch {
		case isTrue(a):
			return b
		case isTrue(b):
			return a
		case isFalse(a):
			return tt.not(b)
		case isFalse(b):
			return tt.not(a)
		}
	}
	if a.sort == SF64 {
		// SMT equality on floats is identity of values
		if a.id > b.id {
			a, b = b, a
		}
		return tt.mk("=", SBool, a, b)
	}
	if ctor := tt.sorts.ctors[a.op]; ctor != nil && a.op == b.op {
		var cs []*Term
		for i := range a.args {
			cs = append(cs, tt.eq(a.args[i], b.args[i]))
		}
		return tt.and(cs...)
	}
	if b.op == "ite" && constLike(a) {
		a, b = b, a
	}
	if a.op == "ite" && constLike(b) && (constLike(a.args[1]) || constLike(a.args[2])) {
		return tt.ite(a.args[0], tt.eq(a.args[1], b), tt.eq(a.args[2], b))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tt.mk("=", SBool, a, b)
}

func (tt *TermTable) neq(a, b *Term) *Term { return tt.not(tt.eq(a, b)) }

// linear sums are kept as (+ t1 t2 ... const)
func (tt *TermTable) add(a, b *Term) *Term {
	k := new(big.Int)
	var rest []*Term
	var flat func(t *Term)
	flat = func(t *Term) {
		if n, ok := intVal(t); ok {
			k.Add(k, n)
			return
		}
		if t.op == "+" {
			for _, x := range t.args {
				flat(x)
			}
			return
		}
		rest = append(rest, t)
	}
	flat(a)
	flat(b)
	// cancel x and (* -1 x)
	for i := 0; i < len(rest); i++ {
		for j := 0; j < len(rest); j++ {
			if i != j && i < len(rest) && j < len(rest) && rest[i].op == "*" && rest[i].args[0].op == "-1" && rest[i].args[1] == rest[j] {
				hi, lo := i, j
				if hi < lo {
					hi, lo = lo, hi
				}
				rest = append(rest[:hi:hi], rest[hi+1:]...)
				rest = append(rest[:lo:lo], rest[lo+1:]...)
				i = -1
				break
			}
		}
	}
	if len(rest) == 0 {
		return tt.big(k)
	}
	sort.SliceStable(rest, func(i, j int) bool { return rest[i].id < rest[j].id })
	if k.Sign() != 0 {
		rest = append(rest, tt.big(k))
	}
	if len(rest) == 1 {
		return rest[0]
	}
	return tt.mk("+", SInt, rest...)
}

func (tt *TermTable) mul(a, b *Term) *Term {
	x, ok1 := intVal(a)
	y, ok2 := intVal(b)
	if ok1 && ok2 {
		return tt.big(new(big.Int).Mul(x, y))
	}
	if ok2 {
		a, b = b, a
		x, ok1 = y, true
	}
	if ok1 {
		if x.Sign() == 0 {
			return tt.int(0)
		}
		if x.Cmp(big.NewInt(1)) == 0 {
			return b
		}
		if b.op == "+" {
			r := tt.int(0)
			for _, t := range b.args {
				r = tt.add(r, tt.mul(a, t))
			}
			return r
		}
		if b.op == "*" {
			if y, ok := intVal(b.args[0]); ok {
				return tt.mul(tt.big(new(big.Int).Mul(x, y)), b.args[1])
			}
		}
	}
	return tt.mk("*", SInt, a, b)
}

func (tt *TermTable) sub(a, b *Term) *Term { return tt.add(a, tt.mul(tt.int(-1), b)) }

func (tt *TermTable) le(a, b *Term) *Term {
	if a == b {
		return tt.tru()
	}
	d := tt.sub(b, a)
	if n, ok := intVal(d); ok {
		return tt.bool(n.Sign() >= 0)
	}
	return tt.mk("<=", SBool, a, b)
}
func (tt *TermTable) lt(a, b *Term) *Term {
	if a == b {
		return tt.fals()
	}
	d := tt.sub(b, a)
	if n, ok := intVal(d); ok {
		return tt.bool(n.Sign() > 0)
	}
	return tt.not(tt.mk("<=", SBool, b, a))
}

// select/store on arrays
func arrSort(k, v Sort) Sort { return Sort(fmt.Sprintf("(Array %s %s)", k, v)) }

func (tt *TermTable) sel(a, i *Term) *Term {
	es := tt.sorts.arrElem(a.sort)
	for a.op == "store" {
		if a.args[1] == i {
			return a.args[2]
		}
		if tt.distinct(a.args[1], i) {
			a = a.args[0]
			continue
		}
		break
	}
	if strings.HasPrefix(a.op, "(as const") {
		return a.args[0]
	}
	if a.op == "ite" && a.size < 400 {
		return tt.ite(a.args[0], tt.sel(a.args[1], i), tt.sel(a.args[2], i))
	}
	return tt.mk("select", es, a, i)
}

func (tt *TermTable) distinct(a, b *Term) bool {
	return a != b && isFalse(tt.eq(a, b)) || func() bool {
		if a.sort != SInt {
			return false
		}
		n, ok := intVal(tt.sub(a, b))
		return ok && n.Sign() != 0
	}()
}

func (tt *TermTable) store(a, i, v *Term) *Term {
	if a.op == "store" && a.args[1] == i {
		a = a.args[0]
	}
	if v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	return tt.mk("store", a.sort, a, i, v)
}

func (tt *TermTable) constArr(so Sort, v *Term) *Term {
	return tt.mk(fmt.Sprintf("(as const %s)", so), so, v)
}

func (tt *TermTable) forall(vars []*Term, pats [][]*Term, body *Term) *Term {
	if isTrue(body) {
		return body
	}
	return tt.quant("forall", vars, pats, body)
}

func (tt *TermTable) exists(vars []*Term, pats [][]*Term, body *Term) *Term {
	if isFalse(body) {
		return body
	}
	return tt.quant("exists", vars, pats, body)
}

func (tt *TermTable) quant(op string, vars []*Term, pats [][]*Term, body *Term) *Term {
	k := op
	for _, v := range vars {
		k += " " + v.op
	}
	k += fmt.Sprintf(" . %d", body.id)
	for _, p := range pats {
		k += " :"
		for _, x := range p {
			k += " " + strconv.Itoa(x.id)
		}
	}
	if t, ok := tt.tab[k]; ok {
		return t
	}
	tt.next++
	t := &Term{id: tt.next, op: op, args: []*Term{body}, sort: SBool, vars: vars, pats: pats, size: body.size + 1}
	free := map[*Term]bool{}
	freeVars(body, free, map[int]bool{})
	for _, v := range vars {
		delete(free, v)
	}
	t.bound = len(free) > 0
	tt.tab[k] = t
	return t
}

func freeVars(t *Term, out map[*Term]bool, seen map[int]bool) {
	if !t.bound || seen[t.id] {
		return
	}
	seen[t.id] = true
	if strings.HasPrefix(t.op, "?") && len(t.args) == 0 {
		out[t] = true
		return
	}
	if t.op == "forall" || t.op == "exists" {
		in := map[*Term]bool{}
		freeVars(t.args[0], in, map[int]bool{})
		for _, v := range t.vars {
			delete(in, v)
		}
		for v := range in {
			out[v] = true
		}
		return
	}
	for _, a := range t.args {
		freeVars(a, out, seen)
	}
}

// rebuild re-applies the simplifying constructor for a term with new arguments.
func (tt *TermTable) rebuild(t *Term, args []*Term) *Term {
	switch t.op {
	case "not":
		return tt.not(args[0])
	case "and":
		return tt.and(args...)
	case "or":
		return tt.or(args...)
	case "=>":
		return tt.implies(args[0], args[1])
	case "ite":
		return tt.ite(args[0], args[1], args[2])
	case "=":
		return tt.eq(args[0], args[1])
	case "<=":
		return tt.le(args[0], args[1])
	case "+":
		r := args[0]
		for _, a := range args[1:] {
			r = tt.add(r, a)
		}
		return r
	case "*":
		return tt.mul(args[0], args[1])
	case "select":
		return tt.sel(args[0], args[1])
	case "store":
		return tt.store(args[0], args[1], args[2])
	case "forall":
		panic("rebuild of quantifier")
	}
	if tt.sorts.accs[t.op] != nil {
		return tt.acc(t.op, args[0])
	}
	if f := tt.sorts.seqOp(t.op); f != "" {
		return tt.seqRebuild(f, t, args)
	}
	return tt.mk(t.op, t.sort, args...)
}

// subst replaces terms (usually bound variables).
func (tt *TermTable) subst(t *Term, m map[*Term]*Term, memo map[int]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t.id]; ok {
		return r
	}
	var r *Term
	if t.op == "forall" || t.op == "exists" {
		body := tt.subst(t.args[0], m, memo)
		var pats [][]*Term
		for _, p := range t.pats {
			var q []*Term
			for _, x := range p {
				q = append(q, tt.subst(x, m, memo))
			}
			pats = append(pats, q)
		}
		r = tt.quant(t.op, t.vars, pats, body)
	} else {
		args := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			args[i] = tt.subst(a, m, memo)
			ch = ch || args[i] != a
		}
		r = t
		if ch {
			r = tt.rebuild(t, args)
		}
	}
	memo[t.id] = r
	return r
}

// datatype accessor with simplification
func (tt *TermTable) acc(name string, t *Term) *Term {
	a := tt.sorts.accs[name]
	if a == nil {
		panic("unknown accessor " + name)
	}
	if t.op == a.ctor.name {
		return t.args[a.idx]
	}
	if t.op == "ite" {
		x, y := t.args[1], t.args[2]
		if x.op == a.ctor.name || y.op == a.ctor.name || t.size < 60 {
			return tt.ite(t.args[0], tt.acc(name, x), tt.acc(name, y))
		}
	}
	if t.sort != a.ctor.sort {
		panic(fmt.Sprintf("accessor %s applied to %s of sort %s", name, t.op, t.sort))
	}
	return tt.mk(name, a.sort, t)
}

func (tt *TermTable) ctor(c *Ctor, args ...*Term) *Term {
	if len(args) != len(c.fields) {
		panic("bad constructor arity " + c.name)
	}
	for i := range args {
		if args[i].sort != c.fields[i].sort {
			panic(fmt.Sprintf("constructor %s field %s: sort %s, want %s", c.name, c.fields[i].name, args[i].sort, c.fields[i].sort))
		}
	}
	// eta
	if len(args) > 0 && args[0].op == c.fields[0].name {
		base := args[0].args[0]
		ok := true
		for i := range args {
			if args[i].op != c.fields[i].name || args[i].args[0] != base {
				ok = false
				break
			}
		}
		if ok {
			return base
		}
	}
	return tt.mk(c.name, c.sort, args...)
}

// short rendering for messages
func (t *Term) String() string {
	var sb strings.Builder
	printShort(&sb, t, 12)
	return sb.String()
}

func printShort(sb *strings.Builder, t *Term, depth int) {
	if len(t.args) == 0 {
		sb.WriteString(t.op)
		return
	}
	if depth == 0 {
		sb.WriteString("…")
		return
	}
	sb.WriteByte('(')
	sb.WriteString(t.op)
	if t.op == "forall" || t.op == "exists" {
		for _, v := range t.vars {
			sb.WriteString(" " + v.op)
		}
		sb.WriteString(" ::")
	}
	for _, a := range t.args {
		sb.WriteByte(' ')
		printShort(sb, a, depth-1)
	}
	sb.WriteByte(')')
}
