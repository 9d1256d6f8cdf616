package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A table is the graph of objects a package variable is initialised with by a
// composite literal and that is never assigned again. What its objects contain
// is read off the package initialiser.
type Table struct {
	name   string
	glob   *ssa.Global
	objs   []*tabObj
	by     map[*ssa.Alloc]*tabObj
	init   map[ssa.Value][]*ssa.Store // stores by root
	fns    []*ssa.Function
	fnNo   map[*ssa.Function]int
	slices map[*ssa.Alloc]int
	uses   []string
}

type tabObj struct {
	id     int
	name   string
	typ    types.Type
	alloc  *ssa.Alloc
	fields map[int]ssa.Value
	nested map[int]bool // fields assigned in parts
}

const (
	tabBase = 1000
	fnBase  = 1000000
)

func (p *Prog) table(pkg, name string) (*Table, error) {
	sp := p.pkgs[pkg]
	if sp == nil {
		return nil, fmt.Errorf("table %s: package %s not loaded", name, pkg)
	}
	g, ok := sp.Members[name].(*ssa.Global)
	if !ok {
		return nil, fmt.Errorf("no package variable %s in %s", name, pkg)
	}
	if p.mutGlb[g] {
		return nil, fmt.Errorf("table %s is assigned outside of its declaration", name)
	}
	t := &Table{name: name, glob: g, by: map[*ssa.Alloc]*tabObj{}, init: map[ssa.Value][]*ssa.Store{}, fnNo: map[*ssa.Function]int{}, slices: map[*ssa.Alloc]int{}}
	var root *ssa.Alloc
	for _, b := range sp.Func("init").Blocks {
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			r := rootOf(s.Addr)
			t.init[r] = append(t.init[r], s)
			if r == ssa.Value(g) {
				if root, ok = s.Val.(*ssa.Alloc); !ok || root == nil {
					return nil, fmt.Errorf("table %s is not a composite literal", name)
				}
			}
		}
	}
	if root == nil {
		return nil, fmt.Errorf("table %s is not initialised", name)
	}
	t.visit(root)
	return t, nil
}

func (t *Table) visit(v ssa.Value) {
	switch a := v.(type) {
	case *ssa.Function:
		if _, ok := t.fnNo[a]; !ok {
			t.fnNo[a] = len(t.fns)
			t.fns = append(t.fns, a)
		}
	case *ssa.MakeInterface:
		t.visit(a.X)
	case *ssa.ChangeType:
		t.visit(a.X)
	case *ssa.Slice:
		t.visit(a.X)
	case *ssa.Alloc:
		el := types.Unalias(a.Type().(*types.Pointer).Elem())
		if t.by[a] != nil {
			return
		}
		if _, ok := el.Underlying().(*types.Array); ok {
			if _, ok := t.slices[a]; ok {
				return
			}
			t.slices[a] = len(t.slices)
			for _, s := range t.init[a] {
				t.visit(s.Val)
			}
			return
		}
		if structUnder(el) == nil {
			return
		}
		o := &tabObj{id: len(t.objs), typ: el, alloc: a, fields: map[int]ssa.Value{}, nested: map[int]bool{}}
		t.by[a] = o
		t.objs = append(t.objs, o)
		o.name = fmt.Sprintf("%s %d", trimPkg(typeKey(el)), o.id)
		for _, s := range t.init[a] {
			fa, ok := s.Addr.(*ssa.FieldAddr)
			if !ok || fa.X != ssa.Value(a) {
				for fa != nil && fa.X != ssa.Value(a) {
					fa, _ = fa.X.(*ssa.FieldAddr)
				}
				if fa != nil {
					o.nested[fa.Field] = true
				} else {
					// an element of an array in a field
					for i := 0; i < structUnder(el).NumFields(); i++ {
						if _, ok := structUnder(el).Field(i).Type().Underlying().(*types.Array); ok {
							o.nested[i] = true
						}
					}
				}
				continue
			}
			o.fields[fa.Field] = s.Val
			if structUnder(el).Field(fa.Field).Name() == "name" {
				if c, ok := s.Val.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
					o.name = fmt.Sprintf("%s %s", trimPkg(typeKey(el)), constant.StringVal(c.Value))
				}
			}
			t.visit(s.Val)
		}
	}
}

func (p *Prog) tableNamed(n string) *Table {
	for _, t := range p.tables {
		if t.name == n {
			return t
		}
	}
	return nil
}

func (p *Prog) invTags(t types.Type) []string {
	m := map[string]bool{}
	for _, in := range p.invs[typeKey(t)] {
		for _, g := range in.cl.tags {
			m[g] = true
		}
	}
	return sortedKeys(m)
}

// tabVal is the value of an expression of the initialiser; ok is false for
// what tables leave open.
func (x *Exec) tabVal(t *Table, v ssa.Value) (*Term, bool) {
	tt := x.tt
	switch a := v.(type) {
	case *ssa.Const:
		c, ok := x.constVal(a).(*Term)
		return c, ok
	case *ssa.Function:
		return x.closureTerm(nil, &Closure{fn: a}), true
	case *ssa.ChangeType:
		return x.tabVal(t, a.X)
	case *ssa.Alloc:
		if o := t.by[a]; o != nil {
			return tt.int(int64(tabBase + o.id)), true
		}
	case *ssa.MakeInterface:
		r, ok := x.tabVal(t, a.X)
		if !ok {
			return nil, false
		}
		return x.makeInterface(nil, a.X.Type(), r), true
	case *ssa.Slice:
		al, ok := a.X.(*ssa.Alloc)
		if !ok || a.Low != nil || a.High != nil {
			return nil, false
		}
		arr, ok := al.Type().(*types.Pointer).Elem().Underlying().(*types.Array)
		if !ok {
			return nil, false
		}
		seq := tt.app(fmt.Sprintf("tab.%s.%d", t.name, t.slices[al]), x.so.seqOf(x.so.of(arr.Elem())).sort)
		k := "tabseq " + seq.op
		if !x.gdef[k] {
			x.gdef[k] = true
			x.known(tt.slen(seq), tt.int(arr.Len()))
			els := make([]*Term, arr.Len())
			x.tabSeq[seq] = els
			done := map[int64]bool{}
			for _, s := range t.init[al] {
				ia, ok := s.Addr.(*ssa.IndexAddr)
				if !ok || ia.X != ssa.Value(al) {
					return nil, false
				}
				c, ok := ia.Index.(*ssa.Const)
				if !ok {
					return nil, false
				}
				e, ok := x.tabVal(t, s.Val)
				if !ok {
					return nil, false
				}
				done[c.Int64()] = true
				els[c.Int64()] = e
				x.known(tt.at(seq, tt.int(c.Int64())), e)
				if ref, ok := intVal(e); ok && ref.IsInt64() && ref.Int64() >= tabBase && ref.Int64() < fnBase {
					x.known(tt.app("tabidx", SInt, e), tt.int(c.Int64()))
				}
			}
			for i := int64(0); i < arr.Len(); i++ {
				if !done[i] {
					els[i] = tt.zero(arr.Elem())
					x.known(tt.at(seq, tt.int(i)), tt.zero(arr.Elem()))
				}
			}
		}
		return tt.mkSlice(tt.fals(), seq), true
	}
	return nil, false
}

// useTables makes the contents of the tables a unit uses known.
func (x *Exec) useTables(uses []string) {
	for _, u := range uses {
		if t := x.p.tableNamed(u); t != nil {
			x.tableFacts(t)
		}
	}
}

func (x *Exec) tableFacts(t *Table) {
	tt := x.tt
	x.gfact(tt.lt(tt.int(int64(tabBase+len(t.objs))), tt.app("A0", SInt)))
	g := x.asTerm(nil, x.globalVal(x.emptyState(), t.glob))
	x.known(g, tt.int(tabBase))
	x.globals[t.glob] = tt.int(tabBase)
	for i, f := range t.fns {
		c := &Closure{fn: f}
		id := tt.int(int64(fnBase + i))
		x.known(x.closureTerm(nil, c), id)
		c.id = id
		x.fnIDs[f] = id
		x.clos[id] = c
	}
	for _, o := range t.objs {
		if !x.isImmut(o.typ) {
			panic(unsupported("table object of a type that is not immutable: %s", o.typ))
		}
		ref := tt.int(int64(tabBase + o.id))
		s := structUnder(o.typ)
		for i := 0; i < s.NumFields(); i++ {
			if o.nested[i] {
				continue
			}
			ft := s.Field(i).Type()
			if _, ok := ft.Underlying().(*types.Array); ok {
				continue
			}
			v, ok := tt.zero(ft), true
			if f := o.fields[i]; f != nil {
				v, ok = x.tabVal(t, f)
			}
			if ok {
				x.known(x.imApp(o.typ, i, ref), v)
			}
		}
		for _, w := range x.p.wits[typeKey(o.typ)] {
			w := x.invTerm(x.emptyState(), w, o.typ, ref)
			switch {
			case isFalse(w):
				panic(unsupported("witness of %s", o.name))
			case w.op == "=" && w.args[0] == ref:
				x.known(w.args[1], ref)
			case w.op == "=" && w.args[1] == ref:
				x.known(w.args[0], ref)
			case !isTrue(w):
				x.gfact(w)
			}
		}
	}
}

// known makes a term of the tables equal to what the tables give for it.
func (x *Exec) known(t, v *Term) {
	if t != v {
		x.tt.rw[t] = v
	}
}

// expand replaces a universally quantified index of a slice of a table by the
// indices there are and one that is out of range.
func (x *Exec) expand(t *Term) *Term {
	tt := x.tt
	switch t.op {
	case "and":
		var as []*Term
		for _, a := range t.args {
			as = append(as, x.expand(a))
		}
		return tt.and(as...)
	case "forall":
		for k, v := range t.vars {
			n, ok := x.tabLen(t.args[0], v, map[int]bool{})
			if !ok {
				continue
			}
			var rest []*Term
			rest = append(append(rest, t.vars[:k]...), t.vars[k+1:]...)
			inst := func(i *Term) *Term {
				b := tt.subst(t.args[0], map[*Term]*Term{v: i}, map[int]*Term{})
				if len(rest) > 0 {
					b = x.expand(tt.forall(rest, nil, b))
				}
				return b
			}
			var as []*Term
			for i := 0; i < n; i++ {
				as = append(as, inst(tt.int(int64(i))))
			}
			o := tt.freshVar("out", SInt)
			as = append(as, tt.implies(tt.or(tt.lt(o, tt.int(0)), tt.le(tt.int(int64(n)), o)), inst(o)))
			return tt.and(as...)
		}
	}
	return t
}

// tabLen finds a slice of a table that is indexed by v.
func (x *Exec) tabLen(t, v *Term, seen map[int]bool) (int, bool) {
	if seen[t.id] || !t.bound {
		return 0, false
	}
	seen[t.id] = true
	if strings.HasPrefix(t.op, "at.") && t.args[1] == v {
		if els, ok := x.tabSeq[t.args[0]]; ok {
			return len(els), true
		}
	}
	for _, a := range t.args {
		if n, ok := x.tabLen(a, v, seen); ok {
			return n, true
		}
	}
	return 0, false
}

// genTable obliges an object of a table to satisfy the invariants of its type.
func (x *Exec) genTable(u *Unit) {
	x.tabUnit = true
	st := x.emptyState()
	x.entry = st
	x.tableFacts(u.tab)
	ref := x.tt.int(int64(tabBase + u.obj.id))
	for _, in := range x.p.invs[typeKey(u.obj.typ)] {
		x.oblige(st, "type-invariant", shortPath(typeKey(u.obj.typ), x.p.repo)+invLabel(in.cl), in.cl.tags, x.expand(x.invTerm(st, in, u.obj.typ, ref)), token.NoPos)
	}
	x.items = append(x.items, Item{ob: &Oblig{Fn: x.owner, Kind: "vacuity", pc: st.pc, goal: x.tt.fals()}})
}
