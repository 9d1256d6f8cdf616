package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"hash/fnv"
	"math"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is a symbolic value: *Term, *Addr, *Closure, Tuple, *SliceCell, *Iter or *ssa.Builtin.
type Val interface{}

type Tuple []Val

// Cell is a local variable.
type Cell struct {
	name  string
	typ   types.Type // type of the contents
	alloc *ssa.Alloc
	ref   *Term // address, used if an immutable object is published
	immut bool
	sort  Sort // for ghost cells without a Go type
}

// SliceCell is a slice made in this function whose elements may still be assigned.
type SliceCell struct{ cell *Cell }

type PathElem struct {
	typ   types.Type // struct or array type this element selects from
	field int
	idx   *Term // array index if not nil
}

// Addr is an address.
type Addr struct {
	cell  *Cell
	ref   *Term      // heap object
	typ   types.Type // type of the root object
	glob  *ssa.Global
	slice Val // element of a slice
	idx   *Term
	owner *Addr // the field that owns the slice, if one does
	path  []PathElem
}

type Closure struct {
	fn       *ssa.Function
	bindings []Val
	id       *Term
}

type Iter struct {
	m     *Term // map ref or string
	isMap bool
	mt    *types.Map
	dom0  *Term
	vis   *Cell
}

type rk struct {
	f *Frame
	v ssa.Value
}

type State struct {
	pc    *Term
	cells map[*Cell]Val
	pub   map[*Cell]*Term
	heap  map[string]*Term
	regs  map[rk]Val
	alloc *Term
}

func (s *State) clone() *State {
	n := &State{pc: s.pc, cells: make(map[*Cell]Val, len(s.cells)), pub: make(map[*Cell]*Term, len(s.pub)), heap: make(map[string]*Term, len(s.heap)), regs: make(map[rk]Val, len(s.regs)), alloc: s.alloc}
	for k, v := range s.cells {
		n.cells[k] = v
	}
	for k, v := range s.pub {
		n.pub[k] = v
	}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.regs {
		n.regs[k] = v
	}
	return n
}

type Frame struct {
	fn      *ssa.Function
	path    string // call string
	parent  *Frame
	binds   []Val
	params  []Val
	returns []*Edge
	depth   int
	loops   *LoopInfo
	defers  []*deferred
}

// deferred is a call a defer statement registered, on the paths of guard.
type deferred struct {
	in    *ssa.Defer
	guard *Term
	fn    *ssa.Function
	binds []Val
	args  []Val
}

type Edge struct {
	from, to *ssa.BasicBlock
	pi       int // index of from in to.Preds
	st       *State
	res      []Val // for returns
	pos      token.Pos
}

type Oblig struct {
	Fn    string
	Kind  string
	Label string
	Tags  []string
	Pos   string
	goal  *Term
	pc    *Term
	cand  string
}

type Item struct {
	fact *Term
	ob   *Oblig
}

type needHeap struct{ a *ssa.Alloc }

// Exec verifies one function.
type Exec struct {
	seed       string
	p          *Prog
	tt         *TermTable
	so         *Sorts
	fn         *ssa.Function
	con        *Contract
	self       types.Type // dynamic type of the receiver, for interface contracts
	items      []Item
	dry        int
	dropped    map[string]bool
	sessions   int
	force      map[*ssa.Alloc]bool
	modrec     []*ModRec
	modcache   map[string]*ModRec
	caps       map[string]*Term // capacities of owned slices
	heapS      map[string]Sort
	entry      *State
	env0       map[string]SV // contract names
	recBody    map[string]*recInst
	used       map[string]bool // trusted things relied on
	inlined    map[string]bool
	implUsed   map[string]*types.Interface
	fnIDs      map[*ssa.Function]*Term
	owed       *Term             // condition under which type invariants are owed
	tabSeq     map[*Term][]*Term // elements of the slices of tables
	gdef       map[string]bool
	invSeen    map[string]bool
	strict     bool
	steps      int
	owner      string
	curFrame   *Frame
	curPos     token.Pos
	globals    map[*ssa.Global]Val
	loopsRun   map[string]bool
	candSeen   map[string]bool
	candDesc   map[string]string
	clos       map[*Term]*Closure
	fnTags     []string
	maxSteps   int
	cellN      int
	allocRefs  map[*Term]bool
	imField    map[string]imInfo
	callees    map[string]bool
	usedLemmas map[string]bool
	specNotes  map[string]bool
	panicTags  []string
	frameTags  []string
	pr         *printer
	recovered  *Term // what recover() returns
	unwinding  bool  // running what was deferred because of a panic
	tabUnit    bool  // verifying the objects of a table: their invariants are not known
}

type imInfo struct{ t, ft types.Type }

type ModRec struct {
	cells map[*Cell]bool
	heap  map[string]bool
	alloc bool
}

func newExec(p *Prog, fn *ssa.Function, con *Contract) *Exec {
	ext := map[string]Sort{}
	so := newSorts(p.repo, ext)
	x := &Exec{p: p, so: so, fn: fn, con: con, dropped: map[string]bool{}, force: map[*ssa.Alloc]bool{}, modcache: map[string]*ModRec{}, used: map[string]bool{}, inlined: map[string]bool{}, candDesc: map[string]string{}}
	x.tt = newTable(so)
	for n, ty := range p.extS {
		ext[n] = x.sortOf(x.resolveTy("", ty))
	}
	return x
}

func (x *Exec) reset() {
	ext := map[string]Sort{}
	x.so = newSorts(x.p.repo, ext)
	x.tt = newTable(x.so)
	for n, ty := range x.p.extS {
		ext[n] = x.sortOf(x.resolveTy("", ty))
	}
	x.items = nil
	x.dry = 0
	x.modrec = nil
	x.modcache = map[string]*ModRec{}
	x.heapS = map[string]Sort{}
	x.caps = map[string]*Term{}
	x.recBody = map[string]*recInst{}
	x.implUsed = map[string]*types.Interface{}
	x.fnIDs = map[*ssa.Function]*Term{}
	x.tabSeq = map[*Term][]*Term{}
	x.gdef = map[string]bool{}
	x.invSeen = map[string]bool{}
	x.globals = map[*ssa.Global]Val{}
	x.loopsRun = map[string]bool{}
	x.candSeen = map[string]bool{}
	x.clos = map[*Term]*Closure{}
	x.steps = 0
	x.cellN = 0
	x.allocRefs = map[*Term]bool{}
	x.imField = map[string]imInfo{}
	x.callees = map[string]bool{}
	x.usedLemmas = map[string]bool{}
	x.specNotes = map[string]bool{}
	x.used = map[string]bool{}
	x.inlined = map[string]bool{}
	x.recovered = nil
	if x.maxSteps == 0 {
		x.maxSteps = 400000
	}
}

// ---- facts and obligations ----

func (x *Exec) fact(st *State, f *Term) {
	if x.dry > 0 {
		return
	}
	t := x.tt.implies(st.pc, f)
	if isTrue(t) {
		return
	}
	x.items = append(x.items, Item{fact: t})
}

func (x *Exec) gfact(f *Term) {
	if isTrue(f) {
		return
	}
	x.items = append(x.items, Item{fact: f})
}

func (x *Exec) posStr(p token.Pos) string {
	if !p.IsValid() {
		p = x.curPos
	}
	if !p.IsValid() {
		return ""
	}
	ps := x.p.ssa.Fset.Position(p)
	f := ps.Filename
	if i := strings.LastIndex(f, "/"); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

func (x *Exec) oblige(st *State, kind, label string, tags []string, goal *Term, pos token.Pos) {
	if x.dry > 0 {
		return
	}
	if isTrue(goal) || isFalse(st.pc) {
		// still counted: discharged by simplification
		x.items = append(x.items, Item{ob: &Oblig{Fn: x.owner, Kind: kind, Label: label, Tags: tags, Pos: x.posStr(pos), goal: x.tt.tru(), pc: st.pc}})
		return
	}
	if goal.op == "and" && x.con != nil && x.con.flags["split"] {
		for i, g := range goal.args {
			x.oblige(st, kind, fmt.Sprintf("%s/%d", label, i), tags, g, pos)
		}
		return
	}
	x.items = append(x.items, Item{ob: &Oblig{Fn: x.owner, Kind: kind, Label: label, Tags: tags, Pos: x.posStr(pos), goal: goal, pc: st.pc}})
	// afterwards it may be assumed
	x.items = append(x.items, Item{fact: x.tt.implies(st.pc, goal)})
}

// goals are the parts of a goal that can be shown one by one.
func (x *Exec) goals(t *Term) []*Term {
	switch t.op {
	case "and":
		var out []*Term
		for _, a := range t.args {
			out = append(out, x.goals(a)...)
		}
		return out
	case "=>":
		var out []*Term
		for _, g := range x.goals(t.args[1]) {
			out = append(out, x.tt.implies(t.args[0], g))
		}
		return out
	}
	return []*Term{t}
}

func (x *Exec) panics(st *State, what string, ok *Term, pos token.Pos) {
	if x.catches() {
		if !isTrue(ok) {
			s := st.clone()
			s.pc = x.tt.and(st.pc, x.tt.not(ok))
			x.exceptional(s, what, pos)
			x.fact(st, ok)
		}
		return
	}
	if x.con != nil && x.con.flags["maypanic"] {
		// a panic ends the call; what the contract promises is for the calls that return
		x.fact(st, x.tt.implies(st.pc, ok))
		return
	}
	x.oblige(st, "no-panic", what, x.panicTags, ok, pos)
}

// ---- memory ----

func (x *Exec) setCell(st *State, c *Cell, v Val) {
	if c.immut {
		if pub := st.pub[c]; pub != nil && !isFalse(pub) {
			x.oblige(st, "immutable", "object "+c.name+" is not written after it is shared", x.frameTags, x.tt.not(pub), token.NoPos)
		}
	}
	st.cells[c] = v
	for _, m := range x.modrec {
		m.cells[c] = true
	}
}

func (x *Exec) heapGet(st *State, key string, elem Sort) *Term {
	so := x.so.array(SInt, elem)
	return x.heapRaw(st, key, so)
}

func (x *Exec) heapRaw(st *State, key string, so Sort) *Term {
	if old, ok := x.heapS[key]; ok && old != so {
		panic(fmt.Sprintf("heap %s has sorts %s and %s", key, old, so))
	}
	x.heapS[key] = so
	if t, ok := st.heap[key]; ok {
		return t
	}
	return x.tt.app("H0."+sym(key), so)
}

func (x *Exec) heapSet(st *State, key string, v *Term) {
	x.heapS[key] = v.sort
	st.heap[key] = v
	for _, m := range x.modrec {
		m.heap[key] = true
	}
}

func structUnder(t types.Type) *types.Struct {
	s, _ := t.Underlying().(*types.Struct)
	return s
}

func (x *Exec) fieldKey(t types.Type, f int) string {
	return shortPath(typeKey(t), x.p.repo) + "." + structUnder(t).Field(f).Name()
}

func (x *Exec) isImmut(t types.Type) bool {
	t = types.Unalias(t)
	if x.p.immut[typeKey(t)] {
		return true
	}
	if _, ok := x.so.ext[typeKey(t)]; ok {
		return false
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && !x.so.isRepo(n.Obj().Pkg()) {
		return len(x.p.ghost[typeKey(t)]) == 0
	}
	return false
}

func (x *Exec) readField(st *State, t types.Type, f int, ref *Term) *Term {
	t = types.Unalias(t)
	ft := structUnder(t).Field(f).Type()
	so := x.so.of(ft)
	var v *Term
	if x.isImmut(t) {
		v = x.imApp(t, f, ref)
		x.assumeInv(st, t, ref)
	} else {
		v = x.tt.sel(x.heapGet(st, x.fieldKey(t, f), so), ref)
	}
	x.typeFacts(st, ft, v)
	return v
}

// imApp is a field of an immutable object.
func (x *Exec) imApp(t types.Type, f int, ref *Term) *Term {
	ft := structUnder(t).Field(f).Type()
	n := "im." + sym(x.fieldKey(t, f))
	v := x.tt.app(n, x.so.of(ft), ref)
	x.imField[quoteSym(n)] = imInfo{t, ft}
	return v
}

func (x *Exec) assumeInv(st *State, t types.Type, ref *Term) {
	invs := x.p.invs[typeKey(t)]
	if len(invs) == 0 || ref.bound || x.tabUnit {
		return
	}
	k := fmt.Sprintf("%s %d %d", typeKey(t), ref.id, st.pc.id)
	if x.invSeen[k] || x.dry > 0 {
		return
	}
	x.invSeen[k] = true
	for _, in := range invs {
		x.used["type invariant of "+shortPath(typeKey(t), x.p.repo)] = true
		x.fact(st, x.tt.implies(x.tt.neq(ref, x.tt.int(0)), x.invTerm(st, in, t, ref)))
	}
}

func (x *Exec) invTerm(st *State, in *TypeInv, t types.Type, ref *Term) *Term {
	env := &Env{x: x, pkg: in.pkg, st: st, old: st, vars: map[string]SV{in.self: {v: ref, ty: goTy(types.NewPointer(t))}}, file: in.file, noinv: true}
	return env.boolTerm(in.cl.e)
}

// typeFacts adds what every value of a type satisfies.
func (x *Exec) typeFacts(st *State, t types.Type, v *Term) {
	if x.dry > 0 || v.bound {
		return
	}
	if constLike(v) {
		return
	}
	if _, ok := x.so.ext[typeKey(t)]; ok {
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if lo, hi, ok := intRange(u); ok {
			if hi != nil {
				x.fact(st, x.tt.and(x.tt.le(x.tt.big(lo), v), x.tt.le(v, x.tt.big(hi))))
			} else {
				x.fact(st, x.tt.le(x.tt.big(lo), v))
			}
		}
	case *types.Pointer, *types.Map:
		if v.op == "+" || strings.HasPrefix(v.op, "A") {
			return
		}
		x.fact(st, x.tt.and(x.tt.le(x.tt.int(0), v), x.tt.lt(v, st.alloc)))
	case *types.Slice:
		if v.op == x.so.bySort[v.sort].name {
			return
		}
		x.fact(st, x.tt.implies(x.tt.sliceNil(v), x.tt.eq(x.tt.slen(x.tt.sliceSeq(v)), x.tt.int(0))))
	case *types.Interface:
		if v.op == "mkI" {
			return
		}
		x.fact(st, x.tt.and(x.tt.le(x.tt.int(0), x.tt.ifTag(v)), x.tt.implies(x.tt.eq(x.tt.ifTag(v), x.tt.int(0)), x.tt.eq(v, x.tt.nilIfc()))))
	}
}

func intRange(u *types.Basic) (lo, hi *big.Int, ok bool) {
	switch u.Kind() {
	case types.Int8:
		return big.NewInt(math.MinInt8), big.NewInt(math.MaxInt8), true
	case types.Int16:
		return big.NewInt(math.MinInt16), big.NewInt(math.MaxInt16), true
	case types.Int32:
		return big.NewInt(math.MinInt32), big.NewInt(math.MaxInt32), true
	case types.Uint8:
		return big.NewInt(0), big.NewInt(255), true
	case types.Uint16:
		return big.NewInt(0), big.NewInt(65535), true
	case types.Uint32:
		return big.NewInt(0), big.NewInt(math.MaxUint32), true
	case types.Uint, types.Uint64, types.Uintptr:
		return big.NewInt(0), nil, true
	}
	return nil, nil, false
}

// project follows a path inside a value.
func (x *Exec) project(v *Term, path []PathElem) *Term {
	for _, p := range path {
		c := x.so.bySort[v.sort]
		if c == nil {
			panic(unsupported("selection from opaque value of sort %s", v.sort))
		}
		if p.idx != nil {
			v = x.arrSelect(v, c, p.idx)
		} else {
			v = x.tt.acc(c.fields[p.field].name, v)
		}
	}
	return v
}

func (x *Exec) arrSelect(v *Term, c *Ctor, idx *Term) *Term {
	if n, ok := intVal(idx); ok {
		i := int(n.Int64())
		if i < 0 || i >= len(c.fields) {
			return x.tt.zeroSort(c.fields[0].sort)
		}
		return x.tt.acc(c.fields[i].name, v)
	}
	if len(c.fields) > 16 {
		panic(unsupported("variable index into an array of %d", len(c.fields)))
	}
	r := x.tt.acc(c.fields[len(c.fields)-1].name, v)
	for i := len(c.fields) - 2; i >= 0; i-- {
		r = x.tt.ite(x.tt.eq(idx, x.tt.int(int64(i))), x.tt.acc(c.fields[i].name, v), r)
	}
	return r
}

func (x *Exec) inject(v *Term, path []PathElem, nv *Term) *Term {
	if len(path) == 0 {
		return nv
	}
	c := x.so.bySort[v.sort]
	if c == nil {
		panic(unsupported("assignment inside an opaque value of sort %s", v.sort))
	}
	args := make([]*Term, len(c.fields))
	for i, f := range c.fields {
		args[i] = x.tt.acc(f.name, v)
	}
	p := path[0]
	if p.idx != nil {
		n, ok := intVal(p.idx)
		if !ok {
			for i := range args {
				args[i] = x.tt.ite(x.tt.eq(p.idx, x.tt.int(int64(i))), x.inject(args[i], path[1:], nv), args[i])
			}
			return x.tt.ctor(c, args...)
		}
		i := n.Int64()
		args[i] = x.inject(args[i], path[1:], nv)
	} else {
		args[p.field] = x.inject(args[p.field], path[1:], nv)
	}
	return x.tt.ctor(c, args...)
}

func (x *Exec) load(st *State, a *Addr) Val {
	switch {
	case a.cell != nil:
		v, ok := st.cells[a.cell]
		if !ok {
			panic(unsupported("read of variable %s that is not in scope on every path", a.cell.name))
		}
		if len(a.path) == 0 {
			return v
		}
		return x.project(x.asTerm(st, v), a.path)
	case a.glob != nil:
		v := x.globalVal(st, a.glob)
		if len(a.path) == 0 {
			return v
		}
		return x.project(x.asTerm(st, v), a.path)
	case a.slice != nil:
		v := x.seqAt(st, a.slice, a.idx)
		return x.project(v, a.path)
	}
	return x.loadHeap(st, a)
}

func (x *Exec) seqAt(st *State, s Val, idx *Term) *Term {
	if sc, ok := s.(*SliceCell); ok {
		return x.tt.at(st.cells[sc.cell].(*Term), idx)
	}
	return x.tt.at(x.tt.sliceSeq(s.(*Term)), idx)
}

func (x *Exec) loadHeap(st *State, a *Addr) Val {
	s := structUnder(a.typ)
	if s == nil || x.opaqueStruct(a.typ) {
		if len(a.path) > 0 {
			if s == nil || !s.Field(a.path[0].field).Exported() || !x.isImmut(a.typ) {
				panic(unsupported("path into %s", a.typ))
			}
			x.used["fields of library objects ("+trimPkg(typeKey(a.typ))+") do not change"] = true
			return x.project(x.readField(st, a.typ, a.path[0].field, a.ref), a.path[1:])
		}
		so := x.so.of(a.typ)
		return x.tt.sel(x.heapGet(st, "ptr."+shortPath(typeKey(a.typ), x.p.repo), so), a.ref)
	}
	if len(a.path) == 0 {
		c := x.so.bySort[x.so.of(a.typ)]
		args := make([]*Term, s.NumFields())
		for i := range args {
			args[i] = x.readField(st, a.typ, i, a.ref)
		}
		return x.tt.ctor(c, args...)
	}
	return x.project(x.readField(st, a.typ, a.path[0].field, a.ref), a.path[1:])
}

// opaqueStruct: structs of other modules are opaque values.
func (x *Exec) opaqueStruct(t types.Type) bool {
	c := x.so.bySort[x.so.of(t)]
	return c == nil
}

func (x *Exec) storeTo(st *State, a *Addr, v Val) {
	switch {
	case a.cell != nil:
		if len(a.path) == 0 {
			switch a.cell.typ.Underlying().(type) {
			case *types.Pointer, *types.Signature, *types.Slice:
				if t, ok := v.(*SliceCell); ok {
					v = t
				}
				x.setCell(st, a.cell, v)
			default:
				x.setCell(st, a.cell, x.asTerm(st, v))
			}
			return
		}
		old := x.asTerm(st, st.cells[a.cell])
		x.setCell(st, a.cell, x.inject(old, a.path, x.asTerm(st, v)))
	case a.glob != nil:
		key := "glob." + a.glob.String()
		nv := x.asTerm(st, v)
		if len(a.path) > 0 {
			nv = x.inject(x.asTerm(st, x.globalVal(st, a.glob)), a.path, nv)
		}
		x.heapSet(st, key, nv)
	case a.slice != nil:
		sc, ok := a.slice.(*SliceCell)
		if !ok && a.owner != nil && x.load(st, a.owner) == a.slice {
			t := a.slice.(*Term)
			seq := x.tt.sliceSeq(t)
			nv := x.asTerm(st, v)
			if len(a.path) > 0 {
				nv = x.inject(x.tt.at(seq, a.idx), a.path, nv)
			}
			t2 := x.tt.mkSlice(x.tt.sliceNil(t), x.tt.upd(seq, a.idx, nv))
			x.storeTo(st, a.owner, t2)
			x.renew(st, a.owner, t, t2)
			return
		}
		if !ok {
			x.oblige(st, "frame", "no element of a shared slice is assigned", x.frameTags, x.tt.fals(), token.NoPos)
			return
		}
		if pub := st.pub[sc.cell]; pub != nil && !isFalse(pub) {
			x.oblige(st, "frame", "no element of a slice is assigned after it was shared", x.frameTags, x.tt.not(pub), token.NoPos)
		}
		seq := st.cells[sc.cell].(*Term)
		nv := x.asTerm(st, v)
		if len(a.path) > 0 {
			nv = x.inject(x.tt.at(seq, a.idx), a.path, nv)
		}
		x.setCell(st, sc.cell, x.tt.upd(seq, a.idx, nv))
	default:
		s := structUnder(a.typ)
		nv := x.asTerm(st, v)
		if s == nil || x.opaqueStruct(a.typ) {
			key := "ptr." + shortPath(typeKey(a.typ), x.p.repo)
			x.heapSet(st, key, x.tt.store(x.heapGet(st, key, x.so.of(a.typ)), a.ref, nv))
			return
		}
		if x.isImmut(a.typ) {
			x.oblige(st, "immutable", "shared "+shortPath(typeKey(a.typ), x.p.repo)+" is not written", x.frameTags, x.tt.fals(), token.NoPos)
			return
		}
		if len(a.path) == 0 {
			c := x.so.bySort[nv.sort]
			for i := range c.fields {
				x.writeField(st, a.typ, i, a.ref, x.tt.acc(c.fields[i].name, nv))
			}
			return
		}
		f := a.path[0].field
		if len(a.path) > 1 {
			nv = x.inject(x.readField(st, a.typ, f, a.ref), a.path[1:], nv)
		}
		x.writeField(st, a.typ, f, a.ref, nv)
	}
}

func (x *Exec) writeField(st *State, t types.Type, f int, ref, v *Term) {
	key := x.fieldKey(t, f)
	x.heapSet(st, key, x.tt.store(x.heapGet(st, key, v.sort), ref, v))
}

func (x *Exec) newRef(st *State) *Term {
	r := st.alloc
	st.alloc = x.tt.add(st.alloc, x.tt.int(1))
	for _, m := range x.modrec {
		m.alloc = true
	}
	return r
}

// asTerm turns a value into a term, publishing local objects whose address escapes.
func (x *Exec) asTerm(st *State, v Val) *Term {
	switch t := v.(type) {
	case *Term:
		return t
	case *Addr:
		if t.cell != nil && len(t.path) == 0 {
			if t.cell.immut {
				x.publish(st, t.cell)
				return t.cell.ref
			}
			if t.cell.alloc != nil {
				panic(needHeap{t.cell.alloc})
			}
		}
		if t.ref != nil && len(t.path) == 0 {
			return t.ref
		}
		panic(unsupported("address of a part of an object escapes"))
	case *Closure:
		return x.closureTerm(st, t)
	case *SliceCell:
		x.setPub(st, t.cell)
		return x.tt.mkSlice(x.tt.fals(), st.cells[t.cell].(*Term))
	case nil:
		panic(unsupported("missing value"))
	}
	panic(unsupported("value of kind %T used as a term", v))
}

func (x *Exec) setPub(st *State, c *Cell) {
	st.pub[c] = x.tt.tru()
}

func (x *Exec) publish(st *State, c *Cell) {
	if p := st.pub[c]; p != nil && isTrue(p) {
		return
	}
	st.pub[c] = x.tt.tru()
	val := x.asTerm(st, st.cells[c])
	s := structUnder(c.typ)
	ct := x.so.bySort[val.sort]
	for i := 0; i < s.NumFields(); i++ {
		f := x.imApp(c.typ, i, c.ref)
		x.fact(st, x.tt.eq(f, x.tt.acc(ct.fields[i].name, val)))
	}
	for _, in := range x.p.invs[typeKey(c.typ)] {
		tags := in.cl.tags
		if len(tags) == 0 {
			tags = x.fnTags
		}
		x.oblige(st, "type-invariant", shortPath(typeKey(c.typ), x.p.repo)+invLabel(in.cl), tags, x.owe(x.invTerm(st, in, c.typ, c.ref)), token.NoPos)
	}
}

func (x *Exec) owe(t *Term) *Term {
	if x.owed == nil {
		return t
	}
	return x.tt.implies(x.owed, t)
}

func invLabel(c Clause) string {
	if c.label != "" {
		return ": " + c.label
	}
	return fmt.Sprintf(" (line %d)", c.line)
}

func (x *Exec) closureTerm(st *State, c *Closure) *Term {
	if c.id != nil {
		return c.id
	}
	if len(c.bindings) == 0 {
		if id, ok := x.fnIDs[c.fn]; ok {
			c.id = id
		} else {
			c.id = x.tt.app("fn."+sym(c.fn.String()), SInt)
			x.fnIDs[c.fn] = c.id
			x.gfact(x.tt.lt(x.tt.int(0), c.id))
		}
	} else {
		c.id = x.tt.freshVar("closure."+c.fn.Name(), SInt)
		x.gfact(x.tt.lt(x.tt.int(0), c.id))
	}
	x.clos[c.id] = c
	return c.id
}

// ---- merging ----

func (x *Exec) merge(edges []*Edge) *State {
	if len(edges) == 1 {
		return edges[0].st.clone()
	}
	sts := make([]*State, len(edges))
	for i, e := range edges {
		sts[i] = e.st
	}
	return x.mergeStates(sts)
}

func (x *Exec) mergeStates(sts []*State) *State {
	// drop unreachable
	var live []*State
	for _, s := range sts {
		if !isFalse(s.pc) {
			live = append(live, s)
		}
	}
	if len(live) == 0 {
		return sts[0].clone()
	}
	sts = live
	if len(sts) == 1 {
		return sts[0].clone()
	}
	out := sts[0].clone()
	// pairwise, in order, so that if/else chains collapse
	for _, s := range sts[1:] {
		out = x.merge2(out, s)
	}
	return out
}

func sameVal(a, b Val) bool {
	p, ok := a.(Tuple)
	if !ok {
		if _, ok := b.(Tuple); ok {
			return false
		}
		return a == b
	}
	q, ok := b.(Tuple)
	if !ok || len(p) != len(q) {
		return false
	}
	for i := range p {
		if !sameVal(p[i], q[i]) {
			return false
		}
	}
	return true
}

func (x *Exec) mergeVal(a *State, va Val, b *State, vb Val) (Val, bool) {
	if sameVal(va, vb) {
		return va, true
	}
	switch p := va.(type) {
	case *Addr:
		if q, ok := vb.(*Addr); ok && p.cell != nil && p.cell == q.cell && len(p.path) == 0 && len(q.path) == 0 {
			return va, true
		}
	case *SliceCell:
		if q, ok := vb.(*SliceCell); ok && p.cell == q.cell {
			return va, true
		}
	case *Closure:
		if q, ok := vb.(*Closure); ok && p.fn == q.fn && len(p.bindings) == 0 {
			return va, true
		}
	case Tuple:
		q, ok := vb.(Tuple)
		if !ok || len(q) != len(p) {
			return nil, false
		}
		out := make(Tuple, len(p))
		for i := range p {
			v, ok := x.mergeVal(a, p[i], b, q[i])
			if !ok {
				return nil, false
			}
			out[i] = v
		}
		return out, true
	case *Iter:
		return nil, false
	}
	ta, ok1 := x.tryTerm(a, va)
	tb, ok2 := x.tryTerm(b, vb)
	if !ok1 || !ok2 || ta.sort != tb.sort {
		return nil, false
	}
	return x.tt.ite(a.pc, ta, tb), true
}

func (x *Exec) tryTerm(st *State, v Val) (t *Term, ok bool) {
	switch a := v.(type) {
	case *Term:
		return a, true
	case *Addr:
		if a.cell != nil && len(a.path) == 0 && a.cell.immut || a.ref != nil && len(a.path) == 0 {
			return x.asTerm(st, v), true
		}
	case *Closure:
		return x.asTerm(st, v), true
	case *SliceCell:
		return x.asTerm(st, v), true
	}
	return nil, false
}

func (x *Exec) merge2(a, b *State) *State {
	out := &State{pc: x.tt.or(a.pc, b.pc), cells: map[*Cell]Val{}, pub: map[*Cell]*Term{}, heap: map[string]*Term{}, regs: map[rk]Val{}, alloc: a.alloc}
	ca := make([]*Cell, 0, len(a.cells))
	for c := range a.cells {
		if _, ok := b.cells[c]; ok {
			ca = append(ca, c)
		}
	}
	sort.Slice(ca, func(i, j int) bool { return ca[i].name < ca[j].name })
	// registers first: merging them may publish objects
	rks := make([]rk, 0, len(a.regs))
	for k, va := range a.regs {
		vb, ok := b.regs[k]
		if !ok {
			continue
		}
		if sameVal(va, vb) {
			out.regs[k] = va
		} else {
			rks = append(rks, k)
		}
	}
	sort.Slice(rks, func(i, j int) bool {
		if rks[i].f != rks[j].f {
			return rks[i].f.path < rks[j].f.path
		}
		return rks[i].v.Name() < rks[j].v.Name()
	})
	for _, k := range rks {
		if v, ok := x.mergeVal(a, a.regs[k], b, b.regs[k]); ok {
			out.regs[k] = v
		}
	}
	for _, c := range ca {
		if v, ok := x.mergeVal(a, a.cells[c], b, b.cells[c]); ok {
			out.cells[c] = v
		}
		pa, pb := a.pub[c], b.pub[c]
		if pa == nil {
			pa = x.tt.fals()
		}
		if pb == nil {
			pb = x.tt.fals()
		}
		if p := x.tt.ite(a.pc, pa, pb); !isFalse(p) {
			out.pub[c] = p
		}
	}
	keys := map[string]bool{}
	for k := range a.heap {
		keys[k] = true
	}
	for k := range b.heap {
		keys[k] = true
	}
	for _, k := range sortedKeys(keys) {
		so := x.heapS[k]
		out.heap[k] = x.tt.ite(a.pc, x.heapRaw(a, k, so), x.heapRaw(b, k, so))
	}
	if a.alloc != b.alloc {
		out.alloc = x.tt.freshVar("A", SInt)
		if x.dry == 0 {
			x.items = append(x.items, Item{fact: x.tt.and(x.tt.le(a.alloc, out.alloc), x.tt.le(b.alloc, out.alloc))})
		}
	}
	return out
}

func sortedKeys(m map[string]bool) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// ---- values ----

func (x *Exec) val(st *State, fr *Frame, v ssa.Value) Val {
	switch c := v.(type) {
	case *ssa.Const:
		return x.constVal(c)
	case *ssa.Function:
		return &Closure{fn: c}
	case *ssa.Builtin:
		return c
	case *ssa.Global:
		return &Addr{glob: c, typ: c.Type().(*types.Pointer).Elem()}
	case *ssa.Parameter:
		for i, p := range fr.fn.Params {
			if p == c {
				return fr.params[i]
			}
		}
	case *ssa.FreeVar:
		for i, p := range fr.fn.FreeVars {
			if p == c {
				return fr.binds[i]
			}
		}
	}
	r, ok := st.regs[rk{fr, v}]
	if !ok {
		panic(unsupported("value %s of %s is not available on every path", v.Name(), fr.fn.Name()))
	}
	return r
}

func (x *Exec) term(st *State, fr *Frame, v ssa.Value) *Term { return x.asTerm(st, x.val(st, fr, v)) }

func f64Term(tt *TermTable, f float64) *Term {
	b := math.Float64bits(f)
	if f == 0 && b == 0 {
		return tt.mk("(_ +zero 11 53)", SF64)
	}
	if math.IsNaN(f) {
		return tt.mk("(_ NaN 11 53)", SF64)
	}
	return tt.mk(fmt.Sprintf("(fp #b%01b #b%011b #b%052b)", b>>63, b>>52&0x7ff, b&(1<<52-1)), SF64)
}

func (x *Exec) constVal(c *ssa.Const) Val {
	if c.Value == nil {
		return x.tt.zero(c.Type())
	}
	switch u := c.Type().Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return x.tt.bool(constant.BoolVal(c.Value))
		case u.Info()&types.IsInteger != 0:
			n, _ := new(big.Int).SetString(constant.ToInt(c.Value).ExactString(), 10)
			return x.tt.big(n)
		case u.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(c.Value)
			return f64Term(x.tt, f)
		case u.Info()&types.IsString != 0:
			return x.tt.str(constant.StringVal(c.Value))
		}
	}
	panic(unsupported("constant %s", c))
}

// globalVal reads a package variable.
func (x *Exec) globalVal(st *State, g *ssa.Global) Val {
	t := g.Type().(*types.Pointer).Elem()
	if x.p.mutGlb[g] {
		key := "glob." + g.String()
		return x.heapRaw(st, key, x.so.of(t))
	}
	if v, ok := x.globals[g]; ok {
		return v
	}
	v := x.initGlobal(g)
	if v == nil {
		v = x.tt.app("glob."+sym(shortPath(g.String(), x.p.repo)), x.so.of(t))
		x.typeFacts(&State{pc: x.tt.tru(), alloc: x.tt.app("A0", SInt)}, t, v.(*Term))
	}
	x.globals[g] = v
	return v
}

// initGlobal evaluates the initialiser of a package variable that is never
// assigned elsewhere: constants, composite literals and pure calls.
func (x *Exec) initGlobal(g *ssa.Global) (res Val) {
	if g.Pkg == nil || g.Pkg.Func("init") == nil || x.p.pkgs[g.Pkg.Pkg.Path()] == nil {
		if _, ok := g.Type().(*types.Pointer).Elem().Underlying().(*types.Interface); ok {
			// error variables of libraries are not nil
			v := x.tt.app("glob."+sym(g.String()), SIfc)
			x.gfact(x.tt.lt(x.tt.int(0), x.tt.ifTag(v)))
			return v
		}
		return nil
	}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(unsupportedErr); ok {
				res = nil
				return
			}
			panic(r)
		}
	}()
	t := g.Type().(*types.Pointer).Elem()
	init := g.Pkg.Func("init")
	val := x.tt.zero(t)
	found := false
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Store)
			if !ok || rootGlobal(s.Addr) != g {
				continue
			}
			v, ok := x.initValue(s.Val)
			if !ok {
				return nil
			}
			path, ok := x.constPath(s.Addr)
			if !ok {
				return nil
			}
			val = x.inject(val, path, v)
			found = true
		}
	}
	_ = found
	return val
}

func (x *Exec) constPath(a ssa.Value) ([]PathElem, bool) {
	switch y := a.(type) {
	case *ssa.Global, *ssa.Alloc:
		return nil, true
	case *ssa.FieldAddr:
		p, ok := x.constPath(y.X)
		return append(p, PathElem{typ: y.X.Type().(*types.Pointer).Elem(), field: y.Field}), ok
	}
	return nil, false
}

func (x *Exec) initValue(v ssa.Value) (*Term, bool) {
	switch c := v.(type) {
	case *ssa.Const:
		t, ok := x.constVal(c).(*Term)
		return t, ok
	case *ssa.Function:
		return x.asTerm(nil, &Closure{fn: c}), true
	case *ssa.UnOp:
		// a composite literal built in a temporary
		al, ok := c.X.(*ssa.Alloc)
		if !ok || c.Op != token.MUL {
			return nil, false
		}
		val := x.tt.zero(al.Type().(*types.Pointer).Elem())
		for _, in := range c.Block().Instrs {
			s, ok := in.(*ssa.Store)
			if !ok || rootOf(s.Addr) != ssa.Value(al) {
				continue
			}
			v, ok := x.initValue(s.Val)
			if !ok {
				return nil, false
			}
			path, ok := x.constPath(s.Addr)
			if !ok {
				return nil, false
			}
			val = x.inject(val, path, v)
		}
		return val, true
	case *ssa.Call:
		fn := c.Call.StaticCallee()
		if fn == nil {
			return nil, false
		}
		if fn.String() == "errors.New" {
			// a distinct non-nil error per variable
			path := c.Parent().Pkg.Pkg.Path()
			h := fnv.New32a()
			h.Write([]byte(path))
			id, n := int64(h.Sum32()), int64(0)
			for _, b := range c.Parent().Blocks {
				for _, in := range b.Instrs {
					if d, ok := in.(*ssa.Call); ok {
						n++
						if d == c {
							id = id*1000 + n
						}
					}
				}
			}
			r := x.tt.app("err."+sym(shortPath(path, x.p.repo))+fmt.Sprint(id), SIfc)
			x.gfact(x.tt.and(x.tt.eq(x.tt.ifTag(r), x.tt.int(int64(x.so.tag(errorStringType)))), x.tt.eq(x.tt.ifRef(r), x.tt.int(-id-10))))
			return r, true
		}
		if !x.isPure(fn) {
			return nil, false
		}
		var args []*Term
		for _, a := range c.Call.Args {
			t, ok := x.initValue(a)
			if !ok {
				return nil, false
			}
			args = append(args, t)
		}
		if fn.Signature.Results().Len() != 1 {
			return nil, false
		}
		r := x.pureApp(fn.String(), 0, fn.Signature.Results().At(0).Type(), args)
		if _, ok := fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer); ok {
			x.gfact(x.tt.and(x.tt.lt(x.tt.int(0), r), x.tt.lt(r, x.tt.app("A0", SInt))))
		}
		return r, true
	}
	return nil, false
}

// errorStringType stands for the dynamic type of errors.New values.
var errorStringType = types.NewPointer(types.NewNamed(types.NewTypeName(token.NoPos, types.NewPackage("errors", "errors"), "errorString", nil), types.NewStruct(nil, nil), nil))

func (x *Exec) isPure(fn *ssa.Function) bool {
	if c := x.p.ext[fn.String()]; c != nil {
		return c.flags["pure"]
	}
	if fn.Pkg == nil {
		if fn.Object() != nil && fn.Object().Pkg() != nil {
			return x.p.spec.purePk[fn.Object().Pkg().Path()]
		}
		return false
	}
	return x.p.spec.purePk[fn.Pkg.Pkg.Path()]
}

func (x *Exec) pureApp(name string, i int, t types.Type, args []*Term) *Term {
	n := "x." + sym(name)
	if i > 0 {
		n += fmt.Sprintf("#%d", i)
	}
	return x.tt.app(strings.ReplaceAll(n, "#", "!"), x.so.of(t), args...)
}
