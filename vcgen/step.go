package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- control flow ----

type Loop struct {
	head   *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	parent *Loop
	idx    int
}

type LoopInfo struct {
	byHead map[*ssa.BasicBlock]*Loop
	order  []*ssa.BasicBlock // reverse postorder
	rpo    map[*ssa.BasicBlock]int
}

func loopInfo(fn *ssa.Function) *LoopInfo {
	li := &LoopInfo{byHead: map[*ssa.BasicBlock]*Loop{}, rpo: map[*ssa.BasicBlock]int{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if !seen[b.Succs[i]] {
				dfs(b.Succs[i])
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		li.rpo[post[i]] = len(li.order)
		li.order = append(li.order, post[i])
	}
	for _, b := range li.order {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := li.byHead[s]
				if l == nil {
					l = &Loop{head: s, body: map[*ssa.BasicBlock]bool{s: true}}
					li.byHead[s] = l
				}
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					c := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if l.body[c] {
						continue
					}
					l.body[c] = true
					stack = append(stack, c.Preds...)
				}
			} else if li.rpo[s] <= li.rpo[b] {
				panic(unsupported("irreducible control flow in %s", fn.Name()))
			}
		}
	}
	var heads []*ssa.BasicBlock
	for h := range li.byHead {
		heads = append(heads, h)
	}
	sort.Slice(heads, func(i, j int) bool { return li.rpo[heads[i]] < li.rpo[heads[j]] })
	for i, h := range heads {
		li.byHead[h].idx = i
	}
	return li
}

func predIndex(from, to *ssa.BasicBlock, nth int) int {
	for i, p := range to.Preds {
		if p == from {
			if nth == 0 {
				return i
			}
			nth--
		}
	}
	panic("no such predecessor")
}

// phis evaluates the phi nodes of e.to on the edge.
func (x *Exec) phis(fr *Frame, e *Edge) {
	type pv struct {
		p *ssa.Phi
		v Val
	}
	var vs []pv
	for _, in := range e.to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vs = append(vs, pv{p, x.val(e.st, fr, p.Edges[e.pi])})
	}
	for _, v := range vs {
		e.st.regs[rk{fr, v.p}] = v.v
	}
}

// run executes the blocks of a region. Edges to target blocks outside the
// region or back to its head are returned.
func (x *Exec) run(fr *Frame, region map[*ssa.BasicBlock]bool, head *ssa.BasicBlock, start *State) (out []*Edge) {
	pending := map[*ssa.BasicBlock][]*Edge{}
	route := func(e *Edge) {
		if isFalse(e.st.pc) {
			return
		}
		if e.to == head || region != nil && !region[e.to] {
			out = append(out, e)
			return
		}
		pending[e.to] = append(pending[e.to], e)
	}
	for _, b := range fr.loops.order {
		if region != nil && !region[b] {
			continue
		}
		if b == head {
			for _, e := range x.block(fr, b, start) {
				route(e)
			}
			continue
		}
		es := pending[b]
		if len(es) == 0 {
			continue
		}
		delete(pending, b)
		for _, e := range es {
			x.phis(fr, e)
		}
		if l := fr.loops.byHead[b]; l != nil {
			for _, e := range x.loop(fr, l, es) {
				route(e)
			}
			continue
		}
		st := x.merge(es)
		if isFalse(st.pc) {
			continue
		}
		for _, e := range x.block(fr, b, st) {
			route(e)
		}
	}
	return out
}

func (x *Exec) call(fr *Frame, st *State) {
	fr.loops = loopInfo(fr.fn)
	b0 := fr.fn.Blocks[0]
	if fr.loops.byHead[b0] != nil {
		panic(unsupported("loop at function entry"))
	}
	x.run(fr, nil, b0, st)
}

func (x *Exec) block(fr *Frame, b *ssa.BasicBlock, st *State) []*Edge {
	for _, in := range b.Instrs {
		x.steps++
		if x.steps > x.maxSteps {
			panic(unsupported("too many steps"))
		}
		if p := in.Pos(); p.IsValid() {
			x.curPos = p
		}
		x.curFrame = fr
		switch i := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.If:
			c := x.term(st, fr, i.Cond)
			t, f := st, st.clone()
			t.pc = x.tt.and(st.pc, c)
			f.pc = x.tt.and(f.pc, x.tt.not(c))
			if isTrue(c) {
				f.pc = x.tt.fals()
			}
			if isFalse(c) {
				t.pc = x.tt.fals()
			}
			nth := 0
			if b.Succs[0] == b.Succs[1] {
				nth = 1
			}
			return []*Edge{
				{from: b, to: b.Succs[0], pi: predIndex(b, b.Succs[0], 0), st: t},
				{from: b, to: b.Succs[1], pi: predIndex(b, b.Succs[1], nth), st: f},
			}
		case *ssa.Jump:
			return []*Edge{{from: b, to: b.Succs[0], pi: predIndex(b, b.Succs[0], 0), st: st}}
		case *ssa.Return:
			var res []Val
			for _, r := range i.Results {
				res = append(res, x.val(st, fr, r))
			}
			fr.returns = append(fr.returns, &Edge{from: b, st: st, res: res, pos: i.Pos()})
			return nil
		case *ssa.Panic:
			x.panics(st, "explicit panic is unreachable", x.tt.fals(), i.Pos())
			return nil
		default:
			v := x.instr(fr, st, in)
			if val, ok := in.(ssa.Value); ok {
				st.regs[rk{fr, val}] = v
			}
			if isFalse(st.pc) {
				return nil
			}
		}
	}
	return nil
}

// ---- instructions ----

func (x *Exec) nonNil(st *State, t *Term, pos token.Pos) {
	x.panics(st, "nil dereference", x.tt.neq(t, x.tt.int(0)), pos)
}

func (x *Exec) toAddr(st *State, v Val, pt types.Type, pos token.Pos) *Addr {
	switch a := v.(type) {
	case *Addr:
		return a
	case *Term:
		x.nonNil(st, a, pos)
		return &Addr{ref: a, typ: types.Unalias(pt.Underlying().(*types.Pointer).Elem())}
	}
	panic(unsupported("address of kind %T", v))
}

func (x *Exec) addrRef(st *State, a *Addr) *Term { return x.asTerm(st, a) }

func (x *Exec) newCell(name string, t types.Type) *Cell {
	x.cellN++
	return &Cell{name: fmt.Sprintf("%s#%d", name, x.cellN), typ: t}
}

func (x *Exec) instr(fr *Frame, st *State, in ssa.Instruction) Val {
	tt := x.tt
	switch i := in.(type) {
	case *ssa.Alloc:
		t := types.Unalias(i.Type().(*types.Pointer).Elem())
		if x.force[i] {
			ref := x.newRef(st)
			a := &Addr{ref: ref, typ: t}
			x.storeHeapInit(st, a, tt.zero(t))
			return a
		}
		c := x.newCell(allocName(i), t)
		c.alloc = i
		if structUnder(t) != nil && x.isImmut(t) && !x.opaqueStruct(t) {
			c.immut = true
			c.ref = x.newRef(st)
			x.allocRefs[c.ref] = true
		}
		x.setCell(st, c, tt.zero(t))
		return &Addr{cell: c, typ: t}
	case *ssa.FieldAddr:
		a := x.toAddr(st, x.val(st, fr, i.X), i.X.Type(), i.Pos())
		n := *a
		n.path = append(append([]PathElem{}, a.path...), PathElem{typ: types.Unalias(i.X.Type().Underlying().(*types.Pointer).Elem()), field: i.Field})
		return &n
	case *ssa.IndexAddr:
		idx := x.term(st, fr, i.Index)
		switch u := i.X.Type().Underlying().(type) {
		case *types.Pointer:
			a := x.toAddr(st, x.val(st, fr, i.X), i.X.Type(), i.Pos())
			at := u.Elem().Underlying().(*types.Array)
			x.bounds(st, idx, tt.int(at.Len()), i.Pos())
			n := *a
			n.path = append(append([]PathElem{}, a.path...), PathElem{typ: u.Elem(), idx: idx})
			return &n
		case *types.Slice:
			v := x.val(st, fr, i.X)
			x.bounds(st, idx, x.lenOf(st, v), i.Pos())
			return &Addr{slice: v, idx: idx, typ: u.Elem(), owner: x.elemOwner(fr, st, i)}
		}
	case *ssa.UnOp:
		switch i.Op {
		case token.MUL:
			a := x.toAddr(st, x.val(st, fr, i.X), i.X.Type(), i.Pos())
			v := x.load(st, a)
			if t, ok := v.(*Term); ok {
				x.typeFacts(st, i.Type(), t)
			}
			return v
		case token.NOT:
			return tt.not(x.term(st, fr, i.X))
		case token.SUB:
			v := x.term(st, fr, i.X)
			if v.sort == SF64 {
				return tt.mk("fp.neg", SF64, v)
			}
			return x.wrap(i.Type(), tt.sub(tt.int(0), v))
		case token.XOR:
			return tt.app("bitnot", SInt, x.term(st, fr, i.X))
		}
	case *ssa.BinOp:
		return x.binop(fr, st, i)
	case *ssa.Store:
		a := x.toAddr(st, x.val(st, fr, i.Addr), i.Addr.Type(), i.Pos())
		x.atomicStore(st, a, i.Pos())
		x.storeTo(st, a, x.val(st, fr, i.Val))
		return nil
	case *ssa.Call:
		return x.doCall(fr, st, i, &i.Call)
	case *ssa.ChangeInterface:
		return x.val(st, fr, i.X)
	case *ssa.ChangeType:
		if m, ok := i.Type().Underlying().(*types.Map); ok {
			if x.p.named[m] != x.p.named[i.X.Type().Underlying().(*types.Map)] {
				panic(unsupported("conversion between map types"))
			}
		}
		return x.val(st, fr, i.X)
	case *ssa.Convert:
		return x.convert(st, i.X.Type(), i.Type(), x.val(st, fr, i.X))
	case *ssa.MultiConvert:
		return x.convert(st, i.X.Type(), i.Type(), x.val(st, fr, i.X))
	case *ssa.Extract:
		t, ok := x.val(st, fr, i.Tuple).(Tuple)
		if !ok || i.Index >= len(t) {
			panic(unsupported("extract"))
		}
		return t[i.Index]
	case *ssa.Field:
		v := x.term(st, fr, i.X)
		c := x.so.bySort[v.sort]
		if c == nil {
			panic(unsupported("field of opaque %s", i.X.Type()))
		}
		r := tt.acc(c.fields[i.Field].name, v)
		x.typeFacts(st, i.Type(), r)
		return r
	case *ssa.Index:
		v := x.term(st, fr, i.X)
		idx := x.term(st, fr, i.Index)
		switch u := i.X.Type().Underlying().(type) {
		case *types.Array:
			x.bounds(st, idx, tt.int(u.Len()), i.Pos())
			return x.arrSelect(v, x.so.bySort[v.sort], idx)
		case *types.Basic:
			x.bounds(st, idx, tt.slen(v), i.Pos())
			r := tt.at(v, idx)
			x.typeFacts(st, types.Typ[types.Uint8], r)
			return r
		}
	case *ssa.Lookup:
		v := x.term(st, fr, i.X)
		idx := x.term(st, fr, i.Index)
		m, ok := i.X.Type().Underlying().(*types.Map)
		if !ok {
			x.bounds(st, idx, tt.slen(v), i.Pos())
			r := tt.at(v, idx)
			x.typeFacts(st, types.Typ[types.Uint8], r)
			return r
		}
		val, dom := x.mapArrays(st, m, v)
		found := tt.and(tt.neq(v, tt.int(0)), tt.sel(dom, idx))
		r := tt.ite(found, tt.sel(val, idx), tt.zero(m.Elem()))
		x.typeFacts(st, m.Elem(), r)
		if i.CommaOk {
			return Tuple{r, found}
		}
		return r
	case *ssa.MakeInterface:
		if intoBuilder(i) {
			return x.val(st, fr, i.X)
		}
		v := x.term(st, fr, i.X)
		return x.makeInterface(st, i.X.Type(), v)
	case *ssa.MakeClosure:
		c := &Closure{fn: i.Fn.(*ssa.Function)}
		for _, b := range i.Bindings {
			c.bindings = append(c.bindings, x.val(st, fr, b))
		}
		return c
	case *ssa.MakeMap:
		m := i.Type().Underlying().(*types.Map)
		ref := x.newRef(st)
		ks, vs := x.so.of(m.Key()), x.so.of(m.Elem())
		dk, vk := x.mapKeys(m)
		ds := x.so.array(ks, SBool)
		x.heapSet(st, dk, tt.store(x.heapGet(st, dk, ds), ref, tt.constArr(ds, tt.fals())))
		va := x.so.array(ks, vs)
		x.heapSet(st, vk, tt.store(x.heapGet(st, vk, va), ref, tt.constArr(va, tt.zero(m.Elem()))))
		return ref
	case *ssa.MapUpdate:
		m := i.Map.Type().Underlying().(*types.Map)
		ref := x.term(st, fr, i.Map)
		x.panics(st, "assignment to nil map", tt.neq(ref, tt.int(0)), i.Pos())
		k, v := x.term(st, fr, i.Key), x.term(st, fr, i.Value)
		val, dom := x.mapArrays(st, m, ref)
		dk, vk := x.mapKeys(m)
		x.heapSet(st, dk, tt.store(x.heapRaw(st, dk, x.heapS[dk]), ref, tt.store(dom, k, tt.tru())))
		x.heapSet(st, vk, tt.store(x.heapRaw(st, vk, x.heapS[vk]), ref, tt.store(val, k, v)))
		return nil
	case *ssa.MakeSlice:
		n := x.term(st, fr, i.Len)
		el := i.Type().Underlying().(*types.Slice).Elem()
		es := x.so.of(el)
		x.panics(st, "makeslice: length out of range", tt.le(tt.int(0), n), i.Pos())
		var seq *Term
		if k, ok := intVal(n); ok && k.IsInt64() && k.Int64() <= 64 {
			seq = tt.emp(es)
			for j := int64(0); j < k.Int64(); j++ {
				seq = tt.cat(seq, tt.unit(tt.zero(el)))
			}
			if k.Sign() == 0 {
				return tt.mkSlice(tt.fals(), seq)
			}
		} else {
			seq = tt.freshVar("made", x.so.seqOf(es).sort)
			j := tt.boundVar("j", SInt)
			x.fact(st, tt.eq(tt.slen(seq), n))
			x.fact(st, tt.forall([]*Term{j}, [][]*Term{{tt.at(seq, j)}}, tt.eq(tt.at(seq, j), tt.zero(el))))
		}
		c := x.newCell("slice", i.Type())
		c.sort = seq.sort
		x.setCell(st, c, seq)
		return &SliceCell{c}
	case *ssa.Slice:
		return x.sliceInstr(fr, st, i)
	case *ssa.TypeAssert:
		return x.typeAssert(fr, st, i)
	case *ssa.Range:
		c := x.newCell("iter", nil)
		if m, ok := i.X.Type().Underlying().(*types.Map); ok {
			v := x.term(st, fr, i.X)
			_, dom := x.mapArrays(st, m, v)
			dom0 := tt.ite(tt.eq(v, tt.int(0)), tt.constArr(dom.sort, tt.fals()), dom)
			c.sort = dom.sort
			x.setCell(st, c, tt.constArr(dom.sort, tt.fals()))
			return &Iter{m: v, isMap: true, mt: m, dom0: dom0, vis: c}
		}
		c.sort = SInt
		x.setCell(st, c, tt.int(0))
		return &Iter{m: x.term(st, fr, i.X), vis: c}
	case *ssa.Next:
		return x.next(fr, st, i)
	case *ssa.RunDefers:
		x.runDefers(fr, st)
		return nil
	case *ssa.Defer:
		x.deferCall(fr, st, i)
		return nil
	case *ssa.Go, *ssa.Send, *ssa.Select:
		panic(unsupported("%T statement", in))
	}
	panic(unsupported("instruction %T %s", in, in))
}

func allocName(a *ssa.Alloc) string {
	if a.Comment != "" {
		return a.Comment
	}
	return a.Name()
}

func (x *Exec) storeHeapInit(st *State, a *Addr, v *Term) {
	s := structUnder(a.typ)
	if s == nil || x.opaqueStruct(a.typ) {
		key := "ptr." + shortPath(typeKey(a.typ), x.p.repo)
		x.heapSet(st, key, x.tt.store(x.heapGet(st, key, v.sort), a.ref, v))
		return
	}
	c := x.so.bySort[v.sort]
	for i := range c.fields {
		x.writeField(st, a.typ, i, a.ref, x.tt.acc(c.fields[i].name, v))
	}
}

func (x *Exec) bounds(st *State, idx, n *Term, pos token.Pos) {
	x.panics(st, "index in range", x.tt.and(x.tt.le(x.tt.int(0), idx), x.tt.lt(idx, n)), pos)
}

func (x *Exec) lenOf(st *State, v Val) *Term {
	if sc, ok := v.(*SliceCell); ok {
		return x.tt.slen(st.cells[sc.cell].(*Term))
	}
	t := x.asTerm(st, v)
	if x.so.seqs[t.sort] != nil {
		return x.tt.slen(t)
	}
	return x.tt.slen(x.tt.sliceSeq(t))
}

func (x *Exec) mapKeys(m *types.Map) (dom, val string) {
	// maps of different types are different objects
	if n := x.p.named[m]; n != "" {
		return "mapdom." + n, "mapval." + n
	}
	k := sym(shortPath(typeKey(types.Unalias(m.Key())), x.p.repo)) + "." + sym(shortPath(typeKey(types.Unalias(m.Elem())), x.p.repo))
	return "mapdom." + k, "mapval." + k
}

func (x *Exec) mapArrays(st *State, m *types.Map, ref *Term) (val, dom *Term) {
	ks, vs := x.so.of(m.Key()), x.so.of(m.Elem())
	dk, vk := x.mapKeys(m)
	dom = x.tt.sel(x.heapGet(st, dk, x.so.array(ks, SBool)), ref)
	val = x.tt.sel(x.heapGet(st, vk, x.so.array(ks, vs)), ref)
	return
}

func (x *Exec) card(dom *Term) *Term {
	t := x.tt.app("card."+sym(string(dom.sort)), SInt, dom)
	if x.dry == 0 && !t.bound {
		x.gfact(x.tt.le(x.tt.int(0), t))
		k := x.tt.boundVar("k", x.so.arrK[dom.sort])
		x.gfact(x.tt.implies(x.tt.eq(t, x.tt.int(0)), x.tt.forall([]*Term{k}, [][]*Term{{x.tt.sel(dom, k)}}, x.tt.not(x.tt.sel(dom, k)))))
	}
	return t
}

func (x *Exec) next(fr *Frame, st *State, i *ssa.Next) Val {
	tt := x.tt
	it, ok := x.val(st, fr, i.Iter).(*Iter)
	if !ok {
		panic(unsupported("iterator"))
	}
	if !it.isMap {
		pos := st.cells[it.vis].(*Term)
		n := tt.slen(it.m)
		more := tt.lt(pos, n)
		r := tt.app("runeat", SInt, it.m, pos)
		w := tt.app("runew", SInt, it.m, pos)
		x.fact(st, tt.implies(tt.and(tt.le(tt.int(0), pos), more), tt.and(tt.le(tt.int(1), w), tt.le(w, tt.int(4)), tt.le(tt.add(pos, w), n), tt.le(tt.int(0), r), tt.le(r, tt.int(0x10ffff)))))
		b := tt.at(it.m, pos)
		x.fact(st, tt.implies(tt.and(tt.le(tt.int(0), pos), more, tt.le(tt.int(0), b), tt.lt(b, tt.int(128))), tt.and(tt.eq(r, b), tt.eq(w, tt.int(1)))))
		x.setCell(st, it.vis, tt.ite(more, tt.add(pos, w), pos))
		return Tuple{more, pos, r}
	}
	vis := st.cells[it.vis].(*Term)
	val, dom := x.mapArrays(st, it.mt, it.m)
	ks := x.so.of(it.mt.Key())
	k := tt.freshVar("key", ks)
	more := tt.freshVar("more", SBool)
	x.fact(st, tt.implies(more, tt.and(tt.neq(it.m, tt.int(0)), tt.sel(dom, k), tt.not(tt.sel(vis, k)))))
	bk := tt.boundVar("k", ks)
	d0 := tt.and(tt.sel(it.dom0, bk), tt.sel(dom, bk))
	x.fact(st, tt.implies(tt.not(more), tt.forall([]*Term{bk}, [][]*Term{{tt.mk("select", SBool, vis, bk)}, {tt.mk("select", SBool, dom, bk)}}, tt.implies(d0, tt.sel(vis, bk)))))
	x.setCell(st, it.vis, tt.ite(more, tt.store(vis, k, tt.tru()), vis))
	v := tt.sel(val, k)
	x.typeFacts(st, it.mt.Elem(), v)
	return Tuple{more, k, v}
}

func (x *Exec) wrap(t types.Type, v *Term) *Term {
	u, ok := t.Underlying().(*types.Basic)
	if !ok {
		return v
	}
	switch u.Kind() {
	case types.Uint8:
		return x.mod2(v, 8)
	case types.Uint16:
		return x.mod2(v, 16)
	case types.Uint32:
		return x.mod2(v, 32)
	case types.Int8:
		return x.smod2(v, 8)
	case types.Int16:
		return x.smod2(v, 16)
	case types.Int32:
		return x.smod2(v, 32)
	case types.Uint, types.Uint64, types.Uintptr:
		if x.con != nil && x.con.flags["wrap64"] {
			return x.mod2(v, 64)
		}
	}
	return v
}

// smod2 wraps a value into a signed type of so many bits.
func (x *Exec) smod2(v *Term, bits uint) *Term {
	h := x.tt.big(new(big.Int).Lsh(big.NewInt(1), bits-1))
	return x.tt.sub(x.mod2(x.tt.add(v, h), bits), h)
}

// intBits is the size of an integer type and whether it is signed.
func intBits(u *types.Basic) (uint, bool) {
	switch u.Kind() {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	}
	return 64, true
}

func (x *Exec) mod2(v *Term, bits uint) *Term {
	m := new(big.Int).Lsh(big.NewInt(1), bits)
	if n, ok := intVal(v); ok {
		return x.tt.big(new(big.Int).Mod(n, m))
	}
	return x.tt.mk("mod", SInt, v, x.tt.big(m))
}

func (x *Exec) tdiv(a, b *Term) *Term {
	tt := x.tt
	if p, ok := intVal(a); ok {
		if q, ok := intVal(b); ok && q.Sign() != 0 {
			return tt.big(new(big.Int).Quo(p, q))
		}
	}
	d := func(p, q *Term) *Term { return tt.mk("div", SInt, p, q) }
	neg := tt.sub(tt.int(0), a)
	// SMT div rounds towards minus infinity for positive divisors
	return tt.ite(tt.le(tt.int(0), a), d(a, b), tt.sub(tt.int(0), d(neg, b)))
}

func (x *Exec) tmod(a, b *Term) *Term {
	if p, ok := intVal(a); ok {
		if q, ok := intVal(b); ok && q.Sign() != 0 {
			return x.tt.big(new(big.Int).Rem(p, q))
		}
	}
	return x.tt.sub(a, x.tt.mul(b, x.tdiv(a, b)))
}

func (x *Exec) binop(fr *Frame, st *State, i *ssa.BinOp) Val {
	tt := x.tt
	va, vb := x.val(st, fr, i.X), x.val(st, fr, i.Y)
	if i.Op == token.EQL || i.Op == token.NEQ {
		r := x.goEqual(st, i.X.Type(), va, vb)
		if i.Op == token.NEQ {
			r = tt.not(r)
		}
		return r
	}
	a, b := x.asTerm(st, va), x.asTerm(st, vb)
	u := i.X.Type().Underlying().(*types.Basic)
	switch {
	case u.Info()&types.IsString != 0:
		lt := func(p, q *Term) *Term { return tt.app("str.less", SBool, p, q) }
		switch i.Op {
		case token.ADD:
			return tt.cat(a, b)
		case token.LSS:
			return lt(a, b)
		case token.GTR:
			return lt(b, a)
		case token.LEQ:
			return tt.not(lt(b, a))
		case token.GEQ:
			return tt.not(lt(a, b))
		}
	case u.Info()&types.IsFloat != 0:
		switch i.Op {
		case token.ADD:
			return tt.app("f.add", SF64, a, b)
		case token.SUB:
			return tt.app("f.sub", SF64, a, b)
		case token.MUL:
			return tt.app("f.mul", SF64, a, b)
		case token.QUO:
			return tt.app("f.div", SF64, a, b)
		case token.LSS:
			return tt.mk("fp.lt", SBool, a, b)
		case token.LEQ:
			return tt.mk("fp.leq", SBool, a, b)
		case token.GTR:
			return tt.mk("fp.lt", SBool, b, a)
		case token.GEQ:
			return tt.mk("fp.leq", SBool, b, a)
		}
	case u.Info()&types.IsInteger != 0:
		switch i.Op {
		case token.ADD:
			return x.wrap(i.Type(), tt.add(a, b))
		case token.SUB:
			return x.wrap(i.Type(), tt.sub(a, b))
		case token.MUL:
			return x.wrap(i.Type(), tt.mul(a, b))
		case token.QUO, token.REM:
			x.panics(st, "division by zero", tt.neq(b, tt.int(0)), i.Pos())
			if _, ok := intVal(b); !ok {
				return tt.app("int."+i.Op.String(), SInt, a, b)
			}
			if i.Op == token.QUO {
				return x.tdiv(a, b)
			}
			return x.tmod(a, b)
		case token.LSS:
			return tt.lt(a, b)
		case token.LEQ:
			return tt.le(a, b)
		case token.GTR:
			return tt.lt(b, a)
		case token.GEQ:
			return tt.le(b, a)
		case token.SHL:
			if n, ok := intVal(b); ok && n.Int64() < 63 {
				return x.wrap(i.Type(), tt.mul(a, tt.int(1<<uint(n.Int64()))))
			}
		case token.SHR:
			if n, ok := intVal(b); ok && n.Int64() < 63 {
				return tt.mk("div", SInt, a, tt.int(1<<uint(n.Int64())))
			}
		}
		p, ok1 := intVal(a)
		q, ok2 := intVal(b)
		if ok1 && ok2 {
			switch i.Op {
			case token.AND:
				return tt.big(new(big.Int).And(p, q))
			case token.OR:
				return tt.big(new(big.Int).Or(p, q))
			}
		}
		return tt.app("int."+map[token.Token]string{token.AND: "and", token.OR: "or", token.XOR: "xor", token.AND_NOT: "andnot", token.SHL: "shl", token.SHR: "shr"}[i.Op], SInt, a, b)
	}
	panic(unsupported("operator %s on %s", i.Op, i.X.Type()))
}

func (x *Exec) goEqual(st *State, t types.Type, va, vb Val) *Term {
	tt := x.tt
	isNilTerm := func(v Val) bool {
		c, ok := v.(*Term)
		return ok && (c == tt.zero(t))
	}
	// local addresses and closures are not nil
	if _, ok := va.(*Term); !ok {
		va, vb = vb, va
	}
	switch b := vb.(type) {
	case *Closure:
		if isNilTerm(va) {
			return tt.fals()
		}
	case *Addr:
		if isNilTerm(va) {
			if b.ref != nil && len(b.path) == 0 {
				return tt.eq(b.ref, tt.int(0))
			}
			return tt.fals()
		}
		if a, ok := va.(*Addr); ok && a.cell != nil && b.cell != nil && len(a.path)+len(b.path) == 0 {
			return tt.bool(a.cell == b.cell)
		}
	case *SliceCell:
		return tt.fals()
	}
	if _, ok := t.Underlying().(*types.Slice); ok {
		a := x.asTerm(st, va)
		if isNilTerm(vb) {
			return tt.sliceNil(a)
		}
		return tt.sliceNil(x.asTerm(st, vb))
	}
	a, b := x.asTerm(st, va), x.asTerm(st, vb)
	return x.eqDeep(t, a, b)
}

// eqDeep is Go's == on values: floats compare as floats, and nothing is known
// of == on library structs represented by an abstraction.
func (x *Exec) eqDeep(t types.Type, a, b *Term) *Term {
	tt := x.tt
	t = types.Unalias(t)
	if _, ok := x.so.ext[typeKey(t)]; ok {
		if structUnder(t) != nil {
			return tt.app("goeq."+sym(typeKey(t)), SBool, a, b)
		}
		return tt.eq(a, b)
	}
	if a.sort == SF64 {
		return tt.mk("fp.eq", SBool, a, b)
	}
	c := x.so.bySort[a.sort]
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if c == nil {
			break
		}
		var cs []*Term
		for i, f := range c.fields {
			cs = append(cs, x.eqDeep(u.Field(i).Type(), tt.acc(f.name, a), tt.acc(f.name, b)))
		}
		return tt.and(cs...)
	case *types.Array:
		var cs []*Term
		for _, f := range c.fields {
			cs = append(cs, x.eqDeep(u.Elem(), tt.acc(f.name, a), tt.acc(f.name, b)))
		}
		return tt.and(cs...)
	}
	return tt.eq(a, b)
}

func (x *Exec) convert(st *State, from, to types.Type, v Val) Val {
	tt := x.tt
	fu, tu := from.Underlying(), to.Underlying()
	fb, fok := fu.(*types.Basic)
	tb, tok := tu.(*types.Basic)
	t := x.asTerm(st, v)
	switch {
	case fok && tok && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
		fn, fs := intBits(fb)
		tn, ts := intBits(tb)
		switch {
		case fs == ts && fn <= tn, !fs && ts && fn < tn:
			return t
		case ts:
			return x.smod2(t, tn)
		}
		return x.mod2(t, tn)
	case fok && tok && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsFloat != 0:
		if n, ok := intVal(t); ok && n.IsInt64() && n.Int64() < 1<<53 && n.Int64() > -1<<53 {
			return f64Term(tt, float64(n.Int64()))
		}
		return tt.app("i2f", SF64, t)
	case fok && tok && fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsInteger != 0:
		return tt.app("f2i", SInt, t)
	case fok && tok && fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsFloat != 0:
		return t
	case fok && tok && fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
		return t
	case tok && tb.Info()&types.IsString != 0:
		if fok && fb.Info()&types.IsInteger != 0 {
			return tt.app("runestr", x.so.strSort(), t)
		}
		if s, ok := fu.(*types.Slice); ok {
			if e, ok := s.Elem().Underlying().(*types.Basic); ok && e.Kind() == types.Uint8 {
				return tt.sliceSeq(t)
			}
			return tt.app("unrunes", x.so.strSort(), tt.sliceSeq(t))
		}
	case fok && fb.Info()&types.IsString != 0:
		if s, ok := tu.(*types.Slice); ok {
			if e, ok := s.Elem().Underlying().(*types.Basic); ok && e.Kind() == types.Uint8 {
				return tt.mkSlice(tt.fals(), t)
			}
			return tt.mkSlice(tt.fals(), tt.app("runes", x.so.strSort(), t))
		}
	}
	if x.so.of(from) == x.so.of(to) {
		return t
	}
	panic(unsupported("conversion from %s to %s", from, to))
}

func (x *Exec) sliceInstr(fr *Frame, st *State, i *ssa.Slice) Val {
	tt := x.tt
	xt := i.X.Type().Underlying()
	var seq, isnil *Term
	str := false
	switch u := xt.(type) {
	case *types.Pointer:
		a := x.toAddr(st, x.val(st, fr, i.X), i.X.Type(), i.Pos())
		arr := u.Elem().Underlying().(*types.Array)
		v := x.asTerm(st, x.load(st, a))
		c := x.so.bySort[v.sort]
		seq = tt.emp(x.so.of(arr.Elem()))
		for k := len(c.fields) - 1; k >= 0; k-- {
			seq = tt.cat(tt.unit(tt.acc(c.fields[k].name, v)), seq)
		}
		isnil = tt.fals()
	case *types.Slice:
		v := x.val(st, fr, i.X)
		if i.Low == nil && i.High == nil {
			return v
		}
		t := x.asTerm(st, v)
		seq, isnil = tt.sliceSeq(t), tt.sliceNil(t)
	case *types.Basic:
		seq, str = x.term(st, fr, i.X), true
	default:
		panic(unsupported("slice of %s", i.X.Type()))
	}
	lo, hi := tt.int(0), tt.slen(seq)
	if i.Low != nil {
		lo = x.term(st, fr, i.Low)
	}
	if i.High != nil {
		hi = x.term(st, fr, i.High)
	}
	if i.High != nil && x.ownerOf(fr, st, i.X) != nil {
		seq, isnil = x.extend(fr, st, i, seq, isnil, hi)
	}
	x.panics(st, "slice bounds in range", tt.and(tt.le(tt.int(0), lo), tt.le(lo, hi), tt.le(hi, tt.slen(seq))), i.Pos())
	r := tt.subseq(seq, lo, hi)
	if str {
		return r
	}
	return tt.mkSlice(isnil, r)
}

// ---- interfaces ----

func (x *Exec) refLike(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Signature, *types.Chan:
		return true
	}
	return false
}

func (x *Exec) makeInterface(st *State, t types.Type, v *Term) *Term {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return v
	}
	tag := x.tt.int(int64(x.so.tag(t)))
	if x.refLike(t) {
		return x.tt.mkIfc(tag, v)
	}
	n := sym(shortPath(typeKey(types.Unalias(t)), x.p.repo))
	b := x.tt.app("box."+n, SInt, v)
	if !v.bound {
		x.gfactOnce(x.tt.eq(x.tt.app("unbox."+n, v.sort, b), v))
	} else {
		x.boxAxiom(n, v.sort)
	}
	return x.tt.mkIfc(tag, b)
}

// atomicStore obliges an assignment to keep off the fields of shared objects that
// only change through atomic operations.
func (x *Exec) atomicStore(st *State, a *Addr, pos token.Pos) {
	s := structUnder(a.typ)
	if a.ref == nil || s == nil || len(x.p.atomic) == 0 {
		return
	}
	for f := 0; f < s.NumFields(); f++ {
		if len(a.path) > 0 && a.path[0].field != f || !x.p.atomic[typeKey(a.typ)+"."+s.Field(f).Name()] {
			continue
		}
		x.oblige(st, "frame", shortPath(x.fieldKey(types.Unalias(a.typ), f), x.p.repo)+" of a shared object changes by atomic operations only", x.frameTags, x.tt.le(x.tt.app("A0", SInt), a.ref), pos)
	}
}

func (x *Exec) boxAxiom(n string, so Sort) {
	bv := x.tt.boundVar("b", so)
	k := "boxax." + n
	if x.gdef[k] {
		return
	}
	x.gdef[k] = true
	b := x.tt.app("box."+n, SInt, bv)
	x.gfact(x.tt.forall([]*Term{bv}, [][]*Term{{b}}, x.tt.eq(x.tt.app("unbox."+n, so, b), bv)))
}

func (x *Exec) gfactOnce(f *Term) {
	k := fmt.Sprintf("g%d", f.id)
	if x.dry > 0 || x.gdef[k] {
		return
	}
	x.gdef[k] = true
	x.gfact(f)
}

func (x *Exec) hasType(v *Term, t types.Type) *Term {
	if it, ok := t.Underlying().(*types.Interface); ok {
		return x.implTerm(x.tt.ifTag(v), t, it)
	}
	return x.tt.eq(x.tt.ifTag(v), x.tt.int(int64(x.so.tag(t))))
}

func (x *Exec) implTerm(tag *Term, t types.Type, it *types.Interface) *Term {
	if n, ok := intVal(tag); ok {
		k := int(n.Int64())
		if k == 0 {
			return x.tt.fals()
		}
		return x.tt.bool(types.Implements(x.so.tagTypes[k], it))
	}
	if tag.op == "ite" {
		return x.tt.ite(tag.args[0], x.implTerm(tag.args[1], t, it), x.implTerm(tag.args[2], t, it))
	}
	if it.NumMethods() == 0 {
		return x.tt.neq(tag, x.tt.int(0))
	}
	n := "impl." + sym(shortPath(typeKey(t), x.p.repo))
	x.implUsed[n] = it
	return x.tt.app(n, SBool, tag)
}

func (x *Exec) unboxAs(v *Term, t types.Type) *Term {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return v
	}
	ref := x.tt.ifRef(v)
	if x.refLike(t) {
		return ref
	}
	n := sym(shortPath(typeKey(types.Unalias(t)), x.p.repo))
	if ref.op == quoteSym("box."+n) {
		return ref.args[0]
	}
	return x.tt.app("unbox."+n, x.so.of(t), ref)
}

func (x *Exec) typeAssert(fr *Frame, st *State, i *ssa.TypeAssert) Val {
	tt := x.tt
	v := x.term(st, fr, i.X)
	ok := x.hasType(v, i.AssertedType)
	r := x.unboxAs(v, i.AssertedType)
	if i.CommaOk {
		z := tt.zero(i.AssertedType)
		x.typeFactsIf(st, ok, i.AssertedType, r)
		return Tuple{tt.ite(ok, r, z), ok}
	}
	x.panics(st, "type assertion to "+shortPath(typeKey(i.AssertedType), x.p.repo)+" succeeds", ok, i.Pos())
	x.typeFacts(st, i.AssertedType, r)
	return r
}

func (x *Exec) typeFactsIf(st *State, c *Term, t types.Type, v *Term) {
	if isFalse(c) {
		return
	}
	n := *st
	n.pc = x.tt.and(st.pc, c)
	x.typeFacts(&n, t, v)
}

func trimPkg(s string) string {
	if i := strings.LastIndex(s, "/"); i >= 0 {
		return s[i+1:]
	}
	return s
}
