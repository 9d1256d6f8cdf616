package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const maxDepth = 14

func (x *Exec) doCall(fr *Frame, st *State, site ssa.Instruction, c *ssa.CallCommon) Val {
	var args []Val
	for _, a := range c.Args {
		args = append(args, x.val(st, fr, a))
	}
	sig := c.Signature()
	if c.IsInvoke() {
		recv := x.term(st, fr, c.Value)
		return x.invoke(fr, st, site, c, recv, args)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return x.builtin(fr, st, site, b, c, args)
	}
	if fn := c.StaticCallee(); fn != nil {
		var binds []Val
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			binds = x.val(st, fr, mc).(*Closure).bindings
		}
		return x.callFn(fr, st, site, fn, binds, args)
	}
	fv := x.val(st, fr, c.Value)
	if t, ok := fv.(*Term); ok {
		if k := x.clos[t]; k != nil {
			fv = k
		}
	}
	if cl, ok := fv.(*Closure); ok {
		return x.callFn(fr, st, site, cl.fn, cl.bindings, args)
	}
	ft := x.asTerm(st, fv)
	x.panics(st, "call of nil function", x.tt.neq(ft, x.tt.int(0)), site.Pos())
	// a merge of known functions
	if leaves := x.fnLeaves(ft); leaves != nil {
		return x.callAny(fr, st, site, ft, leaves, args, sig)
	}
	if con := x.p.ftype[typeKey(types.Unalias(c.Value.Type()))]; con != nil {
		ps := append([]Val{ft}, args...)
		tys := []types.Type{c.Value.Type()}
		for i := 0; i < sig.Params().Len(); i++ {
			tys = append(tys, sig.Params().At(i).Type())
		}
		return x.applyContract(fr, st, site, con, "function value "+trimPkg(typeKey(c.Value.Type())), ps, tys, sig.Results(), false)
	}
	x.used["call of an unknown function value of type "+trimPkg(c.Value.Type().String())+" changes nothing"] = true
	return x.freshResults(st, "dyn", sig.Results())
}

// fnLeaves: an ite over known closures.
func (x *Exec) fnLeaves(t *Term) []*Term {
	if t.op == "ite" {
		a, b := x.fnLeaves(t.args[1]), x.fnLeaves(t.args[2])
		if a == nil || b == nil {
			return nil
		}
		return append(a, b...)
	}
	if x.clos[t] != nil {
		return []*Term{t}
	}
	return nil
}

func (x *Exec) callAny(fr *Frame, st *State, site ssa.Instruction, ft *Term, leaves []*Term, args []Val, sig *types.Signature) Val {
	var sts []*State
	seen := map[*Term]bool{}
	rc := x.newCell("res", nil)
	for _, l := range leaves {
		if seen[l] {
			continue
		}
		seen[l] = true
		s := st.clone()
		s.pc = x.tt.and(st.pc, x.tt.eq(ft, l))
		if isFalse(s.pc) {
			continue
		}
		cl := x.clos[l]
		r := x.callFn(fr, s, site, cl.fn, cl.bindings, args)
		if r == nil {
			r = Tuple{}
		}
		s.cells[rc] = r
		sts = append(sts, s)
	}
	m := x.mergeStates(sts)
	r := m.cells[rc]
	delete(m.cells, rc)
	*st = *m
	return r
}

func (x *Exec) freshResults(st *State, name string, res *types.Tuple) Val {
	var out Tuple
	for i := 0; i < res.Len(); i++ {
		t := res.At(i).Type()
		v := x.tt.freshVar(name, x.so.of(t))
		x.typeFacts(st, t, v)
		out = append(out, v)
	}
	return tupleVal(out)
}

func tupleVal(out Tuple) Val {
	switch len(out) {
	case 0:
		return nil
	case 1:
		return out[0]
	}
	return out
}

func (x *Exec) isRepoFn(fn *ssa.Function) bool {
	if fn.Blocks == nil {
		return false
	}
	if fn.Pkg != nil {
		return x.p.pkgs[fn.Pkg.Pkg.Path()] != nil
	}
	// wrappers, bound methods and instances
	if fn.Origin() != nil && fn.Origin().Pkg != nil {
		return x.p.pkgs[fn.Origin().Pkg.Pkg.Path()] != nil
	}
	return fn.Synthetic != ""
}

func (x *Exec) callFn(fr *Frame, st *State, site ssa.Instruction, fn *ssa.Function, binds []Val, args []Val) Val {
	if con := x.p.byFn[fn]; con != nil && !con.flags["inline"] {
		return x.contractCall(fr, st, site, con, fn, args)
	}
	if con := x.p.ext[fn.String()]; con != nil {
		x.used["assumed contract of "+fn.String()] = true
		return x.contractCall(fr, st, site, con, fn, args)
	}
	if r, ok := x.special(fr, st, site, fn, args); ok {
		return r
	}
	if x.isRepoFn(fn) {
		for f := fr; f != nil; f = f.parent {
			if f.fn == fn {
				if r, ok := x.callImpl(fr, st, site, fn, args); ok {
					return r
				}
				panic(unsupported("recursive function %s needs a contract", fn.Name()))
			}
		}
		if fr.depth >= maxDepth {
			panic(unsupported("inlining too deep at %s", fn.Name()))
		}
		outs := x.inlineAll(fr, st, x.siteKey(fr, site), fn, binds, args)
		return x.joinReturns(st, outs)
	}
	if x.isPure(fn) {
		x.used["pure library function "+fn.String()] = true
		return x.pureCall(st, fn, args)
	}
	x.used["library function "+fn.String()+" does not modify memory of the program; result unconstrained"] = true
	for _, a := range args {
		if ad, ok := a.(*Addr); ok && ad.cell != nil && !ad.cell.immut {
			panic(unsupported("address of local %s passed to %s without contract", ad.cell.name, fn))
		}
	}
	for _, a := range args {
		if _, ok := a.(*Closure); ok {
			panic(unsupported("function passed to %s without contract", fn))
		}
	}
	if fn.Pkg != nil {
		x.touch(st, fn.Pkg.Pkg)
	} else if fn.Object() != nil {
		x.touch(st, fn.Object().Pkg())
	}
	return x.freshResults(st, fn.Name(), fn.Signature.Results())
}

// touch forgets the ghost state a library without contract may change.
func (x *Exec) touch(st *State, pkg *types.Package) {
	if pkg == nil {
		return
	}
	for _, n := range x.p.spec.touches[pkg.Path()] {
		g := x.p.spec.ghostvars[n]
		so := x.sortOf(x.resolveTy(g.pkg, g.ty))
		x.heapRaw(st, "gv."+n, so)
		x.heapSet(st, "gv."+n, x.tt.freshVar("gv."+n, so))
	}
}

func (x *Exec) siteKey(fr *Frame, site ssa.Instruction) string {
	// position of the call among the calls of its function: stable under
	// changes elsewhere in the file
	n := 0
	for _, b := range site.Parent().Blocks {
		for _, in := range b.Instrs {
			if in == site {
				return fmt.Sprintf("%d", n)
			}
			if _, ok := in.(ssa.CallInstruction); ok {
				n++
			}
		}
	}
	return "?"
}

// pureCall applies a library function as an uninterpreted function of its
// arguments; slices are passed as sequences.
func (x *Exec) pureCall(st *State, fn *ssa.Function, args []Val) Val {
	var ts []*Term
	for _, a := range args {
		t := x.asTerm(st, a)
		if c := x.so.bySort[t.sort]; c != nil && strings.HasPrefix(c.name, "mkSl_") {
			t = x.tt.sliceSeq(t)
		}
		ts = append(ts, t)
	}
	var out Tuple
	res := fn.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		v := x.pureApp(fn.String(), i, res.At(i).Type(), ts)
		x.typeFacts(st, res.At(i).Type(), v)
		out = append(out, v)
	}
	return tupleVal(out)
}

// inlineAll executes the body and returns the states at its returns.
func (x *Exec) inlineAll(fr *Frame, st *State, site string, fn *ssa.Function, binds []Val, args []Val) []*Edge {
	nf := &Frame{fn: fn, path: fr.path + "/" + site + ":" + fn.Name(), parent: fr, binds: binds, params: args, depth: fr.depth + 1}
	if x.dry == 0 {
		x.inlined[fn.String()] = true
	}
	pos := x.curPos
	x.call(nf, st)
	x.curPos = pos
	x.curFrame = fr
	return nf.returns
}

func (x *Exec) joinReturns(st *State, outs []*Edge) Val {
	if len(outs) == 0 {
		st.pc = x.tt.fals()
		return nil
	}
	if len(outs) == 1 {
		*st = *outs[0].st
		return tupleVal(outs[0].res)
	}
	rc := x.newCell("ret", nil)
	var sts []*State
	for _, o := range outs {
		o.st.cells[rc] = Tuple(o.res)
		sts = append(sts, o.st)
	}
	m := x.mergeStates(sts)
	r, ok := m.cells[rc]
	if !ok {
		panic(unsupported("results cannot be merged"))
	}
	delete(m.cells, rc)
	*st = *m
	return tupleVal(r.(Tuple))
}

func sigTypes(fn *ssa.Function) []types.Type {
	var tys []types.Type
	sig := fn.Signature
	if sig.Recv() != nil {
		tys = append(tys, sig.Recv().Type())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		tys = append(tys, sig.Params().At(i).Type())
	}
	return tys
}

func (x *Exec) contractCall(fr *Frame, st *State, site ssa.Instruction, con *Contract, fn *ssa.Function, args []Val) Val {
	ptrRecv := false
	if r := fn.Signature.Recv(); r != nil && con.kind == "func" && !con.flags["nilok"] {
		_, ptrRecv = r.Type().Underlying().(*types.Pointer)
	}
	if con.kind == "func" {
		x.callees[fnKey(fn)] = true
	}
	return x.applyContract(fr, st, site, con, fnKey(fn), args, sigTypes(fn), fn.Signature.Results(), ptrRecv)
}

// applyContract replaces a call by its contract.
func (x *Exec) applyContract(fr *Frame, st *State, site ssa.Instruction, con *Contract, name string, args []Val, tys []types.Type, res *types.Tuple, ptrRecv bool) Val {
	if len(con.params) > len(args) {
		panic(specErr{con.file, con.line, fmt.Sprintf("contract of %s names %d parameters, it has %d", name, len(con.params), len(args))})
	}
	pos := token.NoPos
	if site != nil {
		pos = site.Pos()
	}
	env := &Env{x: x, pkg: con.pkg, file: con.file, st: st, old: st, vars: map[string]SV{}}
	for i, p := range con.params {
		if p != "_" {
			env.vars[p] = SV{args[i], goTy(tys[i])}
		}
	}
	if ptrRecv {
		if t, ok := args[0].(*Term); ok {
			x.nonNil(st, t, pos)
		}
	}
	for _, g := range con.ghosts {
		// ghost parameters are chosen by the contract's lets only
		_ = g
	}
	for _, l := range con.lets {
		v := env.eval(l.e)
		env.vars[l.name] = v
	}
	for i, r := range con.requires {
		tags := r.tags
		if len(tags) == 0 {
			tags = x.fnTags
		}
		lb := r.label
		if lb == "" {
			lb = fmt.Sprintf("requires %d", i+1)
		}
		x.oblige(st, "precondition", "of "+name+": "+lb, tags, env.boolTerm(r.e), pos)
	}
	if con.flags["maypanic"] {
		if x.catches() {
			x.calleePanics(env, st, con, name, pos)
		} else if x.con == nil || !x.con.flags["maypanic"] {
			x.panics(st, "call of a function that may panic", x.tt.fals(), pos)
		}
	}
	if con.flags["noreturn"] {
		if x.dry == 0 && fr.parent == nil {
			x.items = append(x.items, Item{ob: &Oblig{Fn: x.owner, Kind: "vacuity", pc: st.pc, goal: x.tt.fals(), Pos: x.posStr(pos)}})
		}
		st.pc = x.tt.fals()
	}
	pre := st.clone()
	env.old = pre
	for _, m := range con.modifies {
		x.havocLoc(env, pre, st, m)
	}
	if !con.flags["pure"] && !con.flags["noalloc"] {
		a := x.tt.freshVar("A", SInt)
		x.fact(st, x.tt.le(st.alloc, a))
		st.alloc = a
		for _, m := range x.modrec {
			m.alloc = true
		}
	}
	var out Tuple
	for i := 0; i < res.Len(); i++ {
		t := res.At(i).Type()
		v := x.tt.freshVar(con.resName(i, name), x.so.of(t))
		x.typeFacts(st, t, v)
		out = append(out, v)
		if i < len(con.results) {
			env.vars[con.results[i]] = SV{v, goTy(t)}
		}
	}
	for _, e := range con.defines {
		x.fact(st, env.boolTerm(e.e))
	}
	for _, e := range con.effects {
		x.fact(st, env.boolTerm(e.e))
	}
	for _, e := range con.ensures {
		x.fact(st, env.boolTerm(e.e))
	}
	return tupleVal(out)
}

func (c *Contract) resName(i int, name string) string {
	n := strings.NewReplacer(".", "_", " ", "_").Replace(name)
	if i < len(c.results) {
		return n + "." + c.results[i]
	}
	return fmt.Sprintf("%s.r%d", n, i)
}

// havocLoc gives a location in a modifies clause an unknown value.
func (x *Exec) havocLoc(env *Env, pre, st *State, m *Expr) {
	tt := x.tt
	pe := *env
	pe.st = pre
	switch m.k {
	case "heap":
		k, so, _ := pe.heapKey(m)
		x.heapGet(st, k, so)
		x.heapSet(st, k, tt.freshVar("H."+sym(k), x.heapS[k]))
		return
	case "id":
		if g, ok := x.p.spec.ghostvars[m.v]; ok {
			so := x.sortOf(x.resolveTy(g.pkg, g.ty))
			x.heapRaw(st, "gv."+m.v, so)
			x.heapSet(st, "gv."+m.v, tt.freshVar("gv."+m.v, so))
			return
		}
	case "call":
		if m.v == "contents" {
			v := pe.eval(m.args[0])
			mt := v.ty.g.Underlying().(*types.Map)
			ref := pe.term(v)
			val, dom := x.mapArrays(st, mt, ref)
			dk, vk := x.mapKeys(mt)
			x.heapSet(st, dk, tt.store(x.heapRaw(st, dk, x.heapS[dk]), ref, tt.freshVar("dom", dom.sort)))
			x.heapSet(st, vk, tt.store(x.heapRaw(st, vk, x.heapS[vk]), ref, tt.freshVar("val", val.sort)))
			return
		}
		if m.v == "maps" {
			v := x.resolveTy(env.pkg, m.ty)
			mt := v.g.Underlying().(*types.Map)
			x.mapArrays(st, mt, tt.int(0))
			dk, vk := x.mapKeys(mt)
			x.heapSet(st, dk, tt.freshVar("H."+dk, x.heapS[dk]))
			x.heapSet(st, vk, tt.freshVar("H."+vk, x.heapS[vk]))
			return
		}
	case "un":
		v := pe.eval(m.args[0])
		pt, ok := v.ty.g.Underlying().(*types.Pointer)
		if !ok {
			env.fail(m, "not a pointer")
		}
		f := tt.freshVar("deref", x.so.of(pt.Elem()))
		x.typeFacts(st, pt.Elem(), f)
		if a, ok := v.v.(*Addr); ok {
			x.storeTo(st, a, f)
			return
		}
		x.storeTo(st, &Addr{ref: pe.term(v), typ: types.Unalias(pt.Elem())}, f)
		return
	case "field":
		v := pe.eval(m.args[0])
		pt, ok := v.ty.g.Underlying().(*types.Pointer)
		if !ok {
			env.fail(m, "field of a non-pointer in modifies")
		}
		t := types.Unalias(pt.Elem())
		k, so, fty := x.fieldHeap(t, m.v)
		if k == "" {
			env.fail(m, "no field %s", m.v)
		}
		f := tt.freshVar("mod."+m.v, so)
		if fty.g != nil {
			x.typeFacts(st, fty.g, f)
		}
		if a, ok := v.v.(*Addr); ok && !strings.Contains(k, ".$") {
			s := structUnder(t)
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == m.v {
					n := *a
					n.path = append(append([]PathElem{}, a.path...), PathElem{typ: t, field: i})
					x.storeTo(st, &n, f)
				}
			}
			return
		}
		ref := pe.ghostRef(v)
		x.heapSet(st, k, tt.store(x.heapGet(st, k, so), ref, f))
		return
	}
	env.fail(m, "cannot modify this")
}

// ---- interface calls ----

func (x *Exec) ifaceContract(t types.Type, m *types.Func) *Contract {
	if c := x.p.ifc[typeKey(types.Unalias(t))+"."+m.Name()]; c != nil {
		return c
	}
	if r := m.Type().(*types.Signature).Recv(); r != nil {
		return x.p.ifc[typeKey(types.Unalias(r.Type()))+"."+m.Name()]
	}
	return nil
}

func (x *Exec) invoke(fr *Frame, st *State, site ssa.Instruction, c *ssa.CallCommon, recv *Term, args []Val) Val {
	tt := x.tt
	sig := c.Signature()
	tag := tt.ifTag(recv)
	x.panics(st, "method call on nil interface", tt.neq(tag, tt.int(0)), site.Pos())
	if con := x.ifaceContract(c.Value.Type(), c.Method); con != nil {
		x.callees[shortPath(typeKey(c.Value.Type()), x.p.repo)+"."+c.Method.Name()+" (interface)"] = true
		ps := append([]Val{recv}, args...)
		tys := []types.Type{c.Value.Type()}
		for i := 0; i < sig.Params().Len(); i++ {
			tys = append(tys, sig.Params().At(i).Type())
		}
		return x.applyContract(fr, st, site, con, trimPkg(typeKey(c.Value.Type()))+"."+c.Method.Name(), ps, tys, sig.Results(), false)
	}
	if n, ok := intVal(tag); ok && n.Sign() > 0 && n.IsInt64() {
		dt := x.so.tagTypes[n.Int64()]
		if fn := x.p.ssa.LookupMethod(dt, c.Method.Pkg(), c.Method.Name()); fn != nil {
			return x.callFn(fr, st, site, fn, nil, append([]Val{x.unboxAs(recv, dt)}, args...))
		}
	}
	key := trimPkg(typeKey(c.Value.Type())) + "." + c.Method.Name()
	if key == "error.Error" {
		return tt.app("errtext", x.so.strSort(), recv)
	}
	x.touch(st, c.Method.Pkg())
	x.used["unknown implementation of "+key+" changes nothing; result unconstrained"] = true
	return x.freshResults(st, c.Method.Name(), sig.Results())
}

// callImpl treats a direct call of a method as a call through the interface
// whose contract it is verified against.
func (x *Exec) callImpl(fr *Frame, st *State, site ssa.Instruction, fn *ssa.Function, args []Val) (Val, bool) {
	for key, con := range x.p.ifc {
		if con.flags["assumed"] || len(args) == 0 {
			continue
		}
		i := strings.LastIndex(con.key, ".")
		if con.key[i+1:] != fn.Name() {
			continue
		}
		t, _ := x.p.lookupType(con.pkg, con.key[:i])
		named, ok := t.(*types.Named)
		if !ok {
			continue
		}
		for _, im := range x.p.implementers(named, fn.Name()) {
			if im.fn != fn {
				continue
			}
			x.callees[shortPath(key, x.p.repo)+" (interface)"] = true
			recv := x.makeInterface(st, im.self, x.asTerm(st, args[0]))
			tys := []types.Type{named}
			for i := 0; i < fn.Signature.Params().Len(); i++ {
				tys = append(tys, fn.Signature.Params().At(i).Type())
			}
			return x.applyContract(fr, st, site, con, fn.Name(), append([]Val{recv}, args[1:]...), tys, fn.Signature.Results(), false), true
		}
	}
	return nil, false
}

// ---- builtins and library models ----

func (x *Exec) builtin(fr *Frame, st *State, site ssa.Instruction, b *ssa.Builtin, c *ssa.CallCommon, args []Val) Val {
	tt := x.tt
	switch b.Name() {
	case "len", "cap":
		t := c.Args[0].Type().Underlying()
		if m, ok := t.(*types.Map); ok {
			ref := x.asTerm(st, args[0])
			_, dom := x.mapArrays(st, m, ref)
			return tt.ite(tt.eq(ref, tt.int(0)), tt.int(0), x.card(dom))
		}
		if p, ok := t.(*types.Pointer); ok {
			return tt.int(p.Elem().Underlying().(*types.Array).Len())
		}
		if a, ok := t.(*types.Array); ok {
			return tt.int(a.Len())
		}
		if b.Name() == "cap" {
			return x.capOf(fr, st, c.Args[0])
		}
		return x.lenOf(st, args[0])
	case "append":
		a := x.asTerm(st, args[0])
		if len(args) == 1 {
			return a
		}
		bv := x.asTerm(st, args[1])
		var bs *Term
		if x.so.seqs[bv.sort] != nil {
			bs = bv // string...
		} else {
			bs = tt.sliceSeq(bv)
		}
		isnil := tt.and(tt.sliceNil(a), tt.eq(tt.slen(bs), tt.int(0)))
		return tt.mkSlice(isnil, tt.cat(tt.sliceSeq(a), bs))
	case "delete":
		m := c.Args[0].Type().Underlying().(*types.Map)
		ref := x.asTerm(st, args[0])
		k := x.asTerm(st, args[1])
		_, dom := x.mapArrays(st, m, ref)
		dk, _ := x.mapKeys(m)
		x.heapSet(st, dk, tt.store(x.heapRaw(st, dk, x.heapS[dk]), ref, tt.store(dom, k, tt.fals())))
		return nil
	case "clear":
		if m, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
			ref := x.asTerm(st, args[0])
			_, dom := x.mapArrays(st, m, ref)
			dk, _ := x.mapKeys(m)
			x.heapSet(st, dk, tt.store(x.heapRaw(st, dk, x.heapS[dk]), ref, tt.constArr(dom.sort, tt.fals())))
			return nil
		}
	case "min", "max":
		r := x.asTerm(st, args[0])
		if r.sort != SInt {
			break
		}
		for _, a := range args[1:] {
			t := x.asTerm(st, a)
			c := tt.le(r, t)
			if b.Name() == "max" {
				c = tt.le(t, r)
			}
			r = tt.ite(c, r, t)
		}
		return r
	case "copy":
		if sc, ok := args[0].(*SliceCell); ok {
			src := x.asTerm(st, args[1])
			if x.so.seqs[src.sort] == nil {
				src = tt.sliceSeq(src)
			}
			dst := st.cells[sc.cell].(*Term)
			n := tt.ite(tt.le(tt.slen(src), tt.slen(dst)), tt.slen(src), tt.slen(dst))
			x.setCell(st, sc.cell, tt.cat(tt.subseq(src, tt.int(0), n), tt.subseq(dst, n, tt.slen(dst))))
			return n
		}
		x.oblige(st, "frame", "no element of a shared slice is assigned", x.frameTags, tt.fals(), site.Pos())
		return tt.freshVar("copied", SInt)
	case "ssa:wrapnilchk":
		return args[0]
	case "print", "println":
		return nil
	case "recover":
		if x.recovered != nil {
			return x.recovered
		}
		return tt.nilIfc()
	}
	panic(unsupported("builtin %s", b.Name()))
}

const jp = "github.com/buger/jsonparser."

func (x *Exec) special(fr *Frame, st *State, site ssa.Instruction, fn *ssa.Function, args []Val) (Val, bool) {
	tt := x.tt
	str := x.so.strSort()
	errT := types.Universe.Lookup("error").Type()
	switch fn.String() {
	case jp + "ArrayEach":
		x.used["model of jsonparser.ArrayEach: calls the callback once per element, in order, without errors"] = true
		data := tt.sliceSeq(x.asTerm(st, args[0]))
		n := tt.app("r.aen", SInt, data)
		x.fact(st, tt.le(tt.int(0), n))
		mk := func(H *State, k *Term) []Val {
			off := tt.freshVar("off", SInt)
			ty := tt.app("r.aet", SInt, data, k)
			return []Val{tt.mkSlice(tt.fals(), tt.app("r.aev", str, data, k)), ty, off, tt.nilIfc()}
		}
		m, err := x.iterate(fr, st, x.siteKey(fr, site)+":ArrayEach", n, data, args[1], mk, false, func(s *State) *Term { return tt.app("r.aeerr", SIfc, data) })
		*st = *m
		x.typeFacts(st, errT, err)
		return Tuple{tt.freshVar("off", SInt), err}, true
	case jp + "ObjectEach":
		x.used["model of jsonparser.ObjectEach: calls the callback once per member, in order, until it returns an error"] = true
		data := tt.sliceSeq(x.asTerm(st, args[0]))
		n := tt.app("r.oen", SInt, data)
		x.fact(st, tt.le(tt.int(0), n))
		mk := func(H *State, k *Term) []Val {
			off := tt.freshVar("off", SInt)
			return []Val{tt.mkSlice(tt.fals(), tt.app("r.oek", str, data, k)), tt.mkSlice(tt.fals(), tt.app("r.oev", str, data, k)), tt.app("r.oet", SInt, data, k), off}
		}
		m, err := x.iterate(fr, st, x.siteKey(fr, site)+":ObjectEach", n, data, args[1], mk, true, func(s *State) *Term { return tt.app("r.oeerr", SIfc, data) })
		*st = *m
		x.typeFacts(st, errT, err)
		return err, true
	case "fmt.Fprintf", "fmt.Fprint", "io.WriteString":
		// into a builder: as writing the text
		ci, ok := site.(ssa.CallInstruction)
		con := x.p.ext["(*strings.Builder).WriteString"]
		if !ok || con == nil || len(args) == 0 {
			break
		}
		mi, ok := ci.Common().Args[0].(*ssa.MakeInterface)
		if !ok || !intoBuilder(mi) {
			break
		}
		var text *Term
		if fn.String() == "io.WriteString" {
			text = x.asTerm(st, args[1])
		} else {
			var ts []*Term
			for _, a := range args[1:] {
				t := x.asTerm(st, a)
				if c := x.so.bySort[t.sort]; c != nil && strings.HasPrefix(c.name, "mkSl_") {
					t = tt.sliceSeq(t)
				}
				ts = append(ts, t)
			}
			if f, ok := x.litOf(ts[0]); ok && fn.String() == "fmt.Fprintf" {
				text = x.sprintf(fr, st, site, f)
			}
			if text == nil {
				text = tt.app("x."+sym(strings.Replace(fn.String(), "Fp", "Sp", 1)), str, ts...)
			}
		}
		ps := []Val{args[0], text}
		tys := []types.Type{mi.X.Type(), types.Typ[types.String]}
		return x.applyContract(fr, st, site, con, "WriteString", ps, tys, fn.Signature.Results(), false), true
	case "fmt.Sprintf", "fmt.Errorf", "fmt.Sprint":
		var ts []*Term
		for _, a := range args {
			t := x.asTerm(st, a)
			if c := x.so.bySort[t.sort]; c != nil && strings.HasPrefix(c.name, "mkSl_") {
				t = tt.sliceSeq(t)
			}
			ts = append(ts, t)
		}
		if fn.String() == "fmt.Errorf" {
			e := tt.app("x.fmt.Errorf", SIfc, ts...)
			x.fact(st, tt.lt(tt.int(0), tt.ifTag(e)))
			x.fact(st, tt.eq(tt.ifTag(e), tt.int(int64(x.so.tag(fmtErrType)))))
			return e, true
		}
		if f, ok := x.litOf(ts[0]); ok && fn.String() == "fmt.Sprintf" {
			if r := x.sprintf(fr, st, site, f); r != nil {
				return r, true
			}
		}
		r := tt.app("x."+sym(fn.String()), str, ts...)
		if f, ok := x.litOf(ts[0]); ok && fn.String() == "fmt.Sprintf" {
			x.fact(st, tt.le(tt.int(int64(literalLen(f))), tt.slen(r)))
		}
		return r, true
	case "math.IsNaN":
		return tt.mk("fp.isNaN", SBool, x.asTerm(st, args[0])), true
	case "errors.As":
		mi, ok := site.(ssa.CallInstruction).Common().Args[1].(*ssa.MakeInterface)
		if !ok {
			break
		}
		pt, ok := mi.X.Type().Underlying().(*types.Pointer)
		if !ok {
			break
		}
		x.used["errors.As: finds an error of the type itself, and what it finds is not nil"] = true
		err := x.asTerm(st, args[0])
		el := pt.Elem()
		a := x.toAddr(st, x.val(st, fr, mi.X), pt, site.Pos())
		found := tt.freshVar("found", SBool)
		was := x.asTerm(st, x.load(st, a))
		v := tt.freshVar("as", was.sort)
		if types.IsInterface(el) {
			x.fact(st, tt.implies(found, tt.lt(tt.int(0), tt.ifTag(v))))
		} else {
			has := x.hasType(err, el)
			x.fact(st, tt.implies(has, tt.and(found, tt.eq(v, x.unboxAs(err, el)))))
			if _, ok := el.Underlying().(*types.Pointer); ok {
				if n, ok := types.Unalias(el.Underlying().(*types.Pointer).Elem()).(*types.Named); ok && n.Obj().Pkg() != nil && !strings.HasPrefix(n.Obj().Pkg().Path(), x.p.repo) {
					has = tt.fals()
				}
				x.fact(st, tt.implies(tt.and(found, tt.not(has)), tt.lt(tt.int(0), v)))
			}
		}
		x.fact(st, tt.implies(tt.eq(tt.ifTag(err), tt.int(0)), tt.not(found)))
		x.storeTo(st, a, tt.ite(found, v, was))
		return found, true
	case "errors.New":
		// a new object each time
		e := tt.freshVar("error", SIfc)
		x.fact(st, tt.eq(tt.ifTag(e), tt.int(int64(x.so.tag(errorStringType)))))
		x.fact(st, tt.eq(tt.ifRef(e), x.newRef(st)))
		x.fact(st, tt.eq(tt.app("errtext", str, e), x.asTerm(st, args[0])))
		return e, true
	}
	return nil, false
}

var fmtErrType = types.NewPointer(types.NewNamed(types.NewTypeName(token.NoPos, types.NewPackage("fmt", "fmt"), "wrapError", nil), types.NewStruct(nil, nil), nil))

// literalLen is the length of what a format string prints whatever its arguments.
// sprintf spells out a constant format whose verbs print strings and integers,
// or returns nil.
func (x *Exec) sprintf(fr *Frame, st *State, site ssa.Instruction, f string) *Term {
	tt := x.tt
	ci, ok := site.(ssa.CallInstruction)
	if !ok || len(ci.Common().Args) < 2 {
		return nil
	}
	vals := variadic(ci.Common().Args[len(ci.Common().Args)-1])
	r := tt.str("")
	n := 0
	lit := ""
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			lit += f[i : i+1]
			continue
		}
		if i++; i == len(f) {
			return nil
		}
		if f[i] == '%' {
			lit += "%"
			continue
		}
		if n >= len(vals) || vals[n] == nil {
			return nil
		}
		t := vals[n].Type()
		n++
		if f[i] == 's' || f[i] == 'v' {
			if v := x.stringer(fr, st, site, vals[n-1]); v != nil {
				r = tt.cat(r, tt.cat(tt.str(lit), v))
				lit = ""
				continue
			}
		}
		b, ok := t.Underlying().(*types.Basic)
		if !ok || types.NewMethodSet(t).Len() > 0 || types.NewMethodSet(types.NewPointer(t)).Len() > 0 {
			return nil
		}
		v := x.term(st, fr, vals[n-1])
		switch {
		case b.Info()&types.IsString != 0 && (f[i] == 's' || f[i] == 'v'):
		case b.Info()&types.IsString != 0 && f[i] == 'q':
			v = x.pureApp("strconv.Quote", 0, types.Typ[types.String], []*Term{v})
		case b.Info()&types.IsInteger != 0 && (f[i] == 'd' || f[i] == 'v'):
			v = x.pureApp("strconv.Itoa", 0, types.Typ[types.String], []*Term{v})
		default:
			return nil
		}
		r = tt.cat(r, tt.cat(tt.str(lit), v))
		lit = ""
	}
	if n != len(vals) {
		return nil
	}
	x.used["fmt.Sprintf: %s and %v print a string as it is, %q as strconv.Quote, %d and %v an integer as strconv.Itoa"] = true
	return tt.cat(r, tt.str(lit))
}

// stringer is the text of an argument that has a String method under contract
// through its interface, and none of the others fmt looks for.
func (x *Exec) stringer(fr *Frame, st *State, site ssa.Instruction, a ssa.Value) *Term {
	t := a.Type()
	if _, ok := t.Underlying().(*types.Interface); !ok {
		return nil
	}
	ms := types.NewMethodSet(t)
	if ms.Lookup(nil, "Error") != nil || ms.Lookup(nil, "Format") != nil {
		return nil
	}
	sel := ms.Lookup(nil, "String")
	if sel == nil {
		return nil
	}
	m := sel.Obj().(*types.Func)
	con := x.ifaceContract(t, m)
	sig := m.Type().(*types.Signature)
	if con == nil || sig.Params().Len() != 0 || sig.Results().Len() != 1 {
		return nil
	}
	x.callees[shortPath(typeKey(t), x.p.repo)+".String (interface)"] = true
	x.used["fmt prints a value with a String method as that method does; no implementation of "+trimPkg(typeKey(t))+" has Error or Format"] = true
	v, _ := x.applyContract(fr, st, site, con, trimPkg(typeKey(t))+".String", []Val{x.term(st, fr, a)}, []types.Type{t}, sig.Results(), false).(*Term)
	return v
}

// intoBuilder tells whether an interface value is only written to, and is a builder.
func intoBuilder(mi *ssa.MakeInterface) bool {
	if mi.X.Type().String() != "*strings.Builder" {
		return false
	}
	for _, u := range *mi.Referrers() {
		c, ok := u.(*ssa.Call)
		if !ok || c.Call.StaticCallee() == nil || len(c.Call.Args) == 0 || c.Call.Args[0] != ssa.Value(mi) {
			return false
		}
		switch c.Call.StaticCallee().String() {
		case "fmt.Fprintf", "fmt.Fprint", "io.WriteString":
		default:
			return false
		}
	}
	return true
}

// variadic finds the values put in the slice of arguments of a call.
func variadic(v ssa.Value) []ssa.Value {
	if c, ok := v.(*ssa.Const); ok && c.IsNil() {
		return []ssa.Value{}
	}
	sl, ok := v.(*ssa.Slice)
	if !ok || sl.Low != nil || sl.High != nil {
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	at, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
	if !ok {
		return nil
	}
	out := make([]ssa.Value, at.Len())
	for _, u := range *al.Referrers() {
		ia, ok := u.(*ssa.IndexAddr)
		if !ok {
			if u == ssa.Instruction(sl) {
				continue
			}
			return nil
		}
		k, ok := ia.Index.(*ssa.Const)
		if !ok {
			return nil
		}
		for _, w := range *ia.Referrers() {
			st, ok := w.(*ssa.Store)
			if !ok || out[k.Int64()] != nil {
				return nil
			}
			switch v := st.Val.(type) {
			case *ssa.MakeInterface:
				out[k.Int64()] = v.X
			case *ssa.ChangeInterface:
				out[k.Int64()] = v.X
			}
		}
	}
	return out
}

func literalLen(f string) int {
	n := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			n++
			continue
		}
		i++
		if i < len(f) && f[i] == '%' {
			n++
			continue
		}
		for i < len(f) && strings.IndexByte("+-# 0123456789.*[]", f[i]) >= 0 {
			i++
		}
	}
	return n
}

// litOf finds the text of a string literal.
func (x *Exec) litOf(t *Term) (string, bool) {
	if !strings.HasPrefix(t.op, "str!") {
		return "", false
	}
	for v, l := range x.tt.strLit {
		if l == t {
			return v, true
		}
	}
	return "", false
}
