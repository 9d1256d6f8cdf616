package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// STy is the type of a specification expression.
type STy struct {
	g    types.Type // Go type, or nil
	k    string     // seq, arr, sort
	elem *STy
	key  *STy
	sort Sort
}

func goTy(t types.Type) *STy { return &STy{g: t} }

var (
	tInt    = goTy(types.Typ[types.Int])
	tBool   = goTy(types.Typ[types.Bool])
	tString = goTy(types.Typ[types.String])
	tNil    = &STy{k: "nil"}
)

// SV is a typed specification value.
type SV struct {
	v  Val
	ty *STy
}

type recInst struct {
	vars []*Term
	body *Term
	sort Sort
}

// Env evaluates specification expressions.
type Env struct {
	x       *Exec
	pkg     string
	file    string
	st, old *State
	entry   *State        // loop entry
	entryV  map[string]SV // holes at loop entry
	vars    map[string]SV
	noinv   bool
	inRec   bool
}

func (e *Env) fail(ex *Expr, f string, a ...any) {
	panic(specErr{e.file, ex.line, fmt.Sprintf(f, a...)})
}

func (x *Exec) sortOf(t *STy) Sort {
	if t.g != nil {
		return x.so.of(t.g)
	}
	switch t.k {
	case "seq":
		return x.so.seqOf(x.sortOf(t.elem)).sort
	case "arr":
		return x.so.array(x.sortOf(t.key), x.sortOf(t.elem))
	}
	if t.sort != SInt && t.sort != SIfc {
		x.so.uninterpreted(t.sort)
	}
	return t.sort
}

func (x *Exec) resolveTy(pkg string, t *Ty) *STy {
	switch t.k {
	case "seq":
		return &STy{k: "seq", elem: x.resolveTy(pkg, t.a)}
	case "arr":
		return &STy{k: "arr", key: x.resolveTy(pkg, t.a), elem: x.resolveTy(pkg, t.b)}
	case "name":
		if x.p.spec.sorts[t.name] {
			return &STy{k: "sort", sort: Sort("U_" + t.name)}
		}
		if t.name == "ref" {
			return &STy{k: "ref", sort: SInt}
		}
	}
	g, err := x.p.resolveGo(pkg, t)
	if err != nil {
		panic(specErr{pkg, 0, err.Error()})
	}
	return goTy(g)
}

func (e *Env) with(name string, v SV) *Env {
	n := *e
	n.vars = make(map[string]SV, len(e.vars)+1)
	for k, x := range e.vars {
		n.vars[k] = x
	}
	n.vars[name] = v
	return &n
}

func (e *Env) term(v SV) *Term { return e.x.asTerm(e.st, v.v) }

func (e *Env) boolTerm(ex *Expr) *Term {
	v := e.eval(ex)
	t := e.term(v)
	if t.sort != SBool {
		e.fail(ex, "boolean expected, found %s", t.sort)
	}
	return t
}

func isSliceTy(t *STy) bool {
	if t.g == nil {
		return false
	}
	_, ok := t.g.Underlying().(*types.Slice)
	return ok
}

// seqTerm coerces slices to their sequence of elements.
func (e *Env) seqTerm(ex *Expr, v SV) (*Term, *STy) {
	if sc, ok := v.v.(*SliceCell); ok {
		sl := v.ty.g.Underlying().(*types.Slice)
		return e.st.cells[sc.cell].(*Term), goTy(sl.Elem())
	}
	t := e.term(v)
	if v.ty.k == "seq" {
		return t, v.ty.elem
	}
	if v.ty.g != nil {
		switch u := v.ty.g.Underlying().(type) {
		case *types.Slice:
			if q := e.x.so.seqs[t.sort]; q != nil { // extsort
				return t, goTy(u.Elem())
			}
			return e.x.tt.sliceSeq(t), goTy(u.Elem())
		case *types.Basic:
			if u.Info()&types.IsString != 0 {
				return t, tInt
			}
		}
	}
	if q := e.x.so.seqs[t.sort]; q != nil && q.elem == SInt {
		return t, tInt
	}
	e.fail(ex, "sequence expected")
	return nil, nil
}

// coerce adapts a value to an expected type.
func (e *Env) coerce(ex *Expr, v SV, want *STy) *Term {
	if v.ty == tNil {
		return e.nilOf(ex, want)
	}
	ws := e.x.sortOf(want)
	if want.k == "seq" || want.g != nil && ws == e.x.so.strSort() {
		t, _ := e.seqTerm(ex, v)
		if t.sort != ws {
			e.fail(ex, "sequence of sort %s, want %s", t.sort, ws)
		}
		return t
	}
	t := e.term(v)
	if t.sort != ws {
		if ws == SIfc && v.ty.g != nil {
			return e.x.makeInterface(e.st, v.ty.g, t)
		}
		e.fail(ex, "value of sort %s, want %s", t.sort, ws)
	}
	return t
}

func (e *Env) nilOf(ex *Expr, want *STy) *Term {
	if want.g != nil {
		return e.x.tt.zero(want.g)
	}
	return e.x.tt.zeroSort(e.x.sortOf(want))
}

func (e *Env) eval(ex *Expr) SV {
	x, tt := e.x, e.x.tt
	switch ex.k {
	case "int":
		n, _ := new(big.Int).SetString(ex.v, 10)
		return SV{tt.big(n), tInt}
	case "str":
		return SV{tt.str(ex.v), tString}
	case "rune":
		for _, r := range ex.v {
			return SV{tt.int(int64(r)), tInt}
		}
		return SV{tt.int(int64(ex.v[0])), tInt}
	case "id":
		return e.ident(ex)
	case "let":
		return e.with(ex.v, e.eval(ex.args[0])).eval(ex.args[1])
	case "old", "pre":
		n := *e
		n.st = e.old
		r := n.eval(ex.args[0])
		return SV{n.x.asTermQ(n.st, r.v), r.ty}
	case "entry":
		n := *e
		if e.entry == nil {
			e.fail(ex, "entry outside of a loop invariant")
		}
		n.st = e.entry
		n.vars = map[string]SV{}
		for k, v := range e.vars {
			n.vars[k] = v
		}
		for k, v := range e.entryV {
			n.vars[k] = v
		}
		r := n.eval(ex.args[0])
		if _, ok := r.v.(*SliceCell); ok {
			t, el := n.seqTerm(ex, r)
			return SV{t, &STy{k: "seq", elem: el}}
		}
		return r
	case "un":
		switch ex.v {
		case "!":
			return SV{tt.not(e.boolTerm(ex.args[0])), tBool}
		case "-":
			v := e.eval(ex.args[0])
			return SV{tt.sub(tt.int(0), e.term(v)), v.ty}
		case "*":
			v := e.eval(ex.args[0])
			return e.deref(ex, v)
		}
	case "bin":
		return e.binary(ex)
	case "ite":
		c := e.boolTerm(ex.args[0])
		a, b := e.eval(ex.args[1]), e.eval(ex.args[2])
		if a.ty == tNil {
			return SV{tt.ite(c, e.nilOf(ex, b.ty), e.term(b)), b.ty}
		}
		if b.ty == tNil {
			return SV{tt.ite(c, e.term(a), e.nilOf(ex, a.ty)), a.ty}
		}
		if a.ty.k == "seq" || b.ty.k == "seq" {
			ta, el := e.seqTerm(ex, a)
			tb, _ := e.seqTerm(ex, b)
			return SV{tt.ite(c, ta, tb), &STy{k: "seq", elem: el}}
		}
		return SV{tt.ite(c, e.term(a), e.coerce(ex, b, a.ty)), a.ty}
	case "quant":
		n := e
		var vars []*Term
		for _, p := range ex.vars {
			ty := x.resolveTy(e.pkg, p.ty)
			bv := tt.boundVar(p.name, x.sortOf(ty))
			vars = append(vars, bv)
			n = n.with(p.name, SV{bv, ty})
		}
		var pats [][]*Term
		for _, p := range ex.pats {
			var q []*Term
			for _, y := range p {
				q = append(q, n.term(n.eval(y)))
			}
			pats = append(pats, q)
		}
		body := n.boolTerm(ex.args[0])
		if ex.v == "forall" {
			return SV{tt.forall(vars, pats, body), tBool}
		}
		return SV{tt.exists(vars, pats, body), tBool}
	case "field":
		return e.field(ex)
	case "index":
		return e.index(ex)
	case "slice":
		v := e.eval(ex.args[0])
		s, el := e.seqTerm(ex, v)
		lo, hi := tt.int(0), tt.slen(s)
		if ex.args[1] != nil {
			lo = e.term(e.eval(ex.args[1]))
		}
		if ex.args[2] != nil {
			hi = e.term(e.eval(ex.args[2]))
		}
		ty := &STy{k: "seq", elem: el}
		if v.ty.g != nil && !isSliceTy(v.ty) {
			ty = v.ty
		}
		return SV{tt.subseq(s, lo, hi), ty}
	case "is":
		v := e.term(e.eval(ex.args[0]))
		ty := x.resolveTy(e.pkg, ex.ty)
		return SV{x.hasType(v, ty.g), tBool}
	case "as":
		v := e.term(e.eval(ex.args[0]))
		ty := x.resolveTy(e.pkg, ex.ty)
		return SV{x.unboxAs(v, ty.g), ty}
	case "iface", "boxed":
		ty := x.resolveTy(e.pkg, ex.ty)
		v := e.coerce(ex, e.eval(ex.args[0]), ty)
		return SV{x.makeInterface(e.st, ty.g, v), goTy(types.NewInterfaceType(nil, nil))}
	case "tag":
		ty := x.resolveTy(e.pkg, ex.ty)
		return SV{tt.int(int64(x.so.tag(ty.g))), tInt}
	case "zero":
		ty := x.resolveTy(e.pkg, ex.ty)
		return SV{tt.zeroSort(x.sortOf(ty)), ty}
	case "empty":
		ty := x.resolveTy(e.pkg, ex.ty)
		return SV{tt.emp(x.sortOf(ty)), &STy{k: "seq", elem: ty}}
	case "mk":
		ty := x.resolveTy(e.pkg, ex.ty)
		c := x.so.bySort[x.sortOf(ty)]
		su := structUnder(ty.g)
		if c == nil || su == nil || len(c.fields) != len(ex.args) {
			e.fail(ex, "mk of %s", ty.g)
		}
		var args []*Term
		for i, a := range ex.args {
			v := e.eval(a)
			ft := goTy(su.Field(i).Type())
			if isSliceTy(ft) && v.ty.k == "seq" {
				args = append(args, tt.mkSlice(tt.fals(), e.term(v)))
				continue
			}
			args = append(args, e.coerce(a, v, ft))
		}
		return SV{tt.ctor(c, args...), ty}
	case "heap":
		key, elem, ety := e.heapKey(ex)
		return SV{x.heapGet(e.st, key, elem), &STy{k: "arr", key: goTy(types.Typ[types.Int]), elem: ety}}
	case "call":
		return e.call(ex)
	}
	e.fail(ex, "cannot evaluate %s", ex.k)
	return SV{}
}

// asTermQ is asTerm for values that may stay addresses.
func (x *Exec) asTermQ(st *State, v Val) Val {
	if _, ok := v.(*Addr); ok {
		return v
	}
	return x.asTerm(st, v)
}

func (e *Env) heapKey(ex *Expr) (string, Sort, *STy) {
	ty := e.x.resolveTy(e.pkg, ex.ty)
	k, so, et := e.x.fieldHeap(ty.g, ex.v)
	if k == "" {
		e.fail(ex, "no field %s", ex.v)
	}
	return k, so, et
}

// fieldHeap finds the heap key of a field or ghost field.
func (x *Exec) fieldHeap(t types.Type, name string) (string, Sort, *STy) {
	t = types.Unalias(t)
	for _, g := range x.p.ghost[typeKey(t)] {
		if g.name == name {
			ty := x.resolveTy(x.ghostPkg(t), g.ty)
			return shortPath(typeKey(t), x.p.repo) + ".$" + name, x.sortOf(ty), ty
		}
	}
	s := structUnder(t)
	if s == nil {
		return "", "", nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return x.fieldKey(t, i), x.so.of(s.Field(i).Type()), goTy(s.Field(i).Type())
		}
	}
	return "", "", nil
}

func (x *Exec) ghostPkg(t types.Type) string {
	for _, g := range x.p.spec.ghostfs {
		if gt, err := x.p.resolveGo(g.pkg, g.ty); err == nil && types.Identical(gt, t) {
			return g.pkg
		}
	}
	return ""
}

func (e *Env) ident(ex *Expr) SV {
	switch ex.v {
	case "true":
		return SV{e.x.tt.tru(), tBool}
	case "false":
		return SV{e.x.tt.fals(), tBool}
	case "nil":
		return SV{nil, tNil}
	}
	if v, ok := e.vars[ex.v]; ok {
		return v
	}
	if g, ok := e.x.p.spec.ghostvars[ex.v]; ok {
		ty := e.x.resolveTy(g.pkg, g.ty)
		return SV{e.x.heapRaw(e.st, "gv."+ex.v, e.x.sortOf(ty)), ty}
	}
	if tp := e.x.p.tpkgs[e.pkg]; tp != nil {
		if o := tp.Scope().Lookup(ex.v); o != nil {
			return e.object(ex, o)
		}
	}
	e.fail(ex, "unknown name %s", ex.v)
	return SV{}
}

func (e *Env) object(ex *Expr, o types.Object) SV {
	switch c := o.(type) {
	case *types.Const:
		return SV{e.x.constTerm(c.Val(), c.Type()), goTy(c.Type())}
	case *types.Var:
		sp := e.x.p.ssa.Package(c.Pkg())
		if sp != nil {
			if g, ok := sp.Members[c.Name()].(*ssa.Global); ok {
				return SV{e.x.globalVal(e.st, g), goTy(c.Type())}
			}
		}
	case *types.Func:
		if fn := e.x.p.ssa.FuncValue(c); fn != nil {
			return SV{e.x.asTerm(e.st, &Closure{fn: fn}), goTy(c.Type())}
		}
	}
	e.fail(ex, "cannot use %s in a specification", o.Name())
	return SV{}
}

func (x *Exec) constTerm(v constant.Value, t types.Type) *Term {
	u := t.Underlying().(*types.Basic)
	switch {
	case u.Info()&types.IsBoolean != 0:
		return x.tt.bool(constant.BoolVal(v))
	case u.Info()&types.IsString != 0:
		return x.tt.str(constant.StringVal(v))
	case u.Info()&types.IsInteger != 0:
		n, _ := new(big.Int).SetString(constant.ToInt(v).ExactString(), 10)
		return x.tt.big(n)
	case u.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(v)
		return f64Term(x.tt, f)
	}
	panic(unsupported("constant of type %s", t))
}

func (e *Env) deref(ex *Expr, v SV) SV {
	if a, ok := v.v.(*Addr); ok {
		p, ok := v.ty.g.Underlying().(*types.Pointer)
		if !ok {
			e.fail(ex, "dereference of a non-pointer")
		}
		return SV{e.x.load(e.st, a), goTy(p.Elem())}
	}
	p, ok := v.ty.g.Underlying().(*types.Pointer)
	if !ok {
		e.fail(ex, "dereference of a non-pointer")
	}
	return SV{e.x.loadHeap(e.st, &Addr{ref: e.term(v), typ: p.Elem()}), goTy(p.Elem())}
}

func (e *Env) field(ex *Expr) SV {
	x := e.x
	// qualified identifier?
	if a := ex.args[0]; a.k == "id" {
		if _, ok := e.vars[a.v]; !ok && x.p.spec.ghostvars[a.v] == nil {
			tp := x.p.tpkgs[e.pkg]
			if tp == nil || tp.Scope().Lookup(a.v) == nil {
				if ip := x.p.importNamed(e.pkg, a.v); ip != nil {
					if o := ip.Scope().Lookup(ex.v); o != nil {
						return e.object(ex, o)
					}
					e.fail(ex, "no %s in package %s", ex.v, a.v)
				}
			}
		}
	}
	v := e.eval(ex.args[0])
	if v.ty.g == nil {
		e.fail(ex, "field %s of a value that is not a struct", ex.v)
	}
	t := types.Unalias(v.ty.g)
	if p, ok := t.Underlying().(*types.Pointer); ok {
		st := types.Unalias(p.Elem())
		for _, g := range x.p.ghost[typeKey(st)] {
			if g.name == ex.v {
				k, so, ty := x.fieldHeap(st, ex.v)
				return SV{x.tt.sel(x.heapGet(e.st, k, so), e.ghostRef(v)), ty}
			}
		}
		s := structUnder(st)
		if s == nil {
			e.fail(ex, "no field %s", ex.v)
		}
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == ex.v {
				ft := goTy(s.Field(i).Type())
				if a, ok := v.v.(*Addr); ok {
					n := *a
					n.path = append(append([]PathElem{}, a.path...), PathElem{typ: st, field: i})
					return SV{x.load(e.st, &n), ft}
				}
				ref := e.term(v)
				if e.noinv || ref.bound {
					if x.isImmut(st) {
						return SV{x.imApp(st, i, ref), ft}
					}
					return SV{x.tt.sel(x.heapGet(e.st, x.fieldKey(st, i), x.so.of(ft.g)), ref), ft}
				}
				return SV{x.readField(e.st, st, i, ref), ft}
			}
		}
		e.fail(ex, "no field %s in %s", ex.v, st)
	}
	if s := structUnder(t); s != nil {
		c := x.so.bySort[x.so.of(t)]
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == ex.v && c != nil {
				return SV{x.tt.acc(c.fields[i].name, e.term(v)), goTy(s.Field(i).Type())}
			}
		}
		for i := 0; i < s.NumFields(); i++ {
			in := structUnder(s.Field(i).Type())
			if !s.Field(i).Embedded() || in == nil || c == nil {
				continue
			}
			for k := 0; k < in.NumFields(); k++ {
				if in.Field(k).Name() == ex.v {
					ic := x.so.bySort[x.so.of(s.Field(i).Type())]
					return SV{x.tt.acc(ic.fields[k].name, x.tt.acc(c.fields[i].name, e.term(v))), goTy(in.Field(k).Type())}
				}
			}
		}
	}
	e.fail(ex, "no field %s in %s", ex.v, t)
	return SV{}
}

// ghostRef is the identity of an object with ghost fields.
func (e *Env) ghostRef(v SV) *Term {
	if a, ok := v.v.(*Addr); ok {
		return e.x.addrRef(e.st, a)
	}
	return e.term(v)
}

func (e *Env) index(ex *Expr) SV {
	tt := e.x.tt
	v := e.eval(ex.args[0])
	i := e.eval(ex.args[1])
	if v.ty.k == "arr" {
		return SV{tt.sel(e.term(v), e.coerce(ex, i, v.ty.key)), v.ty.elem}
	}
	if v.ty.g != nil {
		switch u := v.ty.g.Underlying().(type) {
		case *types.Map:
			k := e.coerce(ex, i, goTy(u.Key()))
			m := e.term(v)
			val, dom := e.x.mapArrays(e.st, u, m)
			_ = dom
			return SV{tt.ite(tt.and(tt.neq(m, tt.int(0)), tt.sel(dom, k)), tt.sel(val, k), tt.zero(u.Elem())), goTy(u.Elem())}
		case *types.Array:
			return SV{e.x.arrSelect(e.term(v), e.x.so.bySort[e.x.so.of(v.ty.g)], e.term(i)), goTy(u.Elem())}
		}
	}
	s, el := e.seqTerm(ex, v)
	return SV{tt.at(s, e.term(i)), el}
}

func isFloat(t *STy) bool {
	if t.g == nil {
		return false
	}
	b, ok := t.g.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func (e *Env) binary(ex *Expr) SV {
	tt := e.x.tt
	switch ex.v {
	case "&&":
		return SV{tt.and(e.boolTerm(ex.args[0]), e.boolTerm(ex.args[1])), tBool}
	case "||":
		return SV{tt.or(e.boolTerm(ex.args[0]), e.boolTerm(ex.args[1])), tBool}
	case "==>":
		return SV{tt.implies(e.boolTerm(ex.args[0]), e.boolTerm(ex.args[1])), tBool}
	case "<==>":
		return SV{tt.eq(e.boolTerm(ex.args[0]), e.boolTerm(ex.args[1])), tBool}
	}
	a, b := e.eval(ex.args[0]), e.eval(ex.args[1])
	switch ex.v {
	case "++":
		s, el := e.seqTerm(ex, a)
		u, _ := e.seqTerm(ex, b)
		ty := &STy{k: "seq", elem: el}
		if a.ty.g != nil && !isSliceTy(a.ty) {
			ty = a.ty
		}
		return SV{tt.cat(s, u), ty}
	case "==", "!=":
		t := e.equal(ex, a, b)
		if ex.v == "!=" {
			t = tt.not(t)
		}
		return SV{t, tBool}
	}
	l, r := e.term(a), e.term(b)
	if isFloat(a.ty) {
		switch ex.v {
		case "<":
			return SV{tt.mk("fp.lt", SBool, l, r), tBool}
		case "<=":
			return SV{tt.mk("fp.leq", SBool, l, r), tBool}
		case ">":
			return SV{tt.mk("fp.lt", SBool, r, l), tBool}
		case ">=":
			return SV{tt.mk("fp.leq", SBool, r, l), tBool}
		case "+":
			return SV{tt.app("f.add", SF64, l, r), a.ty}
		case "-":
			return SV{tt.app("f.sub", SF64, l, r), a.ty}
		case "*":
			return SV{tt.app("f.mul", SF64, l, r), a.ty}
		case "/":
			return SV{tt.app("f.div", SF64, l, r), a.ty}
		}
	}
	if l.sort != SInt || r.sort != SInt {
		e.fail(ex, "operator %s on %s and %s", ex.v, l.sort, r.sort)
	}
	switch ex.v {
	case "<":
		return SV{tt.lt(l, r), tBool}
	case "<=":
		return SV{tt.le(l, r), tBool}
	case ">":
		return SV{tt.lt(r, l), tBool}
	case ">=":
		return SV{tt.le(r, l), tBool}
	case "+":
		return SV{tt.add(l, r), a.ty}
	case "-":
		return SV{tt.sub(l, r), a.ty}
	case "*":
		return SV{tt.mul(l, r), a.ty}
	case "/":
		return SV{e.x.tdiv(l, r), a.ty}
	case "%":
		return SV{e.x.tmod(l, r), a.ty}
	}
	e.fail(ex, "operator %s", ex.v)
	return SV{}
}

func (e *Env) equal(ex *Expr, a, b SV) *Term {
	tt := e.x.tt
	if a.ty == tNil && b.ty == tNil {
		return tt.tru()
	}
	if a.ty == tNil {
		a, b = b, a
	}
	if b.ty == tNil {
		if _, ok := a.v.(*SliceCell); ok {
			return tt.fals()
		}
		if ad, ok := a.v.(*Addr); ok && ad != nil {
			if ad.ref == nil || len(ad.path) > 0 {
				return tt.fals()
			}
		}
		t := e.term(a)
		if isSliceTy(a.ty) {
			return tt.sliceNil(t)
		}
		return tt.eq(t, e.nilOf(ex, a.ty))
	}
	if a.ty.k == "seq" || b.ty.k == "seq" || isSliceTy(a.ty) && isSliceTy(b.ty) {
		s, _ := e.seqTerm(ex, a)
		u, _ := e.seqTerm(ex, b)
		if s.sort != u.sort {
			e.fail(ex, "comparison of %s and %s", s.sort, u.sort)
		}
		return tt.eq(s, u)
	}
	if isFloat(a.ty) && isFloat(b.ty) {
		return tt.mk("fp.eq", SBool, e.term(a), e.term(b))
	}
	l, r := e.term(a), e.term(b)
	if l.sort != r.sort {
		if l.sort == SIfc && b.ty.g != nil {
			return tt.eq(l, e.x.makeInterface(e.st, b.ty.g, r))
		}
		if r.sort == SIfc && a.ty.g != nil {
			return tt.eq(e.x.makeInterface(e.st, a.ty.g, l), r)
		}
		e.fail(ex, "comparison of %s and %s", l.sort, r.sort)
	}
	return tt.eq(l, r)
}

func (e *Env) call(ex *Expr) SV {
	x, tt := e.x, e.x.tt
	switch ex.v {
	case "len":
		v := e.eval(ex.args[0])
		if v.ty.g != nil {
			if m, ok := v.ty.g.Underlying().(*types.Map); ok {
				_, dom := x.mapArrays(e.st, m, e.term(v))
				return SV{x.card(dom), tInt}
			}
		}
		s, _ := e.seqTerm(ex, v)
		return SV{tt.slen(s), tInt}
	case "seq":
		v := e.eval(ex.args[0])
		s, el := e.seqTerm(ex, v)
		return SV{s, &STy{k: "seq", elem: el}}
	case "unit":
		v := e.eval(ex.args[0])
		return SV{tt.unit(e.term(v)), &STy{k: "seq", elem: v.ty}}
	case "upd":
		v := e.eval(ex.args[0])
		if v.ty.k == "arr" {
			return SV{tt.store(e.term(v), e.coerce(ex, e.eval(ex.args[1]), v.ty.key), e.coerce(ex, e.eval(ex.args[2]), v.ty.elem)), v.ty}
		}
		s, el := e.seqTerm(ex, v)
		return SV{tt.upd(s, e.term(e.eval(ex.args[1])), e.term(e.eval(ex.args[2]))), &STy{k: "seq", elem: el}}
	case "same":
		// identity of the SMT values (floats: bitwise up to NaN)
		return SV{tt.eq(e.term(e.eval(ex.args[0])), e.term(e.eval(ex.args[1]))), tBool}
	case "dom":
		v := e.eval(ex.args[0])
		m := v.ty.g.Underlying().(*types.Map)
		_, dom := x.mapArrays(e.st, m, e.term(v))
		return SV{dom, &STy{k: "arr", key: goTy(m.Key()), elem: tBool}}
	case "mval":
		v := e.eval(ex.args[0])
		m := v.ty.g.Underlying().(*types.Map)
		val, _ := x.mapArrays(e.st, m, e.term(v))
		return SV{val, &STy{k: "arr", key: goTy(m.Key()), elem: goTy(m.Elem())}}
	case "constarr":
		// constarr(sample array, value)
		v := e.eval(ex.args[0])
		return SV{tt.constArr(e.term(v).sort, e.coerce(ex, e.eval(ex.args[1]), v.ty.elem)), v.ty}
	case "tagof":
		return SV{tt.ifTag(e.term(e.eval(ex.args[0]))), tInt}
	case "refof":
		return SV{tt.ifRef(e.term(e.eval(ex.args[0]))), &STy{k: "ref", sort: SInt}}
	case "id":
		return SV{e.term(e.eval(ex.args[0])), &STy{k: "ref", sort: SInt}}
	case "errtext":
		return SV{tt.app("errtext", x.so.strSort(), e.term(e.eval(ex.args[0]))), goTy(types.Typ[types.String])}
	case "funcval":
		// a function that is in a table, by name
		for _, t := range x.p.tables {
			for _, f := range t.fns {
				if strings.TrimSuffix(fnKey(f), "$thunk") == ex.args[0].v {
					return SV{x.closureTerm(nil, &Closure{fn: f}), &STy{k: "ref", sort: SInt}}
				}
			}
		}
		return SV{tt.app("fn.missing."+ex.args[0].v, SInt), &STy{k: "ref", sort: SInt}}
	case "tabidx":
		return SV{tt.app("tabidx", SInt, e.term(e.eval(ex.args[0]))), tInt}
	case "fresh":
		v := e.eval(ex.args[0])
		t := e.term(v)
		if t.sort == SIfc {
			t = tt.ifRef(t)
		}
		return SV{tt.and(tt.le(e.old.alloc, t), tt.lt(t, e.st.alloc)), tBool}
	case "allocated":
		v := e.eval(ex.args[0])
		t := e.term(v)
		return SV{tt.and(tt.lt(tt.int(0), t), tt.lt(t, e.st.alloc)), tBool}
	case "isNaN":
		return SV{tt.mk("fp.isNaN", SBool, e.term(e.eval(ex.args[0]))), tBool}
	case "i2f":
		t := e.term(e.eval(ex.args[0]))
		if n, ok := intVal(t); ok && n.IsInt64() && n.Int64() < 1<<53 && n.Int64() > -1<<53 {
			return SV{f64Term(tt, float64(n.Int64())), goTy(types.Typ[types.Float64])}
		}
		return SV{tt.app("i2f", SF64, t), goTy(types.Typ[types.Float64])}
	case "runes":
		s, _ := e.seqTerm(ex, e.eval(ex.args[0]))
		return SV{tt.app("runes", x.so.strSort(), s), &STy{k: "seq", elem: goTy(types.Typ[types.Rune])}}
	case "unrunes":
		s, _ := e.seqTerm(ex, e.eval(ex.args[0]))
		return SV{tt.app("unrunes", x.so.strSort(), s), tString}
	case "runestr":
		return SV{tt.app("runestr", x.so.strSort(), e.term(e.eval(ex.args[0]))), tString}
	}
	if d := x.p.spec.recs[ex.v]; d != nil {
		return e.specCall(ex, d)
	}
	if i := strings.Index(ex.v, "."); i >= 0 {
		return e.libCall(ex, ex.v[:i], ex.v[i+1:])
	}
	e.fail(ex, "unknown function %s", ex.v)
	return SV{}
}

func (e *Env) specCall(ex *Expr, d *RecDef) SV {
	x := e.x
	if len(ex.args) != len(d.params) {
		e.fail(ex, "%s takes %d arguments", d.name, len(d.params))
	}
	args := make([]*Term, len(ex.args))
	tys := make([]*STy, len(ex.args))
	for i, a := range ex.args {
		tys[i] = x.resolveTy(d.pkg, d.params[i].ty)
		args[i] = e.coerce(a, e.eval(a), tys[i])
	}
	res := x.resolveTy(d.pkg, d.res)
	if d.kind == "def" {
		n := &Env{x: x, pkg: d.pkg, file: d.file, st: e.st, old: e.old, vars: map[string]SV{}, noinv: e.noinv}
		for i, p := range d.params {
			n.vars[p.name] = SV{args[i], tys[i]}
		}
		v := n.eval(d.body)
		return SV{n.coerce(d.body, v, res), res}
	}
	so := x.sortOf(res)
	t := x.tt.app("r."+d.name, so, args...)
	return SV{t, res}
}

// recBodyOf evaluates the definition of a recursive function once.
func (x *Exec) recBodyOf(d *RecDef) *recInst {
	if r := x.recBody[d.name]; r != nil {
		return r
	}
	st := x.emptyState()
	e := &Env{x: x, pkg: d.pkg, file: d.file, st: st, old: st, vars: map[string]SV{}, noinv: true, inRec: true}
	r := &recInst{}
	x.recBody[d.name] = r
	for _, p := range d.params {
		ty := x.resolveTy(d.pkg, p.ty)
		bv := x.tt.boundVar(p.name, x.sortOf(ty))
		r.vars = append(r.vars, bv)
		e.vars[p.name] = SV{bv, ty}
	}
	res := x.resolveTy(d.pkg, d.res)
	r.sort = x.sortOf(res)
	r.body = e.coerce(d.body, e.eval(d.body), res)
	return r
}

func (x *Exec) emptyState() *State {
	return &State{pc: x.tt.tru(), cells: map[*Cell]Val{}, pub: map[*Cell]*Term{}, heap: map[string]*Term{}, regs: map[rk]Val{}, alloc: x.tt.app("A0", SInt)}
}

// libCall applies a pure library function or method: pkg.f, pkg.T.m, with $1
// for the second result.
func (e *Env) libCall(ex *Expr, pkg, name string) SV {
	x := e.x
	idx := 0
	if i := strings.Index(name, "$"); i >= 0 {
		fmt.Sscan(name[i+1:], &idx)
		name = name[:i]
	}
	ip := x.p.importNamed(e.pkg, pkg)
	if ip == nil {
		e.fail(ex, "unknown package %s", pkg)
	}
	var f *types.Func
	full := ip.Path() + "." + name
	var pts []types.Type
	if i := strings.Index(name, "."); i >= 0 {
		tn, ok := ip.Scope().Lookup(name[:i]).(*types.TypeName)
		if !ok {
			e.fail(ex, "unknown type %s.%s", pkg, name[:i])
		}
		o, _, _ := types.LookupFieldOrMethod(types.NewPointer(tn.Type()), true, ip, name[i+1:])
		f, _ = o.(*types.Func)
		if f != nil {
			full = f.FullName()
			pts = append(pts, f.Type().(*types.Signature).Recv().Type())
		}
	} else {
		f, _ = ip.Scope().Lookup(name).(*types.Func)
	}
	if f == nil {
		e.fail(ex, "unknown function %s.%s", pkg, name)
	}
	sig := f.Type().(*types.Signature)
	for i := 0; i < sig.Params().Len(); i++ {
		pts = append(pts, sig.Params().At(i).Type())
	}
	fixed := len(pts)
	if sig.Variadic() {
		fixed--
	}
	if len(ex.args) < fixed || len(ex.args) > fixed && !sig.Variadic() {
		e.fail(ex, "%s.%s takes %d arguments", pkg, name, len(pts))
	}
	var args []*Term
	for i, pt := range pts[:fixed] {
		a := ex.args[i]
		v := e.eval(a)
		ty := goTy(pt)
		if isSliceTy(ty) {
			t, _ := e.seqTerm(a, v)
			args = append(args, t)
			continue
		}
		args = append(args, e.coerce(a, v, ty))
	}
	if sig.Variadic() {
		el := goTy(pts[fixed].(*types.Slice).Elem())
		t := x.tt.emp(x.sortOf(el))
		if len(ex.args) == fixed+1 {
			v := e.eval(ex.args[fixed])
			if (v.ty.k == "seq" || isSliceTy(v.ty)) && !isSliceTy(el) {
				s, _ := e.seqTerm(ex.args[fixed], v)
				if s.sort == t.sort {
					rt := sig.Results().At(idx).Type()
					x.used["pure library function "+full] = true
					return SV{x.pureApp(full, idx, rt, append(args, s)), goTy(rt)}
				}
			}
		}
		for _, a := range ex.args[fixed:] {
			t = x.tt.cat(t, x.tt.unit(e.coerce(a, e.eval(a), el)))
		}
		args = append(args, t)
	}
	rt := sig.Results().At(idx).Type()
	x.used["pure library function "+full] = true
	return SV{x.pureApp(full, idx, rt, args), goTy(rt)}
}
