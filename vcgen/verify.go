package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Unit is one thing to verify: a function against its contract, an
// implementation against an interface contract, or a lemma.
type Unit struct {
	name  string
	fn    *ssa.Function
	con   *Contract
	self  types.Type
	lemma *Axiom
	tags  []string
	ftype types.Type // functype contract: the type of the function value
	err   string
	tab   *Table
	obj   *tabObj
}

type UnitReport struct {
	Name     string    `json:"name"`
	Kind     string    `json:"kind"`
	Tags     []string  `json:"tags"`
	Results  []*Result `json:"results"`
	Error    string    `json:"error,omitempty"`
	Rounds   int       `json:"rounds"`
	Ms       int64     `json:"ms"`
	SolverMs int64     `json:"solver_ms"`
	Invs     []string  `json:"invariants,omitempty"`
	Trusted  []string  `json:"trusted,omitempty"`
	Inlined  []string  `json:"inlined,omitempty"`
	Callees  []string  `json:"callees,omitempty"`
	Lemmas   []string  `json:"lemmas,omitempty"`
	Notes    []string  `json:"notes,omitempty"`
}

func (p *Prog) units() []*Unit {
	var out []*Unit
	for _, k := range p.spec.order {
		c := p.spec.contracts[k]
		switch c.kind {
		case "func":
			if !c.bound || c.flags["trusted"] || c.flags["inline"] {
				continue
			}
			for fn, cc := range p.byFn {
				if cc == c {
					out = append(out, &Unit{name: shortPkg(c.pkg) + "." + c.key, fn: fn, con: c, tags: c.allTags()})
				}
			}
		case "iface":
			if c.flags["assumed"] {
				continue
			}
			i := strings.LastIndex(c.key, ".")
			t, _ := p.lookupType(c.pkg, c.key[:i])
			for _, fn := range p.implementers(t.(*types.Named), c.key[i+1:]) {
				cc := *c
				tn := strings.TrimPrefix(trimPkg(typeKey(fn.self)), "*")
				tn = tn[strings.LastIndex(tn, ".")+1:]
				if t := c.impltags[tn]; t != nil {
					cc.tags = t
				}
				ptr := ""
				if _, ok := fn.self.(*types.Pointer); ok {
					ptr = "*"
				}
				out = append(out, &Unit{name: shortPkg(c.pkg) + "." + ptr + tn + "." + c.key[i+1:], fn: fn.fn, con: &cc, self: fn.self, tags: cc.allTags()})
			}
		}
	}
	for _, k := range p.spec.order {
		c := p.spec.contracts[k]
		if c.kind != "functype" || c.flags["assumed"] {
			continue
		}
		t, err := p.funcType(c)
		if err != nil {
			continue
		}
		fns, cls := p.funcValues(t)
		for _, fn := range fns {
			if pa := fn.Parent(); pa != nil && p.byFn[pa] != nil && len(p.byFn[pa].defines) > 0 {
				continue // verified where it is made
			}
			cc := *c
			if tg := c.impltags[strings.TrimSuffix(fn.Name(), "$thunk")]; tg != nil {
				cc.tags = tg
			}
			pn := shortPkg(c.pkg)
			if fn.Pkg != nil {
				pn = shortPkg(fn.Pkg.Pkg.Path())
			}
			out = append(out, &Unit{name: pn + "." + strings.TrimSuffix(fnKey(fn), "$thunk") + " as " + c.key, fn: fn, con: &cc, ftype: t, tags: cc.allTags()})
		}
		for _, mc := range cls {
			if pc := p.byFn[mc.Parent()]; pc == nil || len(pc.defines) == 0 {
				out = append(out, &Unit{name: mc.Fn.String() + " as " + c.key, con: c, tags: c.allTags(), err: "closure of a function type under contract in a function that does not define its properties"})
			}
		}
	}
	for _, t := range p.tables {
		for _, o := range t.objs {
			if len(p.invs[typeKey(o.typ)]) > 0 {
				out = append(out, &Unit{name: "table " + t.name + ": " + o.name, tab: t, obj: o, tags: p.invTags(o.typ)})
			}
		}
	}
	for _, a := range p.spec.axioms {
		if a.lemma {
			out = append(out, &Unit{name: "lemma " + a.name, lemma: a, tags: a.tags})
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].name < out[j].name })
	return out
}

func shortPkg(p string) string {
	if i := strings.LastIndex(p, "/"); i >= 0 {
		return p[i+1:]
	}
	return p
}

func (c *Contract) allTags() []string {
	m := map[string]bool{}
	for _, t := range c.tags {
		m[t] = true
	}
	for _, t := range c.nopanic {
		m[t] = true
	}
	for _, t := range c.frame {
		m[t] = true
	}
	for _, e := range c.ensures {
		for _, t := range e.tags {
			m[t] = true
		}
	}
	for _, e := range c.requires {
		for _, t := range e.tags {
			m[t] = true
		}
	}
	return sortedKeys(m)
}

// gen builds the items of the unit, restarting when a local has to live on the heap.
func (x *Exec) gen(u *Unit) (err error) {
	for i := 0; ; i++ {
		again := false
		func() {
			defer func() {
				if r := recover(); r != nil {
					switch e := r.(type) {
					case needHeap:
						if i > 200 || x.force[e.a] {
							err = fmt.Errorf("cannot place %s", e.a.Comment)
							return
						}
						x.force[e.a] = true
						again = true
					case unsupportedErr:
						err = fmt.Errorf("%s: not supported: %s", x.posStr(0), e.msg)
					case specErr:
						err = e
					default:
						panic(r)
					}
				}
			}()
			x.reset()
			if u.tab != nil {
				x.genTable(u)
			} else if u.lemma != nil {
				x.genLemma(u.lemma)
			} else {
				x.genFn(u)
			}
		}()
		if !again {
			return err
		}
	}
}

func (x *Exec) genLemma(a *Axiom) {
	st := x.emptyState()
	x.entry = st
	x.fnTags = a.tags
	x.useTables(a.uses)
	e := &Env{x: x, pkg: a.pkg, file: a.file, st: st, old: st, vars: map[string]SV{}, noinv: true}
	body := a.e
	if body.k != "quant" || body.v != "forall" {
		x.oblige(st, "lemma", a.name, a.tags, e.boolTerm(body), 0)
		return
	}
	ih := e
	var bvs []*Term
	for _, p := range body.vars {
		ty := x.resolveTy(a.pkg, p.ty)
		so := x.sortOf(ty)
		e.vars[p.name] = SV{x.tt.app("l."+p.name, so), ty}
		if ty.g != nil {
			x.typeFacts(st, ty.g, e.vars[p.name].v.(*Term))
		}
	}
	if a.induct != nil {
		n := &Env{x: x, pkg: a.pkg, file: a.file, st: st, old: st, vars: map[string]SV{}, noinv: true}
		for _, p := range body.vars {
			ty := x.resolveTy(a.pkg, p.ty)
			bv := x.tt.boundVar(p.name, x.sortOf(ty))
			bvs = append(bvs, bv)
			n.vars[p.name] = SV{bv, ty}
		}
		ih = n
		ms := func(en *Env) *Term {
			v := en.eval(a.induct)
			if t, ok := v.v.(*Term); ok && t.sort == SInt {
				return t
			}
			s, _ := en.seqTerm(body, v)
			return x.tt.slen(s)
		}
		var pats [][]*Term
		for _, p := range body.pats {
			var q []*Term
			for _, y := range p {
				q = append(q, ih.term(ih.eval(y)))
			}
			pats = append(pats, q)
		}
		m0, m1 := ms(e), ms(ih)
		b := x.tt.implies(x.tt.and(x.tt.le(x.tt.int(0), m1), x.tt.lt(m1, m0)), ih.boolTerm(body.args[0]))
		x.gfact(x.tt.forall(bvs, pats, b))
	}
	gs := x.goals(e.boolTerm(body.args[0]))
	for i, g := range gs {
		n := a.name
		if len(gs) > 1 {
			n = fmt.Sprintf("%s/%d", n, i)
		}
		x.oblige(st, "lemma", n, a.tags, g, 0)
	}
}

func (x *Exec) genFn(u *Unit) {
	tt := x.tt
	fn, con := u.fn, u.con
	x.con, x.self = con, u.self
	x.fnTags = con.tags
	if len(x.fnTags) == 0 {
		x.fnTags = con.allTags()
	}
	x.panicTags = con.nopanic
	if len(x.panicTags) == 0 {
		x.panicTags = x.fnTags
	} else {
		m := map[string]bool{}
		for _, t := range append(append([]string{}, con.nopanic...), con.tags...) {
			m[t] = true
		}
		x.panicTags = sortedKeys(m)
	}
	x.frameTags = con.frame
	if len(x.frameTags) == 0 {
		x.frameTags = x.fnTags
	}
	st := x.emptyState()
	x.env0 = map[string]SV{}
	fr := &Frame{fn: fn, path: fnKey(fn)}
	x.useTables(con.uses)
	x.fact(st, tt.lt(tt.int(0), st.alloc))
	for i, p := range fn.Params {
		v := tt.app("p."+p.Name(), x.so.of(p.Type()))
		x.typeFacts(st, p.Type(), v)
		if i == 0 && fn.Signature.Recv() != nil && !con.flags["nilok"] {
			if _, ok := p.Type().Underlying().(*types.Pointer); ok {
				x.fact(st, tt.lt(tt.int(0), v))
			}
		}
		fr.params = append(fr.params, v)
	}
	for i, fv := range fn.FreeVars {
		_ = i
		v := tt.app("fv."+fv.Name(), x.so.of(fv.Type()))
		fr.binds = append(fr.binds, v)
	}
	names := con.params
	if u.ftype != nil && len(names) > 0 {
		x.env0[names[0]] = SV{x.asTerm(st, &Closure{fn: fn}), goTy(u.ftype)}
		names = names[1:]
	}
	if len(names) > len(fr.params) {
		panic(specErr{con.file, con.line, fmt.Sprintf("contract names %d parameters, %s has %d", len(con.params), fn, len(fr.params))})
	}
	for i, n := range names {
		if n == "_" {
			continue
		}
		ty := fn.Params[i].Type()
		v := fr.params[i].(*Term)
		if i == 0 && u.self != nil {
			// interface contract: the receiver is the interface value
			iv := x.makeInterface(st, ty, v)
			k := strings.LastIndex(con.key, ".")
			it, _ := x.p.lookupType(con.pkg, con.key[:k])
			x.env0[n] = SV{iv, goTy(it)}
			continue
		}
		x.env0[n] = SV{v, goTy(ty)}
	}
	x.entry = st.clone()
	env := x.baseEnv(st)
	env.noinv = false
	for _, l := range con.lets {
		v := env.eval(l.e)
		env.vars[l.name] = v
		x.env0[l.name] = v
	}
	for _, r := range con.requires {
		t := env.boolTerm(r.e)
		x.fact(st, t)
		x.flagFacts(t)
	}
	x.entry = st.clone()
	if con.owed != nil {
		x.owed = env.boolTerm(con.owed)
	}
	x.call(fr, st)
	// postconditions
	for _, r := range fr.returns {
		if isFalse(r.st.pc) {
			continue
		}
		e := x.baseEnv(r.st)
		e.noinv = false
		e.old = x.entry
		for i, n := range con.results {
			if i >= len(r.res) {
				panic(specErr{con.file, con.line, "too many results in the contract"})
			}
			e.vars[n] = SV{x.asTerm(r.st, r.res[i]), goTy(fn.Signature.Results().At(i).Type())}
		}
		x.curPos = r.pos
		for _, d := range con.defines {
			x.fact(r.st, e.boolTerm(d.e))
		}
		if len(con.defines) > 0 {
			for i, v := range r.res {
				x.checkClosure(fr, r.st, v, fn.Signature.Results().At(i).Type())
			}
		}
		for i, en := range con.ensures {
			tags := en.tags
			if len(tags) == 0 {
				tags = x.fnTags
			}
			lb := en.label
			if lb == "" {
				lb = fmt.Sprintf("ensures %d", i+1)
			}
			x.oblige(r.st, "postcondition", lb, tags, e.boolTerm(en.e), r.pos)
		}
		x.frame(r, con, env)
		x.items = append(x.items, Item{ob: &Oblig{Fn: x.owner, Kind: "vacuity", pc: r.st.pc, goal: tt.fals(), Pos: x.posStr(r.pos)}})
	}
}

// checkClosure obliges a function value made by the function to satisfy the
// contract of its type, whatever the state it is called in.
func (x *Exec) checkClosure(fr *Frame, st0 *State, v Val, t types.Type) {
	con := x.p.ftype[typeKey(types.Unalias(t))]
	if con == nil {
		return
	}
	cl, ok := v.(*Closure)
	if tm, isT := v.(*Term); isT && !ok {
		cl = x.clos[tm]
		ok = cl != nil
	}
	if !ok {
		panic(unsupported("function value returned is not known"))
	}
	tt := x.tt
	st := st0.clone()
	self := x.asTerm(st, cl)
	// the heap at the time of the call is unknown, what the closure captured stays
	keys := map[string]bool{}
	for k := range st.heap {
		keys[k] = true
	}
	for _, k := range sortedKeys(keys) {
		x.heapSet(st, k, tt.freshVar("H."+sym(k), x.heapS[k]))
	}
	a := tt.freshVar("A", SInt)
	x.fact(st, tt.le(st.alloc, a))
	st.alloc = a
	env := &Env{x: x, pkg: con.pkg, file: con.file, st: st, old: st, vars: map[string]SV{}}
	var args []Val
	if len(con.params) > 0 {
		env.vars[con.params[0]] = SV{self, goTy(t)}
	}
	for i, p := range cl.fn.Params {
		f := tt.freshVar("arg."+p.Name(), x.so.of(p.Type()))
		x.typeFacts(st, p.Type(), f)
		args = append(args, f)
		if i+1 < len(con.params) {
			env.vars[con.params[i+1]] = SV{f, goTy(p.Type())}
		}
	}
	for _, r := range con.requires {
		x.fact(st, env.boolTerm(r.e))
	}
	entry := x.entry
	x.entry = st.clone()
	env.old = x.entry
	for _, o := range x.inlineAll(fr, st, "closure", cl.fn, cl.bindings, args) {
		if isFalse(o.st.pc) {
			continue
		}
		e := *env
		e.vars = map[string]SV{}
		for k, v := range env.vars {
			e.vars[k] = v
		}
		e.st = o.st
		for i, n := range con.results {
			e.vars[n] = SV{x.asTerm(o.st, o.res[i]), goTy(cl.fn.Signature.Results().At(i).Type())}
		}
		for i, en := range con.ensures {
			tags := en.tags
			if len(tags) == 0 {
				tags = x.fnTags
			}
			lb := en.label
			if lb == "" {
				lb = fmt.Sprintf("ensures %d", i+1)
			}
			x.oblige(o.st, "function value", con.key+": "+lb, tags, e.boolTerm(en.e), o.pos)
		}
		ev := *env
		ev.st = x.entry
		x.frame(o, con, &ev)
	}
	x.entry = entry
}

// flagFacts makes flags that a precondition settles known, so that the code they
// switch off is not followed.
func (x *Exec) flagFacts(t *Term) {
	v := x.tt.tru()
	switch {
	case t.op == "and":
		for _, a := range t.args {
			x.flagFacts(a)
		}
		return
	case t.op == "not":
		t, v = t.args[0], x.tt.fals()
	}
	if t.op == "select" && t.sort == SBool && !t.bound {
		x.known(t, v)
	}
}

// frame obliges the function to leave alone what it does not declare modified.
func (x *Exec) frame(r *Edge, con *Contract, env0 *Env) {
	tt := x.tt
	env := *env0
	env.st = x.entry
	tags := x.frameTags
	allowAll, at := x.declared(con, &env)
	keys := map[string]bool{}
	for k := range r.st.heap {
		keys[k] = true
	}
	for _, k := range sortedKeys(keys) {
		if allowAll[k] {
			continue
		}
		h1 := r.st.heap[k]
		h0 := x.heapRaw(x.entry, k, x.heapS[k])
		if h1 == h0 {
			continue
		}
		if strings.HasPrefix(k, "gv.") || strings.HasPrefix(k, "glob.") {
			x.oblige(r.st, "frame", k+" is unchanged", tags, tt.eq(h1, h0), r.pos)
			continue
		}
		ref := tt.freshVar("fr", SInt)
		cs := []*Term{tt.le(tt.int(0), ref), tt.lt(ref, x.entry.alloc)}
		for _, l := range at[k] {
			cs = append(cs, tt.neq(ref, l))
		}
		x.oblige(r.st, "frame", "only the declared "+k+" change", tags, tt.implies(tt.and(cs...), tt.eq(tt.sel(h1, ref), tt.sel(h0, ref))), r.pos)
	}
}

// declared lists what a contract declares modified: whole heaps and single objects.
func (x *Exec) declared(con *Contract, env *Env) (allowAll map[string]bool, at map[string][]*Term) {
	allowAll = map[string]bool{}
	at = map[string][]*Term{}
	for _, m := range con.modifies {
		switch m.k {
		case "heap":
			k, _, _ := env.heapKey(m)
			allowAll[k] = true
		case "id":
			allowAll["gv."+m.v] = true
		case "call":
			if m.v == "contents" {
				v := env.eval(m.args[0])
				dk, vk := x.mapKeys(v.ty.g.Underlying().(*types.Map))
				ref := env.term(v)
				at[dk] = append(at[dk], ref)
				at[vk] = append(at[vk], ref)
			}
			if m.v == "maps" {
				v := x.resolveTy(env.pkg, m.ty)
				dk, vk := x.mapKeys(v.g.Underlying().(*types.Map))
				allowAll[dk], allowAll[vk] = true, true
			}
		case "un":
			v := env.eval(m.args[0])
			t := types.Unalias(v.ty.g.Underlying().(*types.Pointer).Elem())
			ref := env.term(v)
			if structUnder(t) != nil && !x.opaqueStruct(t) {
				for i := 0; i < structUnder(t).NumFields(); i++ {
					k := x.fieldKey(t, i)
					at[k] = append(at[k], ref)
				}
			} else {
				k := "ptr." + shortPath(typeKey(t), x.p.repo)
				at[k] = append(at[k], ref)
			}
		case "field":
			v := env.eval(m.args[0])
			t := types.Unalias(v.ty.g.Underlying().(*types.Pointer).Elem())
			k, _, _ := x.fieldHeap(t, m.v)
			at[k] = append(at[k], env.ghostRef(v))
		}
	}
	return
}

// again is an obligation for the other solvers.
type again struct {
	r      *Result
	script string
}

// verifyUnit runs a unit to completion: with the first solver under a few seeds,
// since what it drops in search of invariants depends on luck, then with the others.
func verifyUnit(p *Prog, u *Unit, quick bool) *UnitReport {
	t0 := time.Now()
	rep, redo := attempt(p, u, z3Seed)
	ms := rep.SolverMs
	others := func(redo []again, tl int) (left []again) {
		for i, a := range redo {
			if i >= 12 {
				return append(left, redo[i:]...)
			}
			t1 := time.Now()
			b, ok, out := retry(a.script, tl)
			d := time.Since(t1)
			ms += d.Milliseconds()
			a.r.Ms += d.Milliseconds()
			if ok {
				a.r.Status, a.r.Backend, a.r.Output = "proved", b, ""
			} else {
				a.r.Output += "; " + out
				left = append(left, a)
			}
		}
		return
	}
	if len(redo) > 0 && len(redo) <= 4 {
		redo = others(redo, 4)
	}
	if len(redo) > 0 && rep.Error == "" {
		for _, seed := range []string{"17", "42"} {
			rep2, redo2 := attempt(p, u, seed)
			ms += rep2.SolverMs
			if rep2.Error == "" && len(redo2) < len(redo) {
				rep, redo = rep2, redo2
			}
			if len(redo) == 0 {
				break
			}
		}
	}
	tl := 12
	if quick {
		tl = 4
	}
	others(redo, tl)
	rep.SolverMs = ms
	rep.Ms = time.Since(t0).Milliseconds()
	return rep
}

func attempt(p *Prog, u *Unit, seed string) (*UnitReport, []again) {
	t0 := time.Now()
	rep := &UnitReport{Name: u.name, Tags: u.tags, Kind: "function"}
	if u.lemma != nil {
		rep.Kind = "lemma"
	}
	if u.tab != nil {
		rep.Kind = "table"
	}
	if u.self != nil {
		rep.Kind = "implementation"
	}
	if u.err != "" {
		rep.Error = u.err
		return rep, nil
	}
	x := newExec(p, u.fn, u.con)
	x.owner = u.name
	x.seed = seed
	var uses []string
	var before *Axiom
	if u.tab != nil {
		uses = u.tab.uses
	} else if u.lemma != nil {
		uses, before = u.lemma.uses, u.lemma
	} else {
		uses = u.con.uses
	}
	var solverT time.Duration
	fail := func(err error) (*UnitReport, []again) {
		rep.Error = err.Error()
		rep.Ms = time.Since(t0).Milliseconds()
		return rep, nil
	}
	for round := 0; ; round++ {
		rep.Rounds = round + 1
		if err := x.gen(u); err != nil {
			return fail(err)
		}
		nc := 0
		for _, it := range x.items {
			if it.ob != nil && it.ob.cand != "" {
				nc++
			}
		}
		if nc == 0 {
			break
		}
		items := x.prep()
		axioms := x.relevantAxioms(items, uses, before)
		dropped := 0
		bad := map[string]bool{}
		err := x.session(items, axioms, func(o *Oblig) bool { return o.cand != "" && !bad[o.cand] }, 10000, 3000000, func(o *Oblig, s string, d time.Duration, _ func() string) {
			solverT += d
			if s != "unsat" {
				bad[o.cand] = true
				dropped++
				if trace {
					g := o.goal.String()
					if len(g) > 600 {
						g = g[:600]
					}
					fmt.Fprintf(os.Stderr, "dropped in round %d: %s (%s): %s\n", round, o.Label, s, g)
				}
			}
		})
		if err != nil {
			return fail(err)
		}
		if dropped == 0 {
			// the candidates left are inductive
			for _, it := range x.items {
				if it.ob != nil && it.ob.cand != "" {
					rep.Results = append(rep.Results, &Result{Fn: it.ob.Fn, Kind: it.ob.Kind, Label: it.ob.Label, Pos: it.ob.Pos, Tags: u.tags, Status: "proved", Backend: "z3-4.8.12", cand: it.ob.cand})
				}
			}
			break
		}
		for c := range bad {
			x.dropped[c] = true
		}
		if round > 30 {
			return fail(fmt.Errorf("invariant inference does not converge"))
		}
	}
	items := x.prep()
	axioms := x.relevantAxioms(items, uses, before)
	var redo []again
	reach, vac := 0, 0
	err := x.session(items, axioms, func(o *Oblig) bool { return o.cand == "" }, 2500, 12000000, func(o *Oblig, s string, d time.Duration, script func() string) {
		solverT += d
		if o.Kind == "vacuity" {
			vac++
			if s != "unsat" {
				reach++
			}
			return
		}
		r := &Result{Fn: o.Fn, Kind: o.Kind, Label: o.Label, Pos: o.Pos, Tags: o.Tags, Ms: d.Milliseconds(), Status: "proved", Backend: "z3-4.8.12", cand: o.cand}
		if script == nil {
			r.Backend = "simplifier"
		}
		if s != "unsat" {
			r.Status, r.Backend = "failed", ""
			r.Output = "z3-4.8.12 (e-matching): " + s
			redo = append(redo, again{r, script()})
		}
		rep.Results = append(rep.Results, r)
	})
	if err != nil {
		return fail(err)
	}
	if vac > 0 && reach == 0 && len(redo) == 0 && !(u.con != nil && u.con.flags["vacuous"]) {
		rep.Results = append(rep.Results, &Result{Fn: u.name, Kind: "vacuity", Label: "the contract's assumptions are contradictory on every path", Tags: u.tags, Status: "failed"})
	}
	for c, d := range x.candDesc {
		if !x.dropped[c] {
			rep.Invs = append(rep.Invs, d)
		}
	}
	sort.Strings(rep.Invs)
	rep.Trusted = sortedKeys(x.used)
	rep.Inlined = sortedKeys(x.inlined)
	rep.Callees = sortedKeys(x.callees)
	rep.Lemmas = sortedKeys(x.usedLemmas)
	rep.Notes = sortedKeys(x.specNotes)
	rep.SolverMs = solverT.Milliseconds()
	return rep, redo
}
