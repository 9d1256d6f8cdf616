package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const maxUnroll = 48

// loop executes a loop whose in-edges have their phis evaluated.
func (x *Exec) loop(fr *Frame, l *Loop, in []*Edge) []*Edge {
	if out, ok := x.unroll(fr, l, in); ok {
		return out
	}
	return x.cutLoop(fr, l, in)
}

func (x *Exec) unroll(fr *Frame, l *Loop, in []*Edge) (out []*Edge, ok bool) {
	items, rets := len(x.items), len(fr.returns)
	gdef, inv := len(x.gdef), len(x.invSeen)
	_, _ = gdef, inv
	edges := make([]*Edge, len(in))
	for i, e := range in {
		n := *e
		n.st = e.st.clone()
		edges[i] = &n
	}
	undo := func() {
		x.items = x.items[:items]
		fr.returns = fr.returns[:rets]
		x.gdef = map[string]bool{}
		x.invSeen = map[string]bool{}
	}
	for iter := 0; ; iter++ {
		st := x.merge(edges)
		if isFalse(st.pc) {
			return out, true
		}
		// does the head decide?
		x.dry++
		es := x.block(fr, l.head, st.clone())
		x.dry--
		feasible := 0
		for _, e := range es {
			if !isFalse(e.st.pc) {
				feasible++
			}
		}
		_, isIf := l.head.Instrs[len(l.head.Instrs)-1].(*ssa.If)
		if feasible != 1 || !isIf || iter > maxUnroll {
			undo()
			return nil, false
		}
		edges = nil
		for _, e := range x.run(fr, l.body, l.head, st) {
			if e.to == l.head {
				x.phis(fr, e)
				edges = append(edges, e)
			} else {
				out = append(out, e)
			}
		}
		if len(edges) == 0 {
			return out, true
		}
	}
}

// LoopVar is something a loop invariant can talk about.
type LoopVar struct {
	name string
	ty   types.Type
	get  func(st *State) Val
	mod  bool
	cell *Cell
}

type Cand struct {
	id   string
	desc string
	at   func(st *State) *Term // value of the candidate in a state of the loop
	user bool
}

type cutInfo struct {
	key   string
	fr    *Frame
	E     *State
	vars  []LoopVar
	extra map[string]func(st *State) SV // $k, $data
	rec   *ModRec
	auto  []autoCand
}

func (x *Exec) cutLoop(fr *Frame, l *Loop, in []*Edge) []*Edge {
	E := x.merge(in)
	if isFalse(E.pc) {
		return nil
	}
	key := fmt.Sprintf("%s/loop%d", fr.path, l.idx)
	x.noteLoop(key)
	var phis []*ssa.Phi
	for _, i := range l.head.Instrs {
		p, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
	}
	for _, p := range phis {
		v, ok := E.regs[rk{fr, p}]
		if !ok {
			panic(unsupported("value %s at the head of a loop", p.Name()))
		}
		if _, ok := v.(*Term); !ok {
			E.regs[rk{fr, p}] = x.asTerm(E, v)
		}
	}
	havocPhis := func(H *State) {
		for _, p := range phis {
			E0 := E.regs[rk{fr, p}].(*Term)
			name := p.Comment
			if name == "" {
				name = p.Name()
			}
			f := x.tt.freshVar(name, E0.sort)
			H.regs[rk{fr, p}] = f
			x.typeFacts(H, p.Type(), f)
		}
	}
	bodyOf := func(H *State) []*Edge { return x.run(fr, l.body, l.head, H) }

	rec := x.modset(key, fr, E, func(H *State) {
		havocPhis(H)
		bodyOf(H)
	})
	ci := &cutInfo{key: key, fr: fr, E: E, rec: rec, extra: map[string]func(*State) SV{}}
	for _, p := range phis {
		p := p
		name := p.Comment
		if name == "" {
			name = p.Name()
		}
		ci.vars = append(ci.vars, LoopVar{name: name, ty: p.Type(), mod: true, get: func(st *State) Val { return st.regs[rk{fr, p}] }})
		if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			ci.vars = append(ci.vars, LoopVar{name: name + "+1", ty: p.Type(), mod: true, get: func(st *State) Val {
				return x.tt.add(st.regs[rk{fr, p}].(*Term), x.tt.int(1))
			}})
		}
	}
	// slices and strings consumed from the front: how much is gone
	for _, p := range phis {
		p := p
		if !slicedIn(l, p.Type()) {
			continue
		}
		seq := func(st *State) *Term {
			t := st.regs[rk{fr, p}].(*Term)
			if x.so.seqs[t.sort] == nil {
				t = x.tt.sliceSeq(t)
			}
			return t
		}
		all := seq(E)
		gone := func(st *State) *Term { return x.tt.sub(x.tt.slen(all), x.tt.slen(seq(st))) }
		name := p.Comment
		if name == "" {
			name = p.Name()
		}
		ci.vars = append(ci.vars, LoopVar{name: name + " consumed", ty: types.Typ[types.Int], mod: true, get: func(st *State) Val {
			if _, ok := st.regs[rk{fr, p}].(*Term); !ok {
				return nil
			}
			return gone(st)
		}})
		ci.auto = append(ci.auto, autoCand{"suffix:" + name, name + " is the rest", func(st *State) *Term {
			return x.tt.and(x.tt.le(x.tt.slen(seq(st)), x.tt.slen(all)), x.tt.eq(seq(st), x.tt.subseq(all, gone(st), x.tt.slen(all))))
		}})
	}
	// the keys a range over a map has visited
	for _, i := range l.head.Instrs {
		if n, ok := i.(*ssa.Next); ok && !n.IsString {
			if it, ok := x.val(E, fr, n.Iter).(*Iter); ok && it.isMap {
				ty := &STy{k: "arr", key: goTy(it.mt.Key()), elem: tBool}
				ci.extra["$seen"] = func(s *State) SV { return SV{s.cells[it.vis], ty} }
				ci.extra["$dom"] = func(s *State) SV { return SV{it.dom0, ty} }
			}
		}
	}
	x.commonVars(ci, rec)
	H := E.clone()
	x.havoc(H, rec)
	havocPhis(H)
	cands := x.candidates(ci, H, l)
	for _, c := range cands {
		x.candOblige(E, c, "on entry")
	}
	for _, c := range cands {
		if !x.dropped[c.id] {
			x.fact(H, c.at(H))
		}
	}
	var out []*Edge
	for _, e := range bodyOf(H) {
		if e.to != l.head {
			out = append(out, e)
			continue
		}
		x.phis(fr, e)
		for _, c := range cands {
			x.candOblige(e.st, c, "preserved")
		}
	}
	return out
}

func (x *Exec) noteLoop(key string) {
	if x.dry == 0 {
		x.loopsRun[key] = true
	}
}

func (x *Exec) candOblige(st *State, c *Cand, what string) {
	if x.dry > 0 || x.dropped[c.id] {
		return
	}
	t := func() (t *Term) {
		defer func() {
			if r := recover(); r != nil {
				switch r.(type) {
				case unsupportedErr, specErr:
					t = x.tt.fals()
				default:
					panic(r)
				}
			}
		}()
		return c.at(st)
	}()
	x.candDesc[c.id] = c.desc
	parts := []*Term{t}
	if t.op == "and" && x.con != nil && x.con.flags["split"] {
		parts = t.args
	}
	for _, t := range parts {
		x.items = append(x.items, Item{ob: &Oblig{Fn: x.owner, Kind: "invariant", Label: c.desc + " " + what, pc: st.pc, goal: t, cand: c.id, Pos: x.posStr(0)}})
	}
}

// modset finds what an iteration may change.
func (x *Exec) modset(key string, fr *Frame, E *State, body func(H *State)) *ModRec {
	if r := x.modcache[key]; r != nil && x.dry == 0 {
		return r
	}
	rec := &ModRec{cells: map[*Cell]bool{}, heap: map[string]bool{}}
	rets := len(fr.returns)
	for {
		H := E.clone()
		x.dry++
		x.havoc(H, rec)
		m := &ModRec{cells: map[*Cell]bool{}, heap: map[string]bool{}}
		x.modrec = append(x.modrec, m)
		body(H)
		x.modrec = x.modrec[:len(x.modrec)-1]
		x.dry--
		fr.returns = fr.returns[:rets]
		changed := false
		for c := range m.cells {
			if _, ok := E.cells[c]; ok && !rec.cells[c] {
				rec.cells[c] = true
				changed = true
			}
		}
		for k := range m.heap {
			if !rec.heap[k] {
				rec.heap[k] = true
				changed = true
			}
		}
		if m.alloc && !rec.alloc {
			rec.alloc = true
			changed = true
		}
		if !changed {
			break
		}
	}
	for _, o := range x.modrec {
		for c := range rec.cells {
			o.cells[c] = true
		}
		for k := range rec.heap {
			o.heap[k] = true
		}
		o.alloc = o.alloc || rec.alloc
	}
	return rec
}

func (x *Exec) havoc(H *State, rec *ModRec) {
	var cells []*Cell
	for c := range rec.cells {
		cells = append(cells, c)
	}
	sort.Slice(cells, func(i, j int) bool { return cells[i].name < cells[j].name })
	for _, c := range cells {
		cur, ok := H.cells[c]
		if !ok {
			continue
		}
		so := c.sort
		if so == "" {
			so = x.so.of(c.typ)
		}
		_ = cur
		if c.immut {
			if p := H.pub[c]; p != nil && !isFalse(p) {
				panic(unsupported("shared immutable object changed in a loop"))
			}
		}
		f := x.tt.freshVar(strings.SplitN(c.name, "#", 2)[0], so)
		H.cells[c] = f
		if c.typ != nil && c.sort == "" {
			x.typeFacts(H, c.typ, f)
		}
		if c.sort != "" && H.pub[c] != nil {
			H.pub[c] = x.tt.tru()
		}
	}
	for _, k := range sortedKeys(rec.heap) {
		H.heap[k] = x.tt.freshVar("H."+sym(k), x.heapS[k])
	}
	if rec.alloc {
		a := x.tt.freshVar("A", SInt)
		x.fact(H, x.tt.le(H.alloc, a))
		H.alloc = a
	}
}

// commonVars adds cells and loop-constant registers.
func (x *Exec) commonVars(ci *cutInfo, rec *ModRec) {
	var cells []*Cell
	for c := range ci.E.cells {
		cells = append(cells, c)
	}
	sort.Slice(cells, func(i, j int) bool { return cells[i].name < cells[j].name })
	for _, c := range cells {
		c := c
		if c.typ == nil && c.sort == "" {
			continue
		}
		v := ci.E.cells[c]
		if _, ok := v.(*Term); !ok {
			if _, ok := v.(*SliceCell); !ok {
				continue
			}
		}
		ci.vars = append(ci.vars, LoopVar{name: c.name, ty: c.typ, mod: rec.cells[c], cell: c, get: func(st *State) Val { return st.cells[c] }})
	}
	seen := map[int]bool{}
	var rks []rk
	for k := range ci.E.regs {
		rks = append(rks, k)
	}
	sort.Slice(rks, func(i, j int) bool {
		if rks[i].f != rks[j].f {
			return rks[i].f.path < rks[j].f.path
		}
		return rks[i].v.Name() < rks[j].v.Name()
	})
	for _, k := range rks {
		t, ok := ci.E.regs[k].(*Term)
		if !ok || seen[t.id] || k.f != ci.fr {
			continue
		}
		seen[t.id] = true
		ci.vars = append(ci.vars, LoopVar{name: k.v.Name(), ty: k.v.Type(), get: func(*State) Val { return t }})
	}
	for i, p := range ci.fr.fn.Params {
		t, ok := ci.fr.params[i].(*Term)
		if !ok || seen[t.id] {
			continue
		}
		seen[t.id] = true
		ci.vars = append(ci.vars, LoopVar{name: p.Name(), ty: p.Type(), get: func(*State) Val { return t }})
	}
}

// holeVal adapts a loop variable to the type of a hole.
func (x *Exec) holeVal(st *State, v LoopVar, ty *STy) (sv SV, ok bool) {
	val := v.get(st)
	if val == nil {
		return SV{}, false
	}
	ws := x.sortOf(ty)
	if sc, ok := val.(*SliceCell); ok {
		t, ok := st.cells[sc.cell].(*Term)
		if !ok || t.sort != ws {
			return SV{}, false
		}
		return SV{t, ty}, true
	}
	t, ok := val.(*Term)
	if !ok {
		return SV{}, false
	}
	if t.sort == ws {
		if ty.g == nil && v.ty != nil && ty.k == "seq" {
			return SV{t, ty}, true
		}
		if ty.g != nil && v.ty != nil && !types.Identical(ty.g.Underlying(), v.ty.Underlying()) {
			return SV{}, false
		}
		return SV{t, ty}, true
	}
	if c := x.so.bySort[t.sort]; c != nil && strings.HasPrefix(c.name, "mkSl_") && ty.k == "seq" {
		s := x.tt.sliceSeq(t)
		if s.sort == ws {
			return SV{s, ty}, true
		}
	}
	return SV{}, false
}

func (x *Exec) baseEnv(st *State) *Env {
	e := &Env{x: x, st: st, old: x.entry, vars: map[string]SV{}, noinv: true}
	if x.con != nil {
		e.pkg, e.file = x.con.pkg, x.con.file
	}
	for k, v := range x.env0 {
		e.vars[k] = v
	}
	return e
}

func (x *Exec) candidates(ci *cutInfo, H *State, l *Loop) []*Cand {
	if x.dry > 0 {
		return nil
	}
	var out []*Cand
	seen := map[int]bool{}
	add := func(id, desc string, user bool, at func(st *State) *Term) {
		id = ci.key + " " + id
		t, ok := func() (t *Term, ok bool) {
			defer func() {
				if r := recover(); r != nil {
					switch e := r.(type) {
					case unsupportedErr:
						ok = false
					case specErr:
						ok = false
						x.specNotes[fmt.Sprintf("%s: %v", id, e)] = true
					default:
						panic(r)
					}
				}
			}()
			return at(H), true
		}()
		if !ok || isTrue(t) || seen[t.id] {
			return
		}
		seen[t.id] = true
		out = append(out, &Cand{id: id, desc: desc, at: at, user: user})
	}
	// user templates
	var invs []LoopInv
	if x.con != nil {
		invs = x.con.invs
	}
	for n, inv := range invs {
		tys := make([]*STy, len(inv.holes))
		opts := make([][]LoopVar, len(inv.holes))
		for i, h := range inv.holes {
			tys[i] = x.resolveTy(x.con.pkg, h.ty)
			for _, v := range ci.vars {
				if _, ok := x.holeVal(H, v, tys[i]); ok {
					if _, ok := x.holeVal(ci.E, v, tys[i]); ok {
						opts[i] = append(opts[i], v)
					}
				}
			}
		}
		pick := make([]LoopVar, len(inv.holes))
		count := 0
		var rec func(i int)
		rec = func(i int) {
			if count > 400 {
				return
			}
			if i < len(pick) {
				for _, v := range opts[i] {
					pick[i] = v
					rec(i + 1)
				}
				return
			}
			// something that changes must be involved
			mod := len(pick) == 0 || ci.extra["$k"] != nil || ci.extra["$seen"] != nil
			var names []string
			for _, v := range pick {
				mod = mod || v.mod
				names = append(names, v.name)
			}
			if !mod {
				return
			}
			count++
			p := append([]LoopVar{}, pick...)
			inv := inv
			add(fmt.Sprintf("inv%d(%s)", n, strings.Join(names, ",")), fmt.Sprintf("%s:%d(%s)", x.con.file, inv.line, strings.Join(names, ",")), true, func(st *State) *Term {
				e := x.baseEnv(st)
				e.entry = ci.E
				e.entryV = map[string]SV{}
				for i, h := range inv.holes {
					sv, ok := x.holeVal(st, p[i], tys[i])
					if !ok {
						panic(unsupported("hole"))
					}
					e.vars[h.name] = sv
					sv, ok = x.holeVal(ci.E, p[i], tys[i])
					if !ok {
						panic(unsupported("hole"))
					}
					e.entryV[h.name] = sv
				}
				for k, f := range ci.extra {
					e.vars[k] = f(st)
					e.entryV[k] = f(ci.E)
				}
				return e.boolTerm(inv.e)
			})
		}
		rec(0)
	}
	// automatic candidates
	for _, v := range ci.vars {
		v := v
		if !v.mod || v.ty == nil && v.cell == nil {
			continue
		}
		if strings.HasSuffix(v.name, "+1") {
			continue
		}
		e0, ok := v.get(ci.E).(*Term)
		if !ok {
			continue
		}
		term := func(st *State) *Term {
			t, ok := v.get(st).(*Term)
			if !ok {
				panic(unsupported("not a term"))
			}
			return t
		}
		if e0.sort == SInt && v.ty != nil {
			if b, ok := v.ty.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				add("ge0:"+v.name, v.name+" >= initial", false, func(st *State) *Term { return x.tt.le(e0, term(st)) })
				add("le0:"+v.name, v.name+" <= initial", false, func(st *State) *Term { return x.tt.le(term(st), e0) })
				add("nn:"+v.name, v.name+" >= 0", false, func(st *State) *Term { return x.tt.le(x.tt.int(0), term(st)) })
			}
		}
		if e0.sort != SInt {
			add("same:"+v.name, v.name+" unchanged", false, func(st *State) *Term { return x.tt.eq(term(st), e0) })
		}
	}
	// objects that existed before keep their contents
	var allowed map[string][]*Term
	if x.con != nil && x.entry != nil {
		_, allowed = x.declared(x.con, x.baseEnv(x.entry))
	}
	for _, k := range sortedKeys(ci.rec.heap) {
		k := k
		if strings.HasPrefix(k, "gv.") || strings.HasPrefix(k, "glob.") {
			continue
		}
		h0 := x.heapRaw(ci.E, k, x.heapS[k])
		old := func(lim *Term) func(st *State) *Term {
			return func(st *State) *Term {
				r := x.tt.boundVar("r", SInt)
				h := x.heapRaw(st, k, x.heapS[k])
				return x.tt.forall([]*Term{r}, [][]*Term{{x.tt.sel(h, r)}}, x.tt.implies(x.tt.and(x.tt.le(x.tt.int(0), r), x.tt.lt(r, lim)), x.tt.eq(x.tt.sel(h, r), x.tt.sel(h0, r))))
			}
		}
		if refs := allowed[k]; len(refs) > 0 {
			add("frameM:"+k, k+" of objects older than the call and not declared unchanged", false, func(st *State) *Term {
				r := x.tt.boundVar("r", SInt)
				h, hE := x.heapRaw(st, k, x.heapS[k]), x.heapRaw(x.entry, k, x.heapS[k])
				cs := []*Term{x.tt.le(x.tt.int(0), r), x.tt.lt(r, x.entry.alloc)}
				for _, l := range refs {
					cs = append(cs, x.tt.neq(r, l))
				}
				return x.tt.forall([]*Term{r}, [][]*Term{{x.tt.sel(h, r)}}, x.tt.implies(x.tt.and(cs...), x.tt.eq(x.tt.sel(h, r), x.tt.sel(hE, r))))
			})
		}
		if x.entry != nil {
			add("frame0:"+k, k+" of objects older than the call unchanged", false, old(x.entry.alloc))
		}
		add("frame:"+k, k+" of objects older than the loop unchanged", false, old(ci.E.alloc))
		for a := range x.p.atomic {
			if shortPath(a, x.p.repo) == k {
				add("all:"+k, k+" unchanged", false, func(st *State) *Term { return x.tt.eq(x.heapRaw(st, k, x.heapS[k]), h0) })
			}
		}
	}
	if l != nil {
		x.boundCands(ci, H, l, add)
	}
	for _, a := range ci.auto {
		add(a.id, a.desc, false, a.at)
	}
	if ci.extra["$seen"] != nil {
		add("seen", "visited keys are in the map", false, func(st *State) *Term {
			seen, dom := ci.extra["$seen"](st).v.(*Term), ci.extra["$dom"](st).v.(*Term)
			ks, _, _ := strings.Cut(strings.TrimPrefix(string(seen.sort), "(Array "), " ")
			k := x.tt.boundVar("k", Sort(ks))
			return x.tt.forall([]*Term{k}, [][]*Term{{x.tt.mk("select", SBool, seen, k)}}, x.tt.implies(x.tt.sel(seen, k), x.tt.sel(dom, k)))
		})
	}
	if ci.extra["$k"] != nil {
		add("k>=0", "k >= 0", false, func(st *State) *Term { return x.tt.le(x.tt.int(0), ci.extra["$k"](st).v.(*Term)) })
		add("k<=n", "k <= n", false, func(st *State) *Term {
			return x.tt.le(ci.extra["$k"](st).v.(*Term), ci.extra["$n"](st).v.(*Term))
		})
	}
	return out
}

// boundCands derives bounds from the comparisons made in the loop.
func (x *Exec) boundCands(ci *cutInfo, H *State, l *Loop, add func(id, desc string, user bool, at func(st *State) *Term)) {
	n := 0
	var blocks []*ssa.BasicBlock
	for b := range l.body {
		blocks = append(blocks, b)
	}
	sort.Slice(blocks, func(i, j int) bool { return blocks[i].Index < blocks[j].Index })
	for _, b := range blocks {
		for _, in := range b.Instrs {
			bo, ok := in.(*ssa.BinOp)
			if !ok {
				continue
			}
			switch bo.Op.String() {
			case "<", "<=", ">", ">=", "!=":
			default:
				continue
			}
			bt, ok := bo.X.Type().Underlying().(*types.Basic)
			if !ok || bt.Info()&types.IsInteger == 0 {
				continue
			}
			for bi, bound := range []ssa.Value{bo.X, bo.Y} {
				var bterm *Term
				if c, ok := bound.(*ssa.Const); ok {
					if _, ok := []ssa.Value{bo.Y, bo.X}[bi].(*ssa.Call); ok && c.Int64() != 0 {
						continue // bounds the result of the call, not a variable
					}
					bterm, _ = x.constVal(c).(*Term)
				} else if call, ok := bound.(*ssa.Call); ok {
					// len(x) computed in the loop of something computed outside
					if bi, ok := call.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
						if v, ok := x.outsideVal(ci, call.Call.Args[0]); ok {
							bterm = x.lenOf(ci.E, v)
						}
					}
				} else if v, ok := x.outsideVal(ci, bound); ok {
					bterm, _ = v.(*Term)
				}
				if bterm == nil || bterm.sort != SInt {
					continue
				}
				for _, v := range ci.vars {
					v := v
					if !v.mod || v.ty == nil || strings.HasSuffix(v.name, "+1") {
						continue
					}
					t, ok := v.get(H).(*Term)
					if !ok || t.sort != SInt {
						continue
					}
					if vb, ok := v.ty.Underlying().(*types.Basic); !ok || vb.Info()&types.IsInteger == 0 {
						continue
					}
					get := func(st *State) *Term {
						t, ok := v.get(st).(*Term)
						if !ok {
							panic(unsupported("not a term"))
						}
						return t
					}
					n++
					add(fmt.Sprintf("lt:%s:%d", v.name, n), v.name+" < bound", false, func(st *State) *Term { return x.tt.lt(get(st), bterm) })
					add(fmt.Sprintf("le:%s:%d", v.name, n), v.name+" <= bound", false, func(st *State) *Term { return x.tt.le(get(st), bterm) })
					add(fmt.Sprintf("ge:%s:%d", v.name, n), v.name+" >= bound", false, func(st *State) *Term { return x.tt.le(bterm, get(st)) })
				}
			}
		}
	}
}

type autoCand struct {
	id, desc string
	at       func(st *State) *Term
}

// slicedIn says whether something of a slice or string type is sliced in a loop.
func slicedIn(l *Loop, t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Slice:
	case *types.Basic:
		if u.Info()&types.IsString == 0 {
			return false
		}
	default:
		return false
	}
	for b := range l.body {
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Slice)
			if !ok || !types.Identical(s.Type().Underlying(), t.Underlying()) {
				continue
			}
			if _, array := s.X.Type().Underlying().(*types.Pointer); !array {
				return true
			}
		}
	}
	return false
}

// outsideVal is the value of something available before the loop.
func (x *Exec) outsideVal(ci *cutInfo, v ssa.Value) (r Val, ok bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, u := e.(unsupportedErr); u {
				ok = false
				return
			}
			panic(e)
		}
	}()
	// a field read in the loop, of something computed outside
	if u, isLoad := v.(*ssa.UnOp); isLoad && u.Op == token.MUL {
		if f, isField := u.X.(*ssa.FieldAddr); isField {
			elem := types.Unalias(f.X.Type().Underlying().(*types.Pointer).Elem())
			b, known := x.outsideVal(ci, f.X)
			if !known {
				return nil, false
			}
			a, isAddr := b.(*Addr)
			if t, isTerm := b.(*Term); isTerm {
				a, isAddr = &Addr{ref: t, typ: elem}, true
			}
			if !isAddr {
				return nil, false
			}
			n := *a
			n.path = append(append([]PathElem{}, a.path...), PathElem{typ: elem, field: f.Field})
			return x.load(ci.E, &n), true
		}
	}
	return x.val(ci.E, ci.fr, v), true
}

// iterate models a library function that calls cb for k = 0..n-1. If stop is
// set the iteration ends at the first non-nil error the callback returns, which
// is then the result.
func (x *Exec) iterate(fr *Frame, st *State, site string, n *Term, data *Term, cb Val, args func(H *State, k *Term) []Val, stop bool, final func(st *State) *Term) (*State, *Term) {
	tt := x.tt
	kc := x.newCell("k", types.Typ[types.Int])
	E := st.clone()
	x.setCell(E, kc, tt.int(0))
	key := fr.path + "/" + site
	x.noteLoop(key)
	cl, ok := cb.(*Closure)
	if !ok {
		if t, isT := cb.(*Term); isT {
			cl = x.clos[t]
		}
		if cl == nil {
			panic(unsupported("callback is not known"))
		}
	}
	type endT struct {
		st  *State
		err *Term
	}
	step := func(H *State) (next []*State, ends []endT) {
		k := H.cells[kc].(*Term)
		B := H.clone()
		B.pc = tt.and(H.pc, tt.lt(k, n))
		X := H.clone()
		X.pc = tt.and(H.pc, tt.not(tt.lt(k, n)))
		ends = append(ends, endT{X, nil})
		outs := x.inlineAll(fr, B, site, cl.fn, cl.bindings, args(B, k))
		for _, o := range outs {
			s := o.st
			if stop {
				e := x.asTerm(s, o.res[0])
				bad := tt.neq(e, tt.nilIfc())
				S := s.clone()
				S.pc = tt.and(s.pc, bad)
				if !isFalse(S.pc) {
					ends = append(ends, endT{S, e})
				}
				s.pc = tt.and(s.pc, tt.not(bad))
			}
			x.setCell(s, kc, tt.add(s.cells[kc].(*Term), tt.int(1)))
			if !isFalse(s.pc) {
				next = append(next, s)
			}
		}
		return
	}
	rec := x.modset(key, fr, E, func(H *State) { step(H) })
	rec.cells[kc] = true
	ci := &cutInfo{key: key, fr: fr, E: E, rec: rec, extra: map[string]func(*State) SV{
		"$k":    func(s *State) SV { return SV{s.cells[kc], tInt} },
		"$n":    func(s *State) SV { return SV{n, tInt} },
		"$data": func(s *State) SV { return SV{data, &STy{k: "seq", elem: tInt}} },
	}}
	x.commonVars(ci, rec)
	H := E.clone()
	x.havoc(H, rec)
	cands := x.candidates(ci, H, nil)
	for _, c := range cands {
		x.candOblige(E, c, "on entry")
	}
	for _, c := range cands {
		if !x.dropped[c.id] {
			x.fact(H, c.at(H))
		}
	}
	next, ends := step(H)
	for _, s := range next {
		for _, c := range cands {
			x.candOblige(s, c, "preserved")
		}
	}
	var sts []*State
	ek := x.newCell("err", types.Universe.Lookup("error").Type())
	for _, e := range ends {
		er := e.err
		if er == nil {
			er = final(e.st)
		}
		e.st.cells[ek] = er
		sts = append(sts, e.st)
	}
	M := x.mergeStates(sts)
	er := M.cells[ek].(*Term)
	delete(M.cells, ek)
	delete(M.cells, kc)
	return M, er
}
