package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Slices have no capacity, except those that a field owns: a slice that is reachable
// through that field of its object only can have its elements assigned, and
// can be extended into its capacity.

func (p *Prog) fieldOf(v ssa.Value) (string, *ssa.FieldAddr) {
	f, ok := v.(*ssa.FieldAddr)
	if !ok {
		return "", nil
	}
	t := types.Unalias(f.X.Type().Underlying().(*types.Pointer).Elem())
	s := structUnder(t)
	if s == nil {
		return "", nil
	}
	return typeKey(t) + "." + s.Field(f.Field).Name(), f
}

// soleOwner reports whether slices in field k never get out of it, nor in from elsewhere.
func (p *Prog) soleOwner(k string) bool {
	for _, fn := range p.allFns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				v, ok := in.(ssa.Value)
				if !ok {
					continue
				}
				key, f := p.fieldOf(v)
				if key != k {
					continue
				}
				for _, r := range *f.Referrers() {
					switch r := r.(type) {
					case *ssa.UnOp:
						if !p.stays(r, k, f.X, map[ssa.Value]bool{}) {
							return false
						}
					case *ssa.Store:
						if r.Addr != f || !p.own(r.Val, k, f.X, map[ssa.Value]bool{}) {
							return false
						}
					case *ssa.DebugRef:
					default:
						return false
					}
				}
			}
		}
	}
	return true
}

// stays: a slice taken from field k of obj goes nowhere but back.
func (p *Prog) stays(v ssa.Value, k string, obj ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.IndexAddr:
			for _, u := range *r.Referrers() {
				switch u := u.(type) {
				case *ssa.UnOp, *ssa.DebugRef:
				case *ssa.Store:
					if u.Addr != r {
						return false
					}
				default:
					return false
				}
			}
		case *ssa.Slice, *ssa.Phi:
			for _, u := range *r.(ssa.Value).Referrers() {
				if _, ok := u.(*ssa.IndexAddr); ok {
					return false // would not see elements assigned
				}
			}
			if !p.stays(r.(ssa.Value), k, obj, seen) {
				return false
			}
		case *ssa.Store:
			key, f := p.fieldOf(r.Addr)
			if key != k || f.X != obj || r.Val != v {
				return false
			}
		case *ssa.Call:
			b, ok := r.Call.Value.(*ssa.Builtin)
			if !ok {
				return false
			}
			switch b.Name() {
			case "len", "cap":
			case "append":
				if len(r.Call.Args) > 1 && r.Call.Args[1] == v || !p.stays(r, k, obj, seen) {
					return false
				}
			default:
				return false
			}
		case *ssa.BinOp, *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

// own: what is stored in field k of obj is new or was there.
func (p *Prog) own(v ssa.Value, k string, obj ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.MakeSlice:
		return p.stays(v, k, obj, map[ssa.Value]bool{})
	case *ssa.Slice:
		if a, ok := v.X.(*ssa.Alloc); ok && a.Comment == "slicelit" {
			return p.stays(v, k, obj, map[ssa.Value]bool{})
		}
		return p.own(v.X, k, obj, seen)
	case *ssa.Phi:
		for _, e := range v.Edges {
			if !p.own(e, k, obj, seen) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		key, f := p.fieldOf(v.X)
		return v.Op == token.MUL && key == k && f.X == obj
	case *ssa.Call:
		b, ok := v.Call.Value.(*ssa.Builtin)
		return ok && b.Name() == "append" && p.own(v.Call.Args[0], k, obj, seen)
	}
	return false
}

// ownerOf is the field that v, as it stands, is the slice of.
func (x *Exec) ownerOf(fr *Frame, st *State, v ssa.Value) *Addr {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return nil
	}
	if k, f := x.p.fieldOf(u.X); !x.p.owned[k] || f == nil {
		return nil
	}
	a, ok := x.val(st, fr, u.X).(*Addr)
	if !ok || a.ref == nil || len(a.path) != 1 {
		return nil
	}
	if t, ok := x.val(st, fr, v).(*Term); !ok || x.load(st, a) != t {
		return nil
	}
	return a
}

// capOf is the capacity of a slice: that of an owned one is the same until the field is assigned.
func (x *Exec) capOf(fr *Frame, st *State, v ssa.Value) *Term {
	n := x.tt.freshVar("cap", SInt)
	if a := x.ownerOf(fr, st, v); a != nil {
		k := x.fieldKey(a.typ, a.path[0].field)
		key := fmt.Sprintf("%s %d %d", k, x.heapRaw(st, k, x.heapS[k]).id, a.ref.id)
		if c, ok := x.caps[key]; ok {
			n = c
		}
		x.caps[key] = n
	}
	x.fact(st, x.tt.le(x.lenOf(st, x.val(st, fr, v)), n))
	return n
}

// extend adds to an owned slice of maps what lies between its length and hi, if the
// capacity has it: maps that nothing refers to any more, which makes them as good as new.
func (x *Exec) extend(fr *Frame, st *State, i *ssa.Slice, seq, isnil, hi *Term) (*Term, *Term) {
	tt := x.tt
	if _, ok := i.Type().Underlying().(*types.Slice).Elem().Underlying().(*types.Map); !ok {
		return seq, isnil
	}
	x.used["maps in the spare capacity of "+trimPkg(x.p.ownedName(i.X))+" are referred to from nowhere else"] = true
	n := x.capOf(fr, st, i.X)
	more := tt.freshVar("spare", seq.sort)
	a0 := st.alloc
	x.newRef(st)
	st.alloc = tt.freshVar("alloc", SInt)
	j, k := tt.boundVar("j", SInt), tt.boundVar("k", SInt)
	in := func(v *Term) *Term { return tt.and(tt.le(tt.int(0), v), tt.lt(v, tt.slen(more))) }
	x.fact(st, tt.le(a0, st.alloc))
	x.fact(st, tt.eq(tt.slen(more), tt.sub(n, tt.slen(seq))))
	x.fact(st, tt.forall([]*Term{j}, [][]*Term{{tt.at(more, j)}}, tt.implies(in(j), tt.or(tt.eq(tt.at(more, j), tt.int(0)), tt.and(tt.le(a0, tt.at(more, j)), tt.lt(tt.at(more, j), st.alloc))))))
	x.fact(st, tt.forall([]*Term{j, k}, [][]*Term{{tt.at(more, j), tt.at(more, k)}}, tt.implies(tt.and(in(j), in(k), tt.neq(j, k), tt.neq(tt.at(more, j), tt.int(0))), tt.neq(tt.at(more, j), tt.at(more, k)))))
	longer := tt.lt(tt.slen(seq), hi)
	return tt.ite(longer, tt.cat(seq, more), seq), isnil
}

func (p *Prog) ownedName(v ssa.Value) string {
	k, _ := p.fieldOf(v.(*ssa.UnOp).X)
	return k
}

// elemOwner is the owner of the slice i takes the address of an element of.
func (x *Exec) elemOwner(fr *Frame, st *State, i *ssa.IndexAddr) *Addr {
	a := x.ownerOf(fr, st, i.X)
	if a == nil {
		return nil
	}
	// not in a loop that goes on using the slice as it was read before the loop
	from, at := i.X.(*ssa.UnOp).Block(), i.Block()
	seen := map[*ssa.BasicBlock]bool{from: true}
	var reach func(b *ssa.BasicBlock) bool
	reach = func(b *ssa.BasicBlock) bool {
		for _, s := range b.Succs {
			if s == at && at != from {
				return true
			}
			if !seen[s] {
				seen[s] = true
				if reach(s) {
					return true
				}
			}
		}
		return false
	}
	if reach(at) {
		return nil
	}
	return a
}

// renew lets what was read from the owner of a slice see an element assigned.
func (x *Exec) renew(st *State, a *Addr, t, t2 *Term) {
	k := typeKey(a.typ) + "." + structUnder(a.typ).Field(a.path[0].field).Name()
	for r, v := range st.regs {
		if u, ok := r.v.(*ssa.UnOp); ok && v == Val(t) {
			if f, _ := x.p.fieldOf(u.X); f == k {
				st.regs[r] = t2
			}
		}
	}
}
