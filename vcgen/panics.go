package main

import (
	"fmt"
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// ---- defer, panic and recover ----

func (x *Exec) deferCall(fr *Frame, st *State, i *ssa.Defer) {
	for _, l := range fr.loops.byHead {
		if l.body[i.Block()] {
			panic(unsupported("defer in a loop"))
		}
	}
	d := &deferred{in: i, guard: st.pc}
	for _, a := range i.Call.Args {
		d.args = append(d.args, x.val(st, fr, a))
	}
	switch f := i.Call.Value.(type) {
	case *ssa.Function:
		d.fn = f
	case *ssa.MakeClosure:
		d.fn = f.Fn.(*ssa.Function)
		d.binds = x.val(st, fr, f).(*Closure).bindings
	default:
		panic(unsupported("deferred call of %s", i.Call.Value))
	}
	fr.defers = append(fr.defers, d)
}

// runDefers runs what was deferred, last first, each on the paths that
// registered it.
func (x *Exec) runDefers(fr *Frame, st *State) {
	for k := len(fr.defers) - 1; k >= 0; k-- {
		d := fr.defers[k]
		if d.guard == st.pc || isTrue(d.guard) {
			x.callFn(fr, st, d.in, d.fn, d.binds, d.args)
			continue
		}
		on, off := st.clone(), st.clone()
		on.pc = x.tt.and(st.pc, d.guard)
		off.pc = x.tt.and(st.pc, x.tt.not(d.guard))
		if !isFalse(on.pc) {
			x.callFn(fr, on, d.in, d.fn, d.binds, d.args)
		}
		*st = *x.mergeStates([]*State{on, off})
	}
}

// recovers: the deferred call calls recover.
func (d *deferred) recovers() bool {
	for _, b := range d.fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
					return true
				}
			}
		}
	}
	return false
}

// catches: a panic here is something the specification says something about.
func (x *Exec) catches() bool {
	if x.unwinding {
		return false
	}
	for f := x.curFrame; f != nil; f = f.parent {
		for _, d := range f.defers {
			if d.recovers() {
				return true
			}
		}
	}
	return x.con != nil && len(x.con.onpanic) > 0
}

// exceptional continues a path on which the program panicked: what was deferred
// runs, innermost call first, until it recovers.
func (x *Exec) exceptional(st *State, what string, pos token.Pos) {
	if isFalse(st.pc) || x.dry > 0 {
		return
	}
	cur, cp := x.curFrame, x.curPos
	defer func() { x.curFrame, x.curPos = cur, cp }()
	for f := cur; f != nil; f = f.parent {
		for k := len(f.defers) - 1; k >= 0; k-- {
			d := f.defers[k]
			on, off := st.clone(), st.clone()
			if d.guard != st.pc {
				on.pc = x.tt.and(st.pc, d.guard)
				off.pc = x.tt.and(st.pc, x.tt.not(d.guard))
			} else {
				off.pc = x.tt.fals()
			}
			if isFalse(on.pc) {
				continue
			}
			x.curFrame = f
			x.unwinding = true
			if d.recovers() {
				x.recovered = x.tt.freshVar("recovered", SIfc)
				x.fact(on, x.tt.lt(x.tt.int(0), x.tt.ifTag(x.recovered)))
			}
			x.callFn(f, on, d.in, d.fn, d.binds, d.args)
			x.unwinding = false
			if d.recovers() {
				x.recovered = nil
				all := f.defers
				f.defers = all[:k]
				x.runDefers(f, on)
				x.block(f, f.fn.Recover, on)
				f.defers = all
				if isFalse(off.pc) {
					return
				}
				st = off
			} else if isFalse(off.pc) {
				st = on
			} else {
				st = x.mergeStates([]*State{on, off})
			}
		}
	}
	if x.con == nil || len(x.con.onpanic) == 0 {
		x.curFrame, x.curPos = cur, cp
		x.oblige(st, "no-panic", what, x.panicTags, x.tt.fals(), pos)
		return
	}
	e := x.baseEnv(st)
	e.noinv = false
	for i, c := range x.con.onpanic {
		tags := c.tags
		if len(tags) == 0 {
			tags = x.panicTags
		}
		lb := c.label
		if lb == "" {
			lb = fmt.Sprintf("onpanic %d", i+1)
		}
		x.oblige(st, "no-panic", what+", or "+lb, tags, e.boolTerm(c.e), pos)
	}
}

// calleePanics continues the paths on which a callee panics.
func (x *Exec) calleePanics(env *Env, st *State, con *Contract, name string, pos token.Pos) {
	if x.dry > 0 {
		return
	}
	s := st.clone()
	s.pc = x.tt.and(st.pc, x.tt.freshVar("panicked", SBool))
	pre := s.clone()
	e := *env
	e.st, e.old = s, pre
	for _, m := range con.modifies {
		x.havocLoc(&e, pre, s, m)
	}
	a := x.tt.freshVar("A", SInt)
	x.fact(s, x.tt.le(s.alloc, a))
	s.alloc = a
	for _, c := range con.onpanic {
		x.fact(s, e.boolTerm(c.e))
	}
	x.exceptional(s, "call of "+name, pos)
}
