package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Prog is the loaded program and its binding to the specifications.
type Prog struct {
	boxOnce sync.Once
	box     map[string]bool

	repo   string
	ssa    *ssa.Program
	pkgs   map[string]*ssa.Package // by import path, repo packages only
	tpkgs  map[string]*types.Package
	spec   *Spec
	byFn   map[*ssa.Function]*Contract
	ext    map[string]*Contract // extern contracts by ssa name
	ifc    map[string]*Contract // interface contracts by "typekey.method"
	ftype  map[string]*Contract // function type contracts by type key
	ghost  map[string][]Param   // type key -> ghost fields
	immut  map[string]bool
	named  map[*types.Map]string // declared map types: their maps are no others
	atomic map[string]bool // fields of shared objects that only library calls change
	owned  map[string]bool // slices reachable through this field only
	invs   map[string][]*TypeInv
	extS   map[string]*Ty
	mutGlb map[*ssa.Global]bool
	allFns []*ssa.Function
	errs   []string
	tables []*Table
	wits   map[string][]*TypeInv
}

func loadProg(dir string, patterns []string, spec *Spec) (*Prog, error) {
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedDeps | packages.NeedModule, Dir: dir,
		Env: append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local", "GOSUMDB=off")}
	cfg.Mode &^= packages.NeedDeps
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	p := &Prog{pkgs: map[string]*ssa.Package{}, tpkgs: map[string]*types.Package{}, spec: spec, byFn: map[*ssa.Function]*Contract{},
		ext: map[string]*Contract{}, ifc: map[string]*Contract{}, ftype: map[string]*Contract{}, ghost: map[string][]Param{}, immut: map[string]bool{}, named: map[*types.Map]string{}, owned: map[string]bool{}, atomic: map[string]bool{},
		invs: map[string][]*TypeInv{}, extS: map[string]*Ty{}, mutGlb: map[*ssa.Global]bool{}}
	for _, pk := range pkgs {
		for _, e := range pk.Errors {
			return nil, fmt.Errorf("%s: %v", pk.PkgPath, e)
		}
		if pk.Module != nil {
			p.repo = pk.Module.Path
		}
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p.ssa = prog
	var addT func(t *types.Package)
	addT = func(t *types.Package) {
		if p.tpkgs[t.Path()] != nil {
			return
		}
		p.tpkgs[t.Path()] = t
		for _, i := range t.Imports() {
			addT(i)
		}
	}
	for _, sp := range spkgs {
		if sp != nil {
			p.pkgs[sp.Pkg.Path()] = sp
			addT(sp.Pkg)
		}
	}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Blocks != nil && fn.Pkg != nil && p.pkgs[fn.Pkg.Pkg.Path()] != nil {
			p.allFns = append(p.allFns, fn)
		}
	}
	sort.Slice(p.allFns, func(i, j int) bool { return p.allFns[i].String() < p.allFns[j].String() })
	for _, fn := range p.allFns {
		if fn.Name() == "init" && fn.Synthetic != "" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if g := rootGlobal(st.Addr); g != nil {
						p.mutGlb[g] = true
					}
				}
			}
		}
	}
	return p, p.bind()
}

func rootGlobal(v ssa.Value) *ssa.Global {
	g, _ := rootOf(v).(*ssa.Global)
	return g
}

func rootOf(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		default:
			return v
		}
	}
}

// fnKey is how specifications name a function: f or T.m (closures: f$1).
func fnKey(fn *ssa.Function) string {
	n := fn.Name()
	if fn.Signature.Recv() != nil {
		t := fn.Signature.Recv().Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		if nt, ok := types.Unalias(t).(*types.Named); ok {
			return nt.Obj().Name() + "." + n
		}
	}
	return n
}

func fnSig(fn *ssa.Function) string {
	s := types.TypeString(fn.Signature, nil)
	if r := fn.Signature.Recv(); r != nil {
		s = types.TypeString(r.Type(), nil) + " " + s
	}
	return s
}

// signatures lists the functions of the program, one per line.
func (p *Prog) signatures() string {
	var out []string
	for _, fn := range p.allFns {
		if fn.Synthetic == "" {
			out = append(out, fn.Pkg.Pkg.Path()+" "+fnKey(fn)+"\t"+fnSig(fn)+"\n")
		}
	}
	sort.Strings(out)
	return strings.Join(out, "")
}

// renamed finds the functions that took the place of recorded ones: the only
// new function of a package with the signature of one that is gone. A contract
// that moves with the name is verified on the new function like any other.
func (p *Prog) renamed() map[string]*ssa.Function {
	out := map[string]*ssa.Function{}
	now := map[string]*ssa.Function{}
	for _, fn := range p.allFns {
		if fn.Synthetic == "" {
			now[fn.Pkg.Pkg.Path()+" "+fnKey(fn)] = fn
		}
	}
	gone := map[string][]string{}
	for _, l := range strings.Split(p.spec.signatures, "\n") {
		key, sig, ok := strings.Cut(l, "\t")
		if !ok {
			continue
		}
		if now[key] == nil {
			pkg, _, _ := strings.Cut(key, " ")
			gone[pkg+" "+sig] = append(gone[pkg+" "+sig], key)
		}
		delete(now, key)
	}
	fresh := map[string][]*ssa.Function{}
	for _, fn := range now {
		if fn.Parent() == nil {
			k := fn.Pkg.Pkg.Path() + " " + fnSig(fn)
			fresh[k] = append(fresh[k], fn)
		}
	}
	for k, g := range gone {
		if len(g) == 1 && len(fresh[k]) == 1 {
			out[g[0]] = fresh[k][0]
		}
	}
	return out
}

func (p *Prog) bind() error {
	sp := p.spec
	for path, pk := range p.pkgs {
		for _, n := range pk.Pkg.Scope().Names() {
			if t, ok := pk.Pkg.Scope().Lookup(n).(*types.TypeName); ok && !t.IsAlias() {
				if m, ok := t.Type().Underlying().(*types.Map); ok && (path == p.repo || strings.HasPrefix(path, p.repo+"/")) {
					p.named[m] = sym(shortPath(typeKey(t.Type()), p.repo))
				}
			}
		}
	}
	for _, i := range sp.immutNames {
		t, err := p.lookupType(i.pkg, i.name)
		if err != nil {
			return err
		}
		p.immut[typeKey(t)] = true
	}
	for _, o := range sp.atomic {
		if t, err := p.lookupType(o.pkg, o.name); err == nil {
			p.atomic[typeKey(t)+"."+o.field] = true
		}
	}
	for _, o := range sp.owned {
		t, err := p.lookupType(o.pkg, o.name)
		if err != nil {
			return err
		}
		if k := typeKey(t) + "." + o.field; p.soleOwner(k) {
			p.owned[k] = true
		}
	}
	for _, g := range sp.ghostfs {
		t, err := p.resolveGo(g.pkg, g.ty)
		if err != nil {
			return err
		}
		p.ghost[typeKey(t)] = append(p.ghost[typeKey(t)], g.f)
	}
	for _, e := range sp.extsorts {
		p.extS[e.name] = e.ty
	}
	for _, i := range sp.invs {
		t, err := p.resolveGo(i.pkg, i.ty)
		if err != nil {
			return err
		}
		p.invs[typeKey(t)] = append(p.invs[typeKey(t)], i)
	}
	p.wits = map[string][]*TypeInv{}
	for _, i := range sp.witnesses {
		t, err := p.resolveGo(i.pkg, i.ty)
		if err != nil {
			return err
		}
		p.wits[typeKey(t)] = append(p.wits[typeKey(t)], i)
	}
	for _, t := range sp.tables {
		tb, err := p.table(t.pkg, t.name)
		if err != nil {
			return err
		}
		p.tables = append(p.tables, tb)
	}
	renamed := p.renamed()
	byKey := map[string]*ssa.Function{}
	for _, fn := range p.allFns {
		if fn.Synthetic != "" {
			continue
		}
		byKey[fn.Pkg.Pkg.Path()+" "+fnKey(fn)] = fn
	}
	for _, k := range sp.order {
		c := sp.contracts[k]
		switch c.kind {
		case "func":
			fn := byKey[c.pkg+" "+c.key]
			if fn == nil {
				fn = renamed[c.pkg+" "+c.key]
			}
			if fn == nil {
				continue // reported by the caller as unbound
			}
			c.bound = true
			p.byFn[fn] = c
		case "extern":
			p.ext[c.key] = c
			c.bound = true
		case "iface":
			i := strings.LastIndex(c.key, ".")
			t, err := p.lookupType(c.pkg, c.key[:i])
			if err != nil {
				return err
			}
			p.ifc[typeKey(t)+"."+c.key[i+1:]] = c
			c.bound = true
		case "functype":
			t, err := p.funcType(c)
			if err != nil {
				return err
			}
			p.ftype[typeKey(t)] = c
			c.bound = true
		}
	}
	return nil
}

// funcType resolves the key of a functype contract: a named function type, or
// the type of a field written as T.field.
func (p *Prog) funcType(c *Contract) (types.Type, error) {
	if i := strings.Index(c.key, "."); i >= 0 {
		t, err := p.lookupType(c.pkg, c.key[:i])
		if err == nil {
			if s, ok := t.Underlying().(*types.Struct); ok {
				for k := 0; k < s.NumFields(); k++ {
					if s.Field(k).Name() == c.key[i+1:] {
						return s.Field(k).Type(), nil
					}
				}
			}
		}
	}
	return p.lookupType(c.pkg, c.key)
}

// funcValues lists the functions and closures of the repo that become values
// of a function type.
func (p *Prog) funcValues(t types.Type) (fns []*ssa.Function, closures []*ssa.MakeClosure) {
	seen := map[*ssa.Function]bool{}
	all := ssautil.AllFunctions(p.ssa)
	var order []*ssa.Function
	for fn := range all {
		if fn.Pkg != nil && p.pkgs[fn.Pkg.Pkg.Path()] != nil {
			order = append(order, fn)
		}
	}
	sort.Slice(order, func(i, j int) bool { return order[i].String() < order[j].String() })
	for _, fn := range order {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var callee ssa.Value
				if c, ok := in.(ssa.CallInstruction); ok && !c.Common().IsInvoke() {
					callee = c.Common().Value
				}
				var vals []ssa.Value
				if ct, ok := in.(*ssa.ChangeType); ok && types.Identical(ct.Type(), t) {
					vals = append(vals, ct.X)
				}
				for _, o := range in.Operands(nil) {
					if o == nil || *o == nil || *o == callee {
						continue
					}
					if types.Identical((*o).Type(), t) {
						vals = append(vals, *o)
					}
				}
				for _, v := range vals {
					switch f := v.(type) {
					case *ssa.Function:
						if !seen[f] && f.Blocks != nil {
							seen[f] = true
							fns = append(fns, f)
						}
					case *ssa.MakeClosure:
						if g := f.Fn.(*ssa.Function); !seen[g] {
							seen[g] = true
							closures = append(closures, f)
						}
					}
				}
			}
		}
	}
	return
}

// lookupType resolves a possibly qualified type name in the scope of a package.
func (p *Prog) lookupType(pkg, name string) (types.Type, error) {
	if i := strings.Index(name, "."); i >= 0 {
		ip := p.importNamed(pkg, name[:i])
		if ip == nil {
			return nil, fmt.Errorf("unknown package %s in %s", name[:i], pkg)
		}
		o := ip.Scope().Lookup(name[i+1:])
		if tn, ok := o.(*types.TypeName); ok {
			return types.Unalias(tn.Type()), nil
		}
		return nil, fmt.Errorf("unknown type %s", name)
	}
	if o, ok := types.Universe.Lookup(name).(*types.TypeName); ok {
		return o.Type(), nil
	}
	tp := p.tpkgs[pkg]
	if tp == nil {
		return nil, fmt.Errorf("package %s not loaded", pkg)
	}
	if tn, ok := tp.Scope().Lookup(name).(*types.TypeName); ok {
		return types.Unalias(tn.Type()), nil
	}
	return nil, fmt.Errorf("unknown type %s in %s", name, pkg)
}

// importNamed finds a package by name: an import of pkg first, then any loaded one.
func (p *Prog) importNamed(pkg, name string) *types.Package {
	if path := p.spec.alias[name]; path != "" {
		return p.tpkgs[path]
	}
	if tp := p.tpkgs[pkg]; tp != nil {
		for _, i := range tp.Imports() {
			if i.Name() == name {
				return i
			}
		}
	}
	var best *types.Package
	for _, t := range p.tpkgs {
		if t.Name() == name && (best == nil || len(t.Path()) < len(best.Path()) || len(t.Path()) == len(best.Path()) && t.Path() < best.Path()) {
			best = t
		}
	}
	return best
}

func (p *Prog) resolveGo(pkg string, t *Ty) (types.Type, error) {
	switch t.k {
	case "name":
		return p.lookupType(pkg, t.name)
	case "ptr":
		e, err := p.resolveGo(pkg, t.a)
		if err != nil {
			return nil, err
		}
		return types.NewPointer(e), nil
	case "slice":
		e, err := p.resolveGo(pkg, t.a)
		if err != nil {
			return nil, err
		}
		return types.NewSlice(e), nil
	case "array":
		e, err := p.resolveGo(pkg, t.a)
		if err != nil {
			return nil, err
		}
		var n int64
		fmt.Sscan(t.name, &n)
		return types.NewArray(e, n), nil
	case "map":
		a, err := p.resolveGo(pkg, t.a)
		if err != nil {
			return nil, err
		}
		b, err := p.resolveGo(pkg, t.b)
		if err != nil {
			return nil, err
		}
		return types.NewMap(a, b), nil
	case "empty":
		return types.NewStruct(nil, nil), nil
	}
	return nil, fmt.Errorf("not a Go type: %s", t.k)
}

// boxed is the set of types the program converts to interfaces.
func (p *Prog) boxed() map[string]bool {
	p.boxOnce.Do(func() {
		p.box = map[string]bool{}
		for fn := range ssautil.AllFunctions(p.ssa) {
			if fn.Pkg == nil || p.pkgs[fn.Pkg.Pkg.Path()] == nil {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if m, ok := in.(*ssa.MakeInterface); ok {
						p.box[typeKey(types.Unalias(m.X.Type()))] = true
					}
				}
			}
		}
	})
	return p.box
}

type impl struct {
	fn   *ssa.Function
	self types.Type
}

// implementers lists the methods of repo types that implement an interface
// method, for values and pointers.
func (p *Prog) implementers(iface *types.Named, method string) []impl {
	it := iface.Underlying().(*types.Interface)
	var out []impl
	var paths []string
	for k := range p.pkgs {
		paths = append(paths, k)
	}
	sort.Strings(paths)
	for _, path := range paths {
		sc := p.pkgs[path].Pkg.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			t := tn.Type()
			if types.IsInterface(t) {
				continue
			}
			for _, c := range []types.Type{t, types.NewPointer(t)} {
				if !types.Implements(c, it) || !p.boxed()[typeKey(c)] {
					continue
				}
				sel := types.NewMethodSet(c).Lookup(iface.Obj().Pkg(), method)
				if sel == nil {
					continue
				}
				if fn := p.ssa.MethodValue(sel); fn != nil && fn.Blocks != nil {
					out = append(out, impl{fn, c})
				}
			}
		}
	}
	return out
}
