package main

import (
	"fmt"
	"go/types"
	"strings"
)

type Field struct {
	name string // accessor symbol
	sort Sort
}

type Ctor struct {
	name   string
	sort   Sort
	fields []Field
}

type accInfo struct {
	ctor *Ctor
	idx  int
	sort Sort
}

// Sorts maps Go types to SMT sorts and remembers the declarations needed.
type Sorts struct {
	uninterp []Sort
	uninSeen map[Sort]bool
	dts      []*Ctor // one constructor per datatype, in dependency order
	bySort   map[Sort]*Ctor
	ctors    map[string]*Ctor
	accs     map[string]*accInfo
	seqs     map[Sort]*SeqInfo // by sequence sort
	seqOps   map[string]string // symbol -> operation
	seqOrder []*SeqInfo
	arrE     map[Sort]Sort
	arrK map[Sort]Sort
	tags     map[string]int
	tagTypes []types.Type
	repo     string // module path prefix of the code under verification
	ext      map[string]Sort
}

type SeqInfo struct {
	key  string
	sort Sort
	elem Sort
}

func newSorts(repo string, ext map[string]Sort) *Sorts {
	s := &Sorts{uninSeen: map[Sort]bool{}, bySort: map[Sort]*Ctor{}, ctors: map[string]*Ctor{}, accs: map[string]*accInfo{},
		seqs: map[Sort]*SeqInfo{}, seqOps: map[string]string{}, arrE: map[Sort]Sort{}, arrK: map[Sort]Sort{}, tags: map[string]int{}, tagTypes: []types.Type{nil}, repo: repo, ext: ext}
	s.datatype("mkI", SIfc, []Field{{"i.tag", SInt}, {"i.ref", SInt}})
	return s
}

func sym(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' {
			return r
		}
		switch r {
		case '/', '*', '[', ']', ' ', '(', ')', '{', '}', ',', ';', '-', '"':
			return '_'
		}
		return '_'
	}, s)
}

func (s *Sorts) datatype(name string, so Sort, fields []Field) *Ctor {
	if c := s.bySort[so]; c != nil {
		return c
	}
	c := &Ctor{name: name, sort: so, fields: fields}
	s.bySort[so] = c
	s.ctors[name] = c
	s.dts = append(s.dts, c)
	for i, f := range fields {
		s.accs[f.name] = &accInfo{c, i, f.sort}
	}
	return c
}

func (s *Sorts) uninterpreted(so Sort) Sort {
	if !s.uninSeen[so] {
		s.uninSeen[so] = true
		s.uninterp = append(s.uninterp, so)
	}
	return so
}

func (s *Sorts) seqOf(elem Sort) *SeqInfo {
	key := sym(string(elem))
	so := Sort("Seq_" + key)
	if i := s.seqs[so]; i != nil {
		return i
	}
	s.uninterpreted(so)
	i := &SeqInfo{key: key, sort: so, elem: elem}
	s.seqs[so] = i
	s.seqOrder = append(s.seqOrder, i)
	for _, op := range []string{"len", "at", "emp", "unit", "cat", "sub", "upd"} {
		s.seqOps[op+"."+key] = op
	}
	return i
}

func (s *Sorts) seqOp(sy string) string { return s.seqOps[sy] }

func (s *Sorts) sliceOf(elem Sort) *Ctor {
	q := s.seqOf(elem)
	so := Sort("Sl_" + q.key)
	return s.datatype("mkSl_"+q.key, so, []Field{{"isnil." + q.key, SBool}, {"seq." + q.key, q.sort}})
}

func (s *Sorts) strSort() Sort { return s.seqOf(SInt).sort }

func (s *Sorts) arrElem(a Sort) Sort {
	if e, ok := s.arrE[a]; ok {
		return e
	}
	panic("unknown array sort " + string(a))
}

func (s *Sorts) array(k, v Sort) Sort {
	a := arrSort(k, v)
	s.arrE[a] = v
	s.arrK[a] = k
	return a
}

func typeKey(t types.Type) string {
	t = types.Unalias(t)
	switch u := t.(type) {
	case *types.Pointer:
		return "*" + typeKey(u.Elem())
	case *types.Slice:
		return "[]" + typeKey(u.Elem())
	case *types.Map:
		return "map[" + typeKey(u.Key()) + "]" + typeKey(u.Elem())
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Path() })
}

func (s *Sorts) isRepo(p *types.Package) bool {
	return p != nil && (p.Path() == s.repo || strings.HasPrefix(p.Path(), s.repo+"/"))
}

func shortPath(k, repo string) string {
	k = strings.ReplaceAll(k, repo+"/", "")
	return k
}

func (s *Sorts) of(t types.Type) Sort {
	if so, ok := s.ext[typeKey(t)]; ok {
		return so
	}
	switch u := t.(type) {
	case *types.Alias:
		return s.of(types.Unalias(t))
	case *types.Named:
		if _, ok := u.Underlying().(*types.Struct); ok {
			if !s.isRepo(u.Obj().Pkg()) {
				return s.uninterpreted(Sort("X_" + sym(typeKey(t))))
			}
			return s.structOf(t, u.Underlying().(*types.Struct)).sort
		}
		return s.of(u.Underlying())
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return SBool
		case u.Info()&types.IsInteger != 0, u.Kind() == types.UnsafePointer:
			return SInt
		case u.Info()&types.IsFloat != 0:
			return SF64
		case u.Info()&types.IsString != 0:
			return s.strSort()
		case u.Kind() == types.UntypedNil:
			return SIfc
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return SInt
	case *types.Interface:
		return SIfc
	case *types.Slice:
		return s.sliceOf(s.of(u.Elem())).sort
	case *types.Array:
		return s.arrayOf(u).sort
	case *types.Struct:
		return s.structOf(t, u).sort
	case *types.Tuple:
		return s.uninterpreted("Tuple")
	}
	return s.uninterpreted(Sort("X_" + sym(typeKey(t))))
}

func (s *Sorts) structOf(t types.Type, u *types.Struct) *Ctor {
	key := sym(shortPath(typeKey(t), s.repo))
	so := Sort("St_" + key)
	if c := s.bySort[so]; c != nil {
		return c
	}
	var fs []Field
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		fs = append(fs, Field{"f." + key + "." + f.Name() + fmt.Sprintf("#%d", i), s.of(f.Type())})
	}
	for i := range fs {
		fs[i].name = strings.ReplaceAll(fs[i].name, "#", "!")
	}
	return s.datatype("mk."+key, so, fs)
}

func (s *Sorts) arrayOf(u *types.Array) *Ctor {
	e := s.of(u.Elem())
	n := u.Len()
	key := fmt.Sprintf("%s_%d", sym(string(e)), n)
	so := Sort("Ar_" + key)
	if c := s.bySort[so]; c != nil {
		return c
	}
	if n > 300 {
		panic(unsupported("array of %d elements", n))
	}
	var fs []Field
	for i := int64(0); i < n; i++ {
		fs = append(fs, Field{fmt.Sprintf("a.%s.%d", key, i), e})
	}
	return s.datatype("mkAr."+key, so, fs)
}

// tag is the number of a dynamic type; 0 is the nil interface.
func (s *Sorts) tag(t types.Type) int {
	t = types.Unalias(t)
	k := typeKey(t)
	if n, ok := s.tags[k]; ok {
		return n
	}
	s.tagTypes = append(s.tagTypes, t)
	s.tags[k] = len(s.tagTypes) - 1
	return len(s.tagTypes) - 1
}

type unsupportedErr struct{ msg string }

func (u unsupportedErr) Error() string { return u.msg }

func unsupported(f string, a ...any) unsupportedErr {
	return unsupportedErr{fmt.Sprintf(f, a...)}
}

// ---- sequences ----

func (tt *TermTable) sqi(so Sort) *SeqInfo {
	i := tt.sorts.seqs[so]
	if i == nil {
		panic("not a sequence sort: " + string(so))
	}
	return i
}

func (tt *TermTable) emp(elem Sort) *Term {
	i := tt.sorts.seqOf(elem)
	return tt.app("emp."+i.key, i.sort)
}

func (tt *TermTable) unit(x *Term) *Term {
	i := tt.sorts.seqOf(x.sort)
	return tt.app("unit."+i.key, i.sort, x)
}

func (tt *TermTable) slen(s *Term) *Term {
	i := tt.sqi(s.sort)
	if v, ok := tt.litOf(s); ok {
		return tt.int(int64(len(v)))
	}
	switch tt.sorts.seqOps[s.op] {
	case "emp":
		return tt.int(0)
	case "unit":
		return tt.int(1)
	case "cat":
		return tt.add(tt.slen(s.args[0]), tt.slen(s.args[1]))
	case "upd":
		return tt.slen(s.args[0])
	}
	if s.op == "ite" && s.size < 60 {
		a, b := tt.slen(s.args[1]), tt.slen(s.args[2])
		if constLike(a) || constLike(b) {
			return tt.ite(s.args[0], a, b)
		}
	}
	return tt.app("len."+i.key, SInt, s)
}

func (tt *TermTable) at(s, ix *Term) *Term {
	i := tt.sqi(s.sort)
	if n, ok := intVal(ix); ok && n.IsInt64() {
		k := n.Int64()
		if v, ok := tt.litOf(s); ok && k >= 0 && k < int64(len(v)) {
			return tt.int(int64(v[k]))
		}
		switch tt.sorts.seqOps[s.op] {
		case "unit":
			if k == 0 {
				return s.args[0]
			}
		case "cat":
			if l, ok := intVal(tt.slen(s.args[0])); ok && k >= 0 {
				if k < l.Int64() {
					return tt.at(s.args[0], ix)
				}
				return tt.at(s.args[1], tt.int(k-l.Int64()))
			}
		}
	}
	return tt.app("at."+i.key, i.elem, s, ix)
}

func (tt *TermTable) cat(a, b *Term) *Term {
	if a.sort != b.sort {
		panic(fmt.Sprintf("cat of %s and %s", a.sort, b.sort))
	}
	i := tt.sqi(a.sort)
	if tt.isEmp(a) {
		return b
	}
	if tt.isEmp(b) {
		return a
	}
	if x, ok := tt.litOf(a); ok {
		if y, ok := tt.litOf(b); ok {
			return tt.str(x + y)
		}
		if b.op == "cat."+i.key {
			if y, ok := tt.litOf(b.args[0]); ok {
				return tt.cat(tt.str(x+y), b.args[1])
			}
		}
	}
	// right-associated
	if a.op == "cat."+i.key {
		return tt.cat(a.args[0], tt.cat(a.args[1], b))
	}
	return tt.app("cat."+i.key, i.sort, a, b)
}

func (tt *TermTable) isEmp(a *Term) bool {
	if v, ok := tt.litOf(a); ok {
		return v == ""
	}
	return tt.sorts.seqOps[a.op] == "emp"
}

func (tt *TermTable) subseq(s, lo, hi *Term) *Term {
	i := tt.sqi(s.sort)
	if isTrue(tt.eq(lo, tt.int(0))) && isTrue(tt.eq(hi, tt.slen(s))) {
		return s
	}
	if isTrue(tt.eq(lo, hi)) {
		return tt.emp(i.elem)
	}
	if v, ok := tt.litOf(s); ok {
		a, ok1 := intVal(lo)
		b, ok2 := intVal(hi)
		if ok1 && ok2 && a.Sign() >= 0 && a.Cmp(b) <= 0 && b.Int64() <= int64(len(v)) {
			return tt.str(v[a.Int64():b.Int64()])
		}
	}
	return tt.app("sub."+i.key, i.sort, s, lo, hi)
}

func (tt *TermTable) upd(s, ix, v *Term) *Term {
	i := tt.sqi(s.sort)
	if v.sort != i.elem {
		panic("upd sort")
	}
	if n, ok := intVal(ix); ok && tt.sorts.seqOps[s.op] == "unit" && n.Sign() == 0 {
		return tt.unit(v)
	}
	return tt.app("upd."+i.key, i.sort, s, ix, v)
}

func (tt *TermTable) seqRebuild(op string, t *Term, args []*Term) *Term {
	switch op {
	case "len":
		return tt.slen(args[0])
	case "at":
		return tt.at(args[0], args[1])
	case "unit":
		return tt.unit(args[0])
	case "cat":
		return tt.cat(args[0], args[1])
	case "sub":
		return tt.subseq(args[0], args[1], args[2])
	case "upd":
		return tt.upd(args[0], args[1], args[2])
	}
	return t
}

// string literals
func (tt *TermTable) str(v string) *Term {
	so := tt.sorts.strSort()
	if v == "" {
		return tt.emp(SInt)
	}
	if t, ok := tt.strLit[v]; ok {
		return t
	}
	t := tt.app(fmt.Sprintf("str!%d", len(tt.strLit)), so)
	tt.strLit[v] = t
	if tt.litBack == nil {
		tt.litBack = map[*Term]string{}
	}
	tt.litBack[t] = v
	return t
}

func (tt *TermTable) litOf(t *Term) (string, bool) {
	v, ok := tt.litBack[t]
	if ok {
		return v, true
	}
	if t.sort == tt.sorts.strSort() && tt.sorts.seqOps[t.op] == "emp" {
		return "", true
	}
	return "", false
}

// slices
func (tt *TermTable) mkSlice(isnil, seq *Term) *Term {
	c := tt.sorts.sliceOf(tt.sqi(seq.sort).elem)
	return tt.ctor(c, isnil, seq)
}

func (tt *TermTable) sliceSeq(s *Term) *Term {
	c := tt.sorts.bySort[s.sort]
	return tt.acc(c.fields[1].name, s)
}

func (tt *TermTable) sliceNil(s *Term) *Term {
	c := tt.sorts.bySort[s.sort]
	return tt.acc(c.fields[0].name, s)
}

// interfaces
func (tt *TermTable) mkIfc(tag, ref *Term) *Term { return tt.ctor(tt.sorts.ctors["mkI"], tag, ref) }
func (tt *TermTable) ifTag(i *Term) *Term        { return tt.acc("i.tag", i) }
func (tt *TermTable) ifRef(i *Term) *Term        { return tt.acc("i.ref", i) }
func (tt *TermTable) nilIfc() *Term              { return tt.mkIfc(tt.int(0), tt.int(0)) }

// zero value of a Go type
func (tt *TermTable) zero(t types.Type) *Term {
	so := tt.sorts.of(t)
	return tt.zeroSort(so)
}

func (tt *TermTable) zeroSort(so Sort) *Term {
	switch so {
	case SBool:
		return tt.fals()
	case SInt:
		return tt.int(0)
	case SF64:
		return tt.mk("(_ +zero 11 53)", SF64)
	case SIfc:
		return tt.nilIfc()
	}
	if q := tt.sorts.seqs[so]; q != nil {
		return tt.emp(q.elem)
	}
	if c := tt.sorts.bySort[so]; c != nil {
		if strings.HasPrefix(c.name, "mkSl_") {
			return tt.ctor(c, tt.tru(), tt.zeroSort(c.fields[1].sort))
		}
		args := make([]*Term, len(c.fields))
		for i, f := range c.fields {
			args[i] = tt.zeroSort(f.sort)
		}
		return tt.ctor(c, args...)
	}
	return tt.app("zero."+sym(string(so)), so)
}
