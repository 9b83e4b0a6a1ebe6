package main

// Symbolic values, pointers, slices and the machine state.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

// StructV is a struct or array value held field by field.
type StructV struct{ F []Val }

// SliceV is a view [Off, Off+Len) of a region (a backing array).
type SliceV struct {
	Reg      int
	Off, Len *Term
	Full     bool // capacity equals length: append always copies
}

type pathEl struct {
	f   int
	idx *Term // array index when not nil
}

// PtrV points into an object, a region element or a typed heap cell.
type PtrV struct {
	Kind byte // 'o' object, 'r' region element, 't' typed heap cell, 'i' outside the model
	Obj  int
	Idx  *Term // region index (absolute)
	Ref  *Term // typed heap reference
	HT   types.Type
	Path []pathEl
}

type MapV struct{ Obj int }
type FuncV struct {
	Fn    *ssa.Function
	Binds []Val
	Tag   string // opaque function constant
}
type TupleV []Val

// IterV is a string iterator; its position lives in the heap.
type IterV struct {
	Obj int
	Str *Term
}

type mapEnt struct {
	k *Term
	v Val
}
type MapObj struct {
	KT, VT types.Type
	Conc   bool // association list
	Ent    []mapEnt
	Pres   *Term
	Vals   *Term
}

type Region struct {
	Content *Term
	Elem    types.Type
	Leaked  bool // its elements are part of a recorded value
	Stale   bool // a longer version was created by append
	Clob    bool // may have been overwritten through another slice
	Frozen  bool // belongs to a recorded value
	Base    int
	Origin  string
}

type State struct {
	heap  map[int]Val
	regs  map[int]*Region
	theap map[string]*Term
	ghost map[string]*Term
	pc    []*Term
	pcset map[int]bool
	trace []string // decisions, for messages
}

func newState() *State {
	return &State{heap: map[int]Val{}, regs: map[int]*Region{}, theap: map[string]*Term{}, ghost: map[string]*Term{}, pcset: map[int]bool{}}
}

func (s *State) clone() *State {
	n := &State{heap: make(map[int]Val, len(s.heap)), regs: make(map[int]*Region, len(s.regs)),
		theap: make(map[string]*Term, len(s.theap)), ghost: make(map[string]*Term, len(s.ghost)), pcset: make(map[int]bool, len(s.pcset))}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.regs {
		n.regs[k] = v
	}
	for k, v := range s.theap {
		n.theap[k] = v
	}
	for k, v := range s.ghost {
		n.ghost[k] = v
	}
	for k := range s.pcset {
		n.pcset[k] = true
	}
	n.pc = append([]*Term{}, s.pc...)
	n.trace = append([]string{}, s.trace...)
	return n
}

func (s *State) assume(c *Ctx, t *Term) {
	if t.isTrue() || s.pcset[t.id] {
		return
	}
	if t.Op == "and" {
		for _, a := range t.Args {
			s.assume(c, a)
		}
		return
	}
	s.pcset[t.id] = true
	s.pc = append(s.pc, t)
}

// decided evaluates t under the path condition, syntactically.
func (s *State) decided(c *Ctx, t *Term) *Term {
	if t.isTrue() || t.isFalse() {
		return t
	}
	if s.pcset[t.id] {
		return c.True()
	}
	if s.pcset[c.Not(t).id] {
		return c.False()
	}
	if t.Op == "=" {
		// x = lit under x = other literal, or a tag test
		for _, p := range s.pc {
			if p.Op != "=" {
				continue
			}
			for i := 0; i < 2; i++ {
				for j := 0; j < 2; j++ {
					if p.Args[i] == t.Args[j] {
						x, y := p.Args[1-i], t.Args[1-j]
						if (x.isLit() && y.isLit() || x.isNum() && y.isNum()) && x != y {
							return c.False()
						}
						if isCtor(x) && isCtor(y) && x.Op != y.Op {
							return c.False()
						}
					}
				}
			}
		}
	}
	return t
}

// ---- conversion between terms and values ----

type unsupported struct{ msg string }

func unsup(f string, a ...interface{}) {
	panic(unsupported{fmt.Sprintf(f, a...)})
}

func structFields(t types.Type) []types.Type {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		var r []types.Type
		for i := 0; i < u.NumFields(); i++ {
			r = append(r, u.Field(i).Type())
		}
		return r
	case *types.Array:
		var r []types.Type
		for i := int64(0); i < u.Len(); i++ {
			r = append(r, u.Elem())
		}
		return r
	}
	return nil
}

func isAgg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

// reflect opens a term of an aggregate type.
func (e *Exec) reflect(t *Term, typ types.Type) Val {
	if isAgg(typ) {
		e.ts.SortOf(typ)
		fs := structFields(typ)
		v := &StructV{make([]Val, len(fs))}
		for i, ft := range fs {
			v.F[i] = e.reflect(e.c.Sel(t, i), ft)
		}
		return v
	}
	if _, ok := typ.Underlying().(*types.Pointer); ok {
		if n, ok := t.isInt64(); ok {
			if p, ok := e.ptrOf[n]; ok {
				return p
			}
		}
	}
	if _, ok := typ.Underlying().(*types.Map); ok {
		if n, ok := t.isInt64(); ok {
			if p, ok := e.ptrOf[n]; ok {
				return p
			}
		}
	}
	return t
}

// reify gives the term form of a value. leak marks the regions of slices
// that become part of the term.
func (e *Exec) reify(st *State, v Val, typ types.Type, leak bool) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case *StructV:
		s := e.ts.SortOf(typ)
		fs := structFields(typ)
		if len(fs) != len(v.F) {
			unsup("reify %s: %d fields", typ, len(v.F))
		}
		args := make([]*Term, len(fs))
		for i := range fs {
			args[i] = e.reify(st, v.F[i], fs[i], leak)
		}
		return e.c.Mk(s, args...)
	case *SliceV:
		r := st.regs[v.Reg]
		if leak && !r.Leaked {
			nr := *r
			nr.Leaked = true
			st.regs[v.Reg] = &nr
			for b := r.Base; b > 0; {
				br := st.regs[b]
				if br == nil || br.Leaked {
					break
				}
				nb := *br
				nb.Leaked = true
				st.regs[b] = &nb
				b = br.Base
			}
		}
		return e.sliceSeq(st, v)
	case *PtrV:
		if v.Kind == 't' && len(v.Path) == 0 {
			return v.Ref
		}
		k := fmt.Sprintf("%c%d|%v|%v", v.Kind, v.Obj, v.Idx, v.Path)
		n, ok := e.ptrIdx[k]
		if !ok {
			n = int64(1000000 + len(e.ptrIdx))
			e.ptrIdx[k] = n
			e.ptrOf[n] = v
		}
		return e.c.mkRef(n)
	case *MapV:
		k := fmt.Sprintf("map%d", v.Obj)
		n, ok := e.ptrIdx[k]
		if !ok {
			n = int64(1000000 + len(e.ptrIdx))
			e.ptrIdx[k] = n
			e.ptrOf[n] = v
		}
		return e.c.mkRef(n)
	case *FuncV:
		if v.Fn != nil && len(v.Binds) == 0 {
			return e.c.App("fn:"+v.Fn.String(), SRef)
		}
		if v.Tag != "" {
			return e.c.App("fn:"+v.Tag, SRef)
		}
		return e.c.Fresh("closure", SRef)
	case nil:
		unsup("reify of nothing (%s)", typ)
	}
	unsup("reify %T", v)
	return nil
}

func (c *Ctx) mkRef(n int64) *Term { return c.Int(n) }

func (e *Exec) zero(typ types.Type) Val {
	c := e.c
	switch u := typ.Underlying().(type) {
	case *types.Struct, *types.Array:
		fs := structFields(typ)
		v := &StructV{make([]Val, len(fs))}
		for i, f := range fs {
			v.F[i] = e.zero(f)
		}
		return v
	case *types.Basic:
		switch e.ts.SortOf(typ) {
		case SBool:
			return c.False()
		case SInt:
			return c.Int(0)
		case SReal:
			return c.Real(0)
		case SStr:
			return c.Lit("")
		}
		return c.mkRef(0)
	case *types.Slice:
		return c.Empty(e.ts.SortOf(typ))
	case *types.Interface:
		return c.NilAny()
	default:
		_ = u
		return c.mkRef(0)
	}
}

// ---- slices ----

func (e *Exec) newRegion(st *State, content *Term, elem types.Type, origin string) int {
	e.nreg++
	st.regs[e.nreg] = &Region{Content: content, Elem: elem, Origin: origin}
	return e.nreg
}

func (e *Exec) sliceSeq(st *State, v Val) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case *SliceV:
		r := st.regs[v.Reg]
		return e.c.SeqSub(r.Content, v.Off, e.c.Add(v.Off, v.Len))
	}
	unsup("slice value %T", v)
	return nil
}

func (e *Exec) sliceLen(st *State, v Val) *Term {
	switch v := v.(type) {
	case *Term:
		return e.c.SeqLen(v)
	case *SliceV:
		return v.Len
	}
	unsup("slice value %T", v)
	return nil
}

// ownSlice turns a sequence term into a view of a region of its own.
func (e *Exec) ownSlice(st *State, content *Term, elem types.Type, origin string) *SliceV {
	r := e.newRegion(st, content, elem, origin)
	return &SliceV{Reg: r, Off: e.c.Int(0), Len: e.c.SeqLen(content)}
}

// unshare: a value of a moved type taken from where it was recorded owns its slices.
func (e *Exec) unshare(st *State, v Val, t types.Type) Val {
	s, ok := t.Underlying().(*types.Struct)
	if !ok || !e.p.specs.moved[typeName(t)] {
		return v
	}
	if tm, ok := v.(*Term); ok {
		v = e.reflect(tm, t)
	}
	sv, ok := v.(*StructV)
	if !ok {
		return v
	}
	n := &StructV{}
	for i, f := range sv.F {
		if x, ok := f.(*Term); ok && e.p.specs.owned[typeName(t)+"."+s.Field(i).Name()] {
			if x.Op != "empty" {
				e.trustUsed["values of type "+typeName(t)+" are moved, not shared"] = true
			}
			f = e.ownSlice(st, x, s.Field(i).Type().Underlying().(*types.Slice).Elem(), "moved value")
		}
		n.F = append(n.F, f)
	}
	return n
}

// asView gives the region view of a slice value; recorded values become
// frozen regions.
func (e *Exec) asView(st *State, v Val, elem types.Type) *SliceV {
	switch v := v.(type) {
	case *SliceV:
		return v
	case *Term:
		s := e.ownSlice(st, v, elem, "recorded value")
		if v.Op != "empty" {
			st.regs[s.Reg].Frozen = true
		}
		return s
	}
	unsup("slice value %T", v)
	return nil
}

// ---- memory ----

func (e *Exec) getPath(v Val, path []pathEl) Val {
	for _, p := range path {
		sv, ok := v.(*StructV)
		if !ok {
			unsup("path into %T", v)
		}
		if p.idx != nil {
			if n, ok := p.idx.isInt64(); ok {
				v = sv.F[n]
				continue
			}
			// symbolic index into an array
			r := sv.F[len(sv.F)-1]
			for i := len(sv.F) - 2; i >= 0; i-- {
				r = e.iteVal(e.c.Eq(p.idx, e.c.Int(int64(i))), sv.F[i], r)
			}
			v = r
			continue
		}
		v = sv.F[p.f]
	}
	return v
}

func (e *Exec) iteVal(c *Term, a, b Val) Val {
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok {
			return e.c.Ite(c, x, y)
		}
	case *StructV:
		if y, ok := b.(*StructV); ok && len(x.F) == len(y.F) {
			r := &StructV{make([]Val, len(x.F))}
			for i := range x.F {
				r.F[i] = e.iteVal(c, x.F[i], y.F[i])
			}
			return r
		}
	}
	if a == b {
		return a
	}
	unsup("ite of %T and %T", a, b)
	return nil
}

func (e *Exec) setPath(v Val, path []pathEl, nv Val) Val {
	if len(path) == 0 {
		return nv
	}
	sv, ok := v.(*StructV)
	if !ok {
		unsup("path into %T", v)
	}
	n := &StructV{append([]Val{}, sv.F...)}
	p := path[0]
	if p.idx != nil {
		if i, ok := p.idx.isInt64(); ok {
			n.F[i] = e.setPath(sv.F[i], path[1:], nv)
			return n
		}
		for i := range n.F {
			n.F[i] = e.iteVal(e.c.Eq(p.idx, e.c.Int(int64(i))), e.setPath(sv.F[i], path[1:], nv), sv.F[i])
		}
		return n
	}
	n.F[p.f] = e.setPath(sv.F[p.f], path[1:], nv)
	return n
}

func (e *Exec) load(st *State, p *PtrV) Val {
	switch p.Kind {
	case 'o':
		v, ok := st.heap[p.Obj]
		if !ok {
			if v, ok = e.globalInit[p.Obj]; !ok {
				unsup("load from unknown object")
			}
		}
		return e.getPath(v, p.Path)
	case 'r':
		r := st.regs[p.Obj]
		return e.getPath(e.reflect(e.c.SeqAt(r.Content, p.Idx), r.Elem), p.Path)
	case 't':
		return e.getPath(e.reflect(e.tcell(st, p.Ref, p.HT), p.HT), p.Path)
	}
	unsup("load")
	return nil
}

func (e *Exec) theapOf(st *State, ht types.Type) *Term {
	k := typeName(ht)
	s := e.ts.SortOf(ht)
	if t, ok := st.theap[k]; ok {
		return t
	}
	t := e.c.Var("heap0."+k, arrSort(SRef, s))
	st.theap[k] = t
	return t
}

func (e *Exec) tcell(st *State, ref *Term, ht types.Type) *Term {
	return e.c.Select(e.theapOf(st, ht), ref, e.ts.SortOf(ht))
}

func (e *Exec) store(st *State, p *PtrV, v Val) {
	switch p.Kind {
	case 'i':
	case 'o':
		if e.roObj[p.Obj] != "" && !e.inInit {
			e.oblig(st, "frame", "store to "+e.roObj[p.Obj], e.c.False(), nil)
		}
		old, ok := st.heap[p.Obj]
		if !ok {
			old = e.globalInit[p.Obj]
		}
		st.heap[p.Obj] = e.setPath(old, p.Path, v)
	case 'r':
		r := st.regs[p.Obj]
		if r.Leaked || r.Frozen {
			e.oblig(st, "alias", fmt.Sprintf("write into %s, which is part of a recorded value", r.Origin), e.c.False(), nil)
		}
		if r.Stale {
			e.oblig(st, "alias", fmt.Sprintf("write into %s, which was extended by append", r.Origin), e.c.False(), nil)
		}
		old := e.reflect(e.c.SeqAt(r.Content, p.Idx), r.Elem)
		nt := e.reify(st, e.setPath(old, p.Path, v), r.Elem, true)
		nr := *r
		nr.Content = e.c.SeqUpd(r.Content, p.Idx, nt)
		st.regs[p.Obj] = &nr
		for b := r.Base; b > 0; {
			br := st.regs[b]
			if br == nil {
				break
			}
			nb := *br
			nb.Clob = true
			st.regs[b] = &nb
			b = br.Base
		}
	case 't':
		cell := e.tcell(st, p.Ref, p.HT)
		nv := e.reify(st, e.setPath(e.reflect(cell, p.HT), p.Path, v), p.HT, true)
		st.theap[typeName(p.HT)] = e.c.Store(e.theapOf(st, p.HT), p.Ref, nv)
	default:
		unsup("store")
	}
}
