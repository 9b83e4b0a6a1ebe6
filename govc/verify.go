package main

// Verification of one function against its contract, use of contracts at
// calls, and lemmas.

import (
	runtimedebug "runtime/debug"
	"fmt"
	"go/ast"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func (p *Prog) newExec(fn *ssa.Function, ct *Contract, limit time.Duration) *Exec {
	ts := NewTypeSorts()
	e := &Exec{p: p, ts: ts, c: NewCtx(ts), root: fn, ct: ct,
		ptrOf: map[int64]Val{}, ptrIdx: map[string]int64{}, roObj: map[int]string{}, globals: map[*ssa.Global]int{},
		seenObl: map[string]bool{}, loops: map[*ssa.Function]map[*ssa.BasicBlock]*Loop{}, feasCache: map[string]bool{},
		trustUsed: map[string]bool{}, specUsed: map[string]bool{}, inlined: map[string]bool{}, byContract: map[string]bool{}, candFail: map[string]int{},
		objType: map[int]types.Type{}, objName: map[int]string{}, iterStr: map[int]*Term{}, localObj: map[int]bool{}, globalInit: map[int]Val{},
		deadline: time.Now().Add(limit), reveal: map[string]bool{}}
	if ct != nil {
		for _, n := range ct.Reveal {
			e.reveal[n] = true
		}
	}
	// dynamic types that can occur in the interfaces of the repository
	for _, sp := range p.repoP {
		sc := sp.Pkg.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok {
				continue
			}
			if _, ok := tn.Type().Underlying().(*types.Interface); ok {
				for _, t := range p.implementers(tn.Type()) {
					ts.BoxTag(t)
				}
			}
		}
	}
	ts.BoxTag(errType)
	return e
}

// entryVal builds the unknown initial value of a parameter or field.
func (e *Exec) entryVal(st *State, name string, t types.Type, owner string) Val {
	c := e.c
	if sh := e.p.shadowOf(t); sh != nil {
		return e.entryObj(st, name, sh)
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		v := &StructV{}
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			v.F = append(v.F, e.entryVal(st, name+"."+f.Name(), f.Type(), typeName(t)+"."+f.Name()))
		}
		return v
	case *types.Array:
		v := &StructV{}
		for i := int64(0); i < u.Len(); i++ {
			v.F = append(v.F, e.entryVal(st, fmt.Sprintf("%s.%d", name, i), u.Elem(), ""))
		}
		return v
	case *types.Slice:
		seq := c.Var(name, e.ts.SortOf(t))
		if e.p.specs.owned[owner] || e.p.specs.owned[typeName(t)] && strings.HasPrefix(owner, "*") {
			return e.ownSlice(st, seq, u.Elem(), name)
		}
		return seq
	case *types.Pointer:
		if sh := e.p.shadowOf(u.Elem()); sh != nil {
			return e.entryObj(st, name, sh)
		}
		if heapTyped(u.Elem()) {
			r := c.Var(name, SInt)
			st.assume(c, c.Le(c.Int(0), r))
			st.assume(c, c.Lt(r, e.allocCtr(st)))
			if owner == "" { // receivers and parameters are not nil
				st.assume(c, c.Lt(c.Int(0), r))
			}
			return r
		}
		return e.entryObj(st, name, u.Elem())
	case *types.Map:
		e.nobj++
		o := e.nobj
		m := &MapObj{KT: u.Key(), VT: u.Elem()}
		ks, vs := e.ts.SortOf(u.Key()), e.ts.SortOf(u.Elem())
		m.Pres = c.Var(name+"!has", arrSort(ks, SBool))
		m.Vals = c.Var(name+"!val", arrSort(ks, vs))
		st.heap[o] = m
		e.objName[o] = name
		return &MapV{o}
	case *types.Signature:
		return &FuncV{Tag: name}
	case *types.Basic:
		v := c.Var(name, e.ts.SortOf(t))
		if u.Info()&types.IsUnsigned != 0 {
			st.assume(c, c.Le(c.Int(0), v))
			if u.Kind() == types.Uint8 {
				st.assume(c, c.Lt(v, c.Int(256)))
			}
		}
		return v
	}
	return c.Var(name, e.ts.SortOf(t))
}

func (e *Exec) entryObj(st *State, name string, t types.Type) Val {
	e.nobj++
	o := e.nobj
	e.objType[o] = t
	e.objName[o] = name
	st.heap[o] = e.entryVal(st, name, t, "*"+typeName(t))
	return &PtrV{Kind: 'o', Obj: o}
}

type FuncReport struct {
	Name      string
	Obl       []*Oblig
	Err       string
	Time      time.Duration
	Paths     int
	Feas      int
	Trust     []string
	Specs     []string
	Inlined   []string
	Contracts []string
	e         *Exec
}

func keysOf(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// verifyFunc generates the obligations of a function. want selects the
// obligations that matter to the caller (the others are not solved).
func (p *Prog) verifyFunc(name string, limit time.Duration, fast bool) (rep *FuncReport) {
	t0 := time.Now()
	rep = &FuncReport{Name: name}
	ct := p.specs.contracts[name]
	fn := p.funcs[name]
	defer func() { rep.Time = time.Since(t0) }()
	if fn == nil {
		rep.Err = "the function is not in the code"
		return
	}
	if len(fn.Params) != len(ct.Params) {
		rep.Err = fmt.Sprintf("the function has %d parameters, the contract %d", len(fn.Params), len(ct.Params))
		return
	}
	e := p.newExec(fn, ct, limit)
	e.fast = fast
	rep.e = e
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case unsupported:
				rep.Err = "outside the supported subset: " + r.msg + " (near " + e.pos(e.curPos) + ")"
			case specErr:
				if debug {
					runtimedebug.PrintStack()
				}
				rep.Err = "contract does not apply: " + r.msg
			case pathEnd:
			default:
				if debug {
					panic(r)
				}
				rep.Err = fmt.Sprintf("engine: %v (near %s)", r, e.pos(e.curPos))
			}
		}
		rep.Obl = e.obl
		rep.Paths, rep.Feas = e.paths, e.nfeas
		rep.Trust, rep.Specs, rep.Inlined, rep.Contracts = keysOf(e.trustUsed), keysOf(e.specUsed), keysOf(e.inlined), keysOf(e.byContract)
	}()
	c := e.c
	st := newState()
	for _, sp := range p.repoP {
		if sp == fn.Pkg || sp.Pkg == p.svgPkg {
			st = e.runInit(sp, st)
		}
	}
	e.allocCtr(st)
	for i, q := range fn.Params {
		v := e.entryVal(st, ct.Params[i], q.Type(), "")
		if s, ok := v.(*Term); ok && isSeq(s.Sort) && (ct.Appends[ct.Params[i]] || modifiesParam(ct, ct.Params[i])) {
			v = e.ownSlice(st, s, q.Type().Underlying().(*types.Slice).Elem(), ct.Params[i])
		}
		e.params = append(e.params, v)
		e.ptypes = append(e.ptypes, q.Type())
	}
	rs := fn.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		e.results = append(e.results, rs.At(i).Type())
	}
	e.entry = st.clone()
	pre := e.rootEnv(st)
	for _, r := range ct.Requires {
		st.assume(c, pre.bool(r.Expr))
	}
	for _, r := range ct.Assumes {
		st.assume(c, pre.bool(r.Expr))
		e.trustUsed["assumed at the entry of "+ct.Name+": "+r.Src] = true
	}
	e.entry = st.clone()
	// vacuity: the precondition can be met
	if len(st.pc) > 0 {
		q := &Query{c: c, assert: append(append([]*Term{}, st.pc...), e.groundFacts(st.pc, 1)...)}
		if quickCheck(q.Text(false)) == "unsat" {
			rep.Err = "the precondition is contradictory"
			return
		}
	}
	e.guard(func() {
		e.call(fn, e.params, nil, st, ct, func(st *State, res []Val) { e.atReturn(st, res) })
	})
	if e.rets == 0 && rep.Err == "" {
		rep.Err = "no return is reachable"
	}
	return
}

func modifiesParam(ct *Contract, name string) bool {
	for _, m := range ct.Modifies {
		if ix, ok := m.(*ast.IndexExpr); ok {
			m = ix.X
		}
		if id, ok := m.(*ast.Ident); ok && id.Name == name {
			return true
		}
	}
	return false
}

func (e *Exec) bindResults(env *specEnv, ct *Contract, res []Val, rts []types.Type) {
	for i, v := range res {
		n := fmt.Sprintf("r%d", i)
		if i < len(ct.Results) {
			n = ct.Results[i]
		}
		env.vars[n] = e.specVal(env.st, v, rts[i])
		if len(res) == 1 {
			env.vars["result"] = env.vars[n]
		}
	}
}

func (e *Exec) atReturn(st *State, res []Val) {
	e.rets++
	c := e.c
	env := e.rootEnv(st)
	e.bindResults(env, e.ct, res, e.results)
	for _, cl := range e.ct.Ensures {
		t := func() (t *Term) {
			defer func() {
				if r := recover(); r != nil {
					if s, ok := r.(specErr); ok {
						panic(specErr{cl.Line + ": " + s.msg})
					}
					panic(r)
				}
			}()
			return env.bool(cl.Expr)
		}()
		tags := cl.Tags
		if tags == nil {
			tags = e.autoTags("ensures")
		}
		name := cl.Label
		if name == "" {
			name = cl.Src
		}
		for i, g := range goalParts(t) {
			n := name
			if i > 0 {
				n = fmt.Sprintf("%s #%d", name, i+1)
			}
			e.oblig(st, "ensures", n, g, tags)
		}
	}
	if e.ct.NewResult {
		for i, v := range res {
			if _, ok := e.results[i].Underlying().(*types.Pointer); !ok {
				continue
			}
			p, ok := v.(*PtrV)
			if !ok || p.Kind != 'o' || len(p.Path) > 0 || !e.localObj[p.Obj] {
				e.oblig(st, "alias", "the result is a new object", c.False(), nil)
			}
		}
	}
	e.frameCheck(st)
}

// ---- locations ----

// loc is a location a contract lets a function modify.
type loc struct {
	ptr   *PtrV // object part or cell
	mapo  int   // map object
	reg   int   // region of a slice parameter
	slice *SliceV
	theap string
	ghost string
	typ   types.Type
	name  string
}

func (env *specEnv) locOf(x ast.Expr) []loc {
	e := env.e
	name := exprStr(x)
	switch x := x.(type) {
	case *ast.CallExpr:
		if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "heap" {
			t := e.p.typeOf(x.Args[0])
			return []loc{{theap: typeName(t), typ: t, name: name}}
		}
	case *ast.Ident:
		if gt, ok := e.p.specs.ghosts[x.Name]; ok {
			return []loc{{ghost: x.Name, typ: e.p.typeOf(gt), name: name}}
		}
		if v, ok := env.vars[x.Name]; ok {
			switch s := v.v.(type) {
			case *SliceV:
				return []loc{{reg: s.Reg, slice: s, typ: v.t, name: name}}
			case *MapV:
				return []loc{{mapo: s.Obj, typ: v.t, name: name}}
			case *Term:
				if s.Op == "empty" {
					return nil
				}
			}
		}
	case *ast.IndexExpr:
		v := env.eval(x.X)
		if s, ok := v.v.(*SliceV); ok {
			i := env.eval(x.Index).v.(*Term)
			return []loc{{ptr: &PtrV{Kind: 'r', Obj: s.Reg, Idx: e.c.Add(s.Off, i)}, typ: v.t.Underlying().(*types.Slice).Elem(), name: name}}
		}
	case *ast.StarExpr:
		v := env.eval(x.X)
		pt := v.t.Underlying().(*types.Pointer)
		return []loc{{ptr: e.asPtr(env.st, v.v, v.t), typ: pt.Elem(), name: name}}
	case *ast.SelectorExpr:
		p, t := env.lvalue(x)
		if mv, ok := e.load(env.st, p).(*MapV); ok {
			return []loc{{mapo: mv.Obj, typ: t, name: name}}
		}
		return []loc{{ptr: p, typ: t, name: name}}
	}
	serr("modifies %s", name)
	return nil
}

// lvalue gives the address of a field expression.
func (env *specEnv) lvalue(x ast.Expr) (*PtrV, types.Type) {
	e := env.e
	se, ok := x.(*ast.SelectorExpr)
	if !ok {
		serr("location %s", exprStr(x))
	}
	var base *PtrV
	var t types.Type
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(specErr); !ok {
					panic(r)
				}
				base, t = env.lvalue(se.X)
			}
		}()
		v := env.eval(se.X)
		if pt, ok := v.t.Underlying().(*types.Pointer); ok {
			if tm, ok := v.v.(*Term); ok {
				base, t = &PtrV{Kind: 't', Ref: tm, HT: pt.Elem()}, pt.Elem()
			} else {
				base, t = v.v.(*PtrV), pt.Elem()
			}
			return
		}
		base, t = env.lvalue(se.X)
	}()
	if sh := e.p.shadowOf(t); sh != nil {
		t = sh
	}
	// embedded fields on the way
	var find func(t types.Type, name string) ([]int, types.Type)
	find = func(t types.Type, name string) ([]int, types.Type) {
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			return nil, nil
		}
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == name {
				return []int{i}, s.Field(i).Type()
			}
		}
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Embedded() {
				if p, ft := find(s.Field(i).Type(), name); p != nil {
					return append([]int{i}, p...), ft
				}
			}
		}
		return nil, nil
	}
	path, ft := find(t, se.Sel.Name)
	if path == nil {
		serr("no field %s in %s", se.Sel.Name, t)
	}
	q := *base
	q.Path = append(append([]pathEl{}, base.Path...), ints(path)...)
	return &q, ft
}

// frameCheck: everything that existed at entry and is not in the modifies
// clause has its old value.
func (e *Exec) frameCheck(st *State) {
	c := e.c
	env := e.rootEnv(e.entry)
	type area struct {
		obj  int
		path []int
	}
	var areas []area
	maps, regs, theaps, ghosts := map[int]bool{}, map[int]bool{}, map[string]bool{}, map[string]bool{}
	cells := []*PtrV{}
	elems := map[int][]*Term{}
	for _, m := range e.ct.Modifies {
		for _, l := range env.locOf(m) {
			switch {
			case l.ptr != nil && l.ptr.Kind == 'o':
				var p []int
				for _, x := range l.ptr.Path {
					p = append(p, x.f)
				}
				areas = append(areas, area{l.ptr.Obj, p})
			case l.ptr != nil && l.ptr.Kind == 't':
				cells = append(cells, l.ptr)
			case l.ptr != nil && l.ptr.Kind == 'r':
				elems[l.ptr.Obj] = append(elems[l.ptr.Obj], l.ptr.Idx)
			case l.mapo != 0:
				maps[l.mapo] = true
			case l.theap != "":
				theaps[l.theap] = true
			case l.ghost != "":
				ghosts[l.ghost] = true
			case l.slice != nil:
				regs[l.reg] = true
			}
		}
	}
	for obj, ov := range e.entry.heap {
		nv, ok := st.heap[obj]
		if !ok {
			continue
		}
		if om, ok := ov.(*MapObj); ok {
			nm := nv.(*MapObj)
			if maps[obj] || om == nm || om.Conc {
				continue
			}
			g := c.And(c.Eq(om.Pres, nm.Pres), c.Eq(om.Vals, nm.Vals))
			e.oblig(st, "frame", "map "+e.objName[obj]+" unchanged", g, nil)
			continue
		}
		t := e.objType[obj]
		diffVal(ov, nv, nil, func(path []int) {
			for _, a := range areas {
				if a.obj == obj && len(a.path) <= len(path) {
					same := true
					for i := range a.path {
						if a.path[i] != path[i] {
							same = false
						}
					}
					if same {
						return
					}
				}
			}
			ot, nt := e.getPath(ov, ints(path)), e.getPath(nv, ints(path))
			ft := typeAt(t, path)
			if ft == nil {
				return
			}
			var g *Term
			if _, ok := ft.Underlying().(*types.Slice); ok {
				g = c.Eq(e.sliceSeq(e.entry, ot), e.sliceSeq(st, nt))
			} else {
				g = c.Eq(e.reify(e.entry, ot, ft, false), e.reify(st, nt, ft, false))
			}
			e.oblig(st, "frame", e.locName(obj, path)+" unchanged", g, nil)
		})
		// owned slices keep their owner
		if t != nil {
			e.ownedCheck(st, nv, t, e.objName[obj])
		}
		// slices that stayed in place keep their elements
		e.sameElems(st, ov, nv, t, e.objName[obj], func(path []int) bool {
			for _, a := range areas {
				if a.obj == obj && len(a.path) <= len(path) {
					same := true
					for i := range a.path {
						if a.path[i] != path[i] {
							same = false
						}
					}
					if same {
						return true
					}
				}
			}
			return false
		}, nil)
	}
	for i, v := range e.params {
		if s, ok := v.(*SliceV); ok && !regs[s.Reg] {
			a, b := e.sliceSeq(e.entry, s), e.sliceSeq(st, s)
			for _, i := range elems[s.Reg] {
				i = c.Sub(i, s.Off)
				a = c.SeqUpd(a, i, c.SeqAt(b, i))
			}
			if a != b {
				e.oblig(st, "frame", "elements of "+e.ct.Params[i]+" unchanged", c.Eq(a, b), nil)
			}
			if st.regs[s.Reg].Clob && !e.ct.Appends[e.ct.Params[i]] {
				e.oblig(st, "alias", "slice "+e.ct.Params[i]+" may be overwritten", c.False(), nil)
			}
		}
	}
	if a, b := e.allocCtr(e.entry), e.allocCtr(st); a != b && len(theaps) == 0 {
		e.oblig(st, "frame", "no cell allocated", c.Eq(a, b), nil)
	}
	for k, v := range st.theap {
		ov, ok := e.entry.theap[k]
		if !ok {
			ov = c.Var("heap0."+k, v.Sort)
		}
		if ov == v || theaps[k] {
			continue
		}
		nv := ov
		for _, p := range cells {
			if typeName(p.HT) == k {
				nv = c.Store(nv, p.Ref, c.Select(v, p.Ref, e.ts.SortOf(p.HT)))
			}
		}
		if nv == v {
			continue
		}
		r := c.Fresh("sk.ref", SInt)
		vs := elemOfArr(v.Sort)
		excl := []*Term{c.Le(c.Int(0), r), c.Lt(r, e.allocCtr(e.entry))}
		for _, p := range cells {
			if typeName(p.HT) == k {
				excl = append(excl, c.Not(c.Eq(r, p.Ref)))
			}
		}
		e.oblig(st, "frame", "cells of "+k+" unchanged", c.Imp(c.And(excl...), c.Eq(c.Select(ov, r, vs), c.Select(v, r, vs))), nil)
	}
	for k, v := range st.ghost {
		if k == "alloc" || ghosts[k] {
			continue
		}
		ov, ok := e.entry.ghost[k]
		if !ok {
			ov = c.Var("ghost0."+k, v.Sort)
		}
		if ov != v {
			e.oblig(st, "frame", "ghost "+k+" unchanged", c.Eq(ov, v), nil)
		}
	}
}

func elemOfArr(s Sort) Sort {
	inner := strings.TrimSuffix(strings.TrimPrefix(string(s), "(Array "), ")")
	i := strings.Index(inner, " ")
	return Sort(inner[i+1:])
}

func (e *Exec) sameElems(st *State, ov, nv Val, t types.Type, name string, mod func([]int) bool, path []int) {
	switch o := ov.(type) {
	case *StructV:
		n, ok := nv.(*StructV)
		if !ok {
			return
		}
		for i := range o.F {
			e.sameElems(st, o.F[i], n.F[i], nil, name, mod, append(append([]int{}, path...), i))
		}
	case *SliceV:
		n, ok := nv.(*SliceV)
		if !ok || n.Reg != o.Reg || mod(path) {
			return
		}
		a, b := e.sliceSeq(e.entry, o), e.sliceSeq(st, n)
		if a != b {
			e.oblig(st, "frame", "elements in "+name+" unchanged", e.c.Eq(a, b), nil)
		}
	}
}

// ownedCheck: an owned slice field ends with a backing array nobody else holds.
func (e *Exec) ownedCheck(st *State, v Val, t types.Type, name string) {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		if sv, ok := v.(*SliceV); ok && e.p.specs.owned[typeName(t)] {
			e.ownedSlice(st, sv, name)
		}
		return
	}
	sv, ok := v.(*StructV)
	if !ok {
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if e.p.specs.owned[typeName(t)+"."+f.Name()] {
			if x, ok := sv.F[i].(*SliceV); ok {
				e.ownedSlice(st, x, name+"."+f.Name())
			} else if x, ok := sv.F[i].(*Term); ok && e.p.specs.moved[typeName(t)] {
				if x.Op != "empty" {
					e.trustUsed["values of type "+typeName(t)+" are moved, not shared"] = true
				}
			} else if ok && x.Op != "empty" {
				e.oblig(st, "alias", name+"."+f.Name()+" does not share a recorded value", e.c.Eq(e.c.SeqLen(x), e.c.Int(0)), nil)
			}
		} else if _, ok := f.Type().Underlying().(*types.Struct); ok {
			e.ownedCheck(st, sv.F[i], f.Type(), name+"."+f.Name())
		}
	}
}

func (e *Exec) ownedSlice(st *State, x *SliceV, name string) {
	r := st.regs[x.Reg]
	if r.Leaked || r.Frozen || r.Clob {
		n := e.c.SeqLen(r.Content) // an empty part of a shared array would be extended into it
		if x.Full {
			n = x.Len
		}
		e.oblig(st, "alias", name+" does not share memory with a recorded value", e.c.Eq(n, e.c.Int(0)), nil)
	}
}

// ---- calls by contract ----

func (e *Exec) callContract(fr *Frame, fn *ssa.Function, ct *Contract, args []Val, st *State, k Cont) {
	var pts []types.Type
	for _, q := range fn.Params {
		pts = append(pts, q.Type())
	}
	if len(fn.Params) == 0 { // library functions without a body
		if r := fn.Signature.Recv(); r != nil {
			pts = append(pts, r.Type())
		}
		for i := 0; i < fn.Signature.Params().Len(); i++ {
			pts = append(pts, fn.Signature.Params().At(i).Type())
		}
	}
	e.callBy(ct, fn.Name(), pts, fn.Signature.Results(), args, st, k)
}

// specVal is the value as contracts see it: library objects by their record,
// functions by their name.
func (e *Exec) specVal(st *State, v Val, t types.Type) typedVal {
	switch x := v.(type) {
	case *PtrV:
		if x.Kind != 'o' || len(x.Path) > 0 {
			break
		}
		el := t
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			el = pt.Elem()
		}
		if sh := e.p.shadowOf(el); sh != nil {
			return typedVal{v, types.NewPointer(sh)}
		}
		if _, ok := t.Underlying().(*types.Interface); ok {
			return typedVal{e.boxObj(st, x), t}
		}
	case *FuncV:
		if x.Fn != nil && len(x.Binds) == 0 || x.Tag != "" {
			return typedVal{e.reify(st, v, t, false), t}
		}
	}
	return typedVal{v, t}
}

// boxObj gives a library object as an interface value: its record now.
func (e *Exec) boxObj(st *State, p *PtrV) *Term {
	ot := e.objType[p.Obj]
	e.trustUsed["a "+typeName(ot)+" handed over as an interface value is not changed afterwards"] = true
	return e.box(st, st.heap[p.Obj], ot)
}

func (e *Exec) callBy(ct *Contract, fname string, pts []types.Type, rs *types.Tuple, args []Val, st *State, k Cont) {
	c := e.c
	if ct.Trusted != "" {
		e.trustUsed["contract of "+ct.Name+" ("+ct.Trusted+")"] = true
	}
	mk := func(old, cur *State) *specEnv {
		env := &specEnv{e: e, st: cur, old: old, vars: map[string]typedVal{}}
		for i, n := range ct.Params {
			env.vars[n] = e.specVal(cur, args[i], pts[i])
		}
		return env
	}
	pre := st.clone()
	env := mk(pre, pre)
	if e.dry == 0 {
		for _, r := range ct.Requires {
			t := env.bool(r.Expr)
			tags := r.Tags
			if tags == nil {
				tags = e.autoTags("bounds")
				tags = append(append([]string{}, tags...), e.autoTags("requires")...)
			}
			for _, g := range goalParts(t) {
				e.oblig(st, "requires", ct.Name+": "+r.Src, g, tags)
			}
			st.assume(c, t)
		}
	}
	pre = st.clone()
	env = mk(pre, pre)
	// owned slices passed along must be unshared: checked by the caller's own frame
	fresh := map[*Term]bool{}
	note := func(v Val) {
		var walk func(v Val)
		walk = func(v Val) {
			switch v := v.(type) {
			case *Term:
				if v.Op == "var" {
					fresh[v] = true
				}
			case *StructV:
				for _, f := range v.F {
					walk(f)
				}
			case *SliceV:
				if t := st.regs[v.Reg].Content; t.Op == "var" {
					fresh[t] = true
				}
			case *PtrV:
				if v.Kind == 'o' && len(v.Path) == 0 {
					walk(st.heap[v.Obj])
				}
			}
		}
		walk(v)
	}
	heapish := false
	for _, m := range ct.Modifies {
		for _, l := range env.locOf(m) {
			switch {
			case l.ptr != nil:
				nv := e.freshField(st, l, ct.Name)
				note(nv)
				e.store(st, l.ptr, nv)
			case l.mapo != 0:
				mo := *(st.heap[l.mapo].(*MapObj))
				if e.roObj[l.mapo] != "" {
					unsup("contract modifies a constant map")
				}
				mo.Pres = c.Fresh(l.name+".has", mo.Pres.Sort)
				mo.Vals = c.Fresh(l.name+".val", mo.Vals.Sort)
				fresh[mo.Pres], fresh[mo.Vals] = true, true
				st.heap[l.mapo] = &mo
			case l.slice != nil:
				r := *st.regs[l.reg]
				if r.Frozen || r.Leaked || r.Stale {
					e.oblig(st, "alias", fmt.Sprintf("%s writes into %s, which is shared", ct.Name, r.Origin), c.False(), nil)
				}
				nc := c.Fresh(l.name, r.Content.Sort)
				st.assume(c, c.Eq(c.SeqLen(nc), c.SeqLen(r.Content)))
				if l.slice.Off != c.Int(0) || l.slice.Len != c.SeqLen(r.Content) {
					// the elements outside the view are kept
					i := c.BVar("i!keep", SInt)
					in := c.And(c.Le(l.slice.Off, i), c.Lt(i, c.Add(l.slice.Off, l.slice.Len)))
					st.assume(c, c.Forall(i, c.Or(in, c.mk("=", SBool, c.mk("at", elemSort(nc.Sort), nc, i), c.mk("at", elemSort(nc.Sort), r.Content, i)))))
				}
				r.Content = nc
				st.regs[l.reg] = &r
			case l.theap != "":
				t := c.Fresh("heap."+l.theap, e.theapOf(st, l.typ).Sort)
				fresh[t] = true
				st.theap[l.theap] = t
				heapish = true
			case l.ghost != "":
				t := c.Fresh("ghost."+l.ghost, e.ts.SortOf(l.typ))
				fresh[t] = true
				st.ghost[l.ghost] = t
			}
		}
	}
	if heapish {
		a := e.allocCtr(st)
		n := c.Fresh("alloc", SInt)
		st.ghost["alloc"] = n
		fresh[n] = true
		st.assume(c, c.Le(a, n))
	}
	var res []Val
	var rts []types.Type
	for i := 0; i < rs.Len(); i++ {
		rt := rs.At(i).Type()
		nm := fname + ".r"
		if i < len(ct.Results) {
			nm = fname + "." + ct.Results[i]
		}
		var v Val
		if pt, ok := rt.Underlying().(*types.Pointer); ok && ct.NewResult && !heapTyped(pt.Elem()) && e.p.shadowOf(pt.Elem()) == nil {
			e.nobj++
			e.objType[e.nobj], e.objName[e.nobj], e.localObj[e.nobj] = pt.Elem(), nm, true
			o := e.nobj
			st.heap[o] = e.freshVal(st, nm, pt.Elem())
			v = &PtrV{Kind: 'o', Obj: o}
		} else {
			v = e.freshVal(st, nm, rt)
		}
		note(v)
		res = append(res, v)
		rts = append(rts, rt)
	}
	post := mk(pre, st)
	e.bindResults(post, ct, res, rts)
	var eqs []*Term
	for _, cl := range ct.Ensures {
		if cl.Local {
			continue
		}
		eqs = append(eqs, goalParts(post.bool(cl.Expr))...)
	}
	// definitional equations replace the unknowns they define
	sub := map[*Term]*Term{}
	var rest []*Term
	for _, q := range eqs {
		q = c.Subst(q, sub)
		if v, d := definition(c, q, fresh); v != nil {
			one := map[*Term]*Term{v: d}
			for x, y := range sub {
				sub[x] = c.Subst(y, one)
			}
			sub[v] = d
			delete(fresh, v)
			continue
		}
		rest = append(rest, q)
	}
	if len(sub) > 0 {
		e.substState(st, sub)
		for i := range res {
			res[i] = e.substVal(st, res[i], sub)
		}
	}
	for _, q := range rest {
		st.assume(c, c.Subst(q, sub))
	}
	if e.dry == 0 && len(rest) > 0 && len(sub) > 0 {
		// nothing: contradictions surface as unreachable paths of the caller
		_ = rest
	}
	k(st, res)
}

// freshField is a new unknown for a modified location; owned slices get a
// region of their own.
func (e *Exec) freshField(st *State, l loc, who string) Val {
	return e.freshVal(st, l.name, l.typ)
}

func occurs(v, t *Term) bool {
	found := false
	collect([]*Term{t}, map[*Term]bool{}, func(x *Term) {
		if x == v {
			found = true
		}
	})
	return found
}

func definition(c *Ctx, q *Term, fresh map[*Term]bool) (*Term, *Term) {
	if q.Op == "var" && fresh[q] {
		return q, c.True()
	}
	if q.Op == "not" && fresh[q.Args[0]] {
		return q.Args[0], c.False()
	}
	if q.Op != "=" {
		return nil, nil
	}
	for i := 0; i < 2; i++ {
		v, d := q.Args[i], q.Args[1-i]
		if fresh[v] && !occurs(v, d) {
			return v, d
		}
		if v.Op == "len" && fresh[v.Args[0]] && d == c.Int(0) {
			return v.Args[0], c.Empty(v.Args[0].Sort)
		}
	}
	return nil, nil
}

func (e *Exec) substVal(st *State, v Val, m map[*Term]*Term) Val {
	switch v := v.(type) {
	case *Term:
		return e.c.Subst(v, m)
	case *StructV:
		n := &StructV{make([]Val, len(v.F))}
		for i := range v.F {
			n.F[i] = e.substVal(st, v.F[i], m)
		}
		return n
	case *SliceV:
		n := *v
		n.Off, n.Len = e.c.Subst(v.Off, m), e.c.Subst(v.Len, m)
		return &n
	case *MapObj:
		if v.Conc {
			return v
		}
		n := *v
		n.Pres, n.Vals = e.c.Subst(v.Pres, m), e.c.Subst(v.Vals, m)
		return &n
	case TupleV:
		n := make(TupleV, len(v))
		for i := range v {
			n[i] = e.substVal(st, v[i], m)
		}
		return n
	}
	return v
}

func (e *Exec) substState(st *State, m map[*Term]*Term) {
	c := e.c
	for o, v := range st.heap {
		st.heap[o] = e.substVal(st, v, m)
	}
	for r, v := range st.regs {
		if t := c.Subst(v.Content, m); t != v.Content {
			n := *v
			n.Content = t
			st.regs[r] = &n
		}
	}
	for k, v := range st.theap {
		st.theap[k] = c.Subst(v, m)
	}
	for k, v := range st.ghost {
		st.ghost[k] = c.Subst(v, m)
	}
	pc := st.pc
	st.pc, st.pcset = nil, map[int]bool{}
	for _, p := range pc {
		st.assume(c, c.Subst(p, m))
	}
}

// ---- lemmas ----

func (p *Prog) verifyLemma(l *Lemma, limit time.Duration) (rep *FuncReport) {
	t0 := time.Now()
	rep = &FuncReport{Name: "lemma " + l.Name}
	e := p.newExec(nil, nil, limit)
	for _, n := range l.Reveal {
		e.reveal[n] = true
	}
	rep.e = e
	defer func() {
		rep.Time = time.Since(t0)
		if r := recover(); r != nil {
			switch r := r.(type) {
			case unsupported:
				rep.Err = r.msg
			case specErr:
				rep.Err = "specification: " + r.msg
			default:
				if debug {
					panic(r)
				}
				rep.Err = fmt.Sprint(r)
			}
		}
		rep.Obl = e.obl
		rep.Specs = keysOf(e.specUsed)
	}()
	c := e.c
	st := newState()
	for _, sp := range p.repoP {
		if sp.Pkg == p.svgPkg {
			st = e.runInit(sp, st)
		}
	}
	e.entry = st
	env := &specEnv{e: e, st: st, old: st, vars: map[string]typedVal{}}
	var ind *Term
	for i, n := range l.Params {
		t := p.typeOf(l.PTypes[i])
		var v Val = c.Var(n, e.ts.SortOf(t))
		if isAgg(t) {
			v = e.reflect(v.(*Term), t)
		}
		env.vars[n] = typedVal{v, t}
		if n == l.Induct {
			ind = v.(*Term)
		}
	}
	for _, r := range l.Requires {
		st.assume(c, env.bool(r.Expr))
	}
	var goals []*Term
	for _, g := range l.Ensures {
		goals = append(goals, env.bool(g.Expr))
	}
	if ind != nil {
		// strong hypothesis at the predecessor: the statement for ind-1
		prev := map[*Term]*Term{ind: c.Sub(ind, c.Int(1))}
		hyp := c.True()
		for _, r := range l.Requires {
			hyp = c.And(hyp, c.Subst(env.bool(r.Expr), prev))
		}
		con := c.True()
		for _, g := range goals {
			con = c.And(con, c.Subst(g, prev))
		}
		st.assume(c, c.Imp(c.And(hyp, c.Le(c.Int(0), c.Sub(ind, c.Int(1)))), con))
	}
	for _, h := range l.Hints {
		v := env.eval(h)
		if t, ok := v.v.(*Term); ok {
			st.assume(c, c.mk("=", SBool, t, c.Fresh("hint", t.Sort)))
		}
	}
	for i, g := range goals {
		for _, q := range goalParts(g) {
			o := &Oblig{Fn: "lemma " + l.Name, Kind: "lemma", Name: l.Ensures[i].Src, Tags: l.Tags, PC: append([]*Term{}, st.pc...), Goal: q}
			if q.isTrue() {
				o.Status = "simplifier"
			}
			e.obl = append(e.obl, o)
		}
	}
	return
}
