package main

// Loops without a concrete trip count: the head is cut with the invariants
// that survive a Houdini pass over the candidates of the contract and the
// automatic ones. The set of modified locations is computed by exploration.

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type loopMode int

const (
	modeDry loopMode = iota
	modeHoudini
	modeFinal
)

type LoopCtx struct {
	l      *Loop
	mode   loopMode
	head   *State
	env    map[ssa.Value]Val // phi values at the head
	k      *Term
	backs  []*backState
	sets   *modset
	cands  []*cand
	fr     *Frame
	init   map[*ssa.Phi]Val
	initSt *State
}

type backState struct {
	st  *State
	env map[*ssa.Phi]Val
	fr  *Frame
}

type modset struct {
	phis   map[*ssa.Phi]bool
	affine map[*ssa.Phi]*Term // step
	locs   map[string]mloc
	regs   map[int]bool
	flags  map[int]*Region
	theap  map[string]bool
	ghost  map[string]bool
}

type mloc struct {
	obj  int
	path []int
}

type cand struct {
	meta bool // an instance of a clause with unknowns
	name string
	tags []string
	eval func(le *loopEnv) *Term
}

type loopEnv struct {
	st  *State
	phi map[*ssa.Phi]Val
	k   *Term
	lc  *LoopCtx
}

func newModset() *modset {
	return &modset{map[*ssa.Phi]bool{}, map[*ssa.Phi]*Term{}, map[string]mloc{}, map[int]bool{}, map[int]*Region{}, map[string]bool{}, map[string]bool{}}
}

func headPhis(b *ssa.BasicBlock) []*ssa.Phi {
	var ps []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, p)
	}
	return ps
}

func sameVal(a, b Val) bool {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		return ok && x == y
	case *StructV:
		y, ok := b.(*StructV)
		if !ok || len(x.F) != len(y.F) {
			return false
		}
		for i := range x.F {
			if !sameVal(x.F[i], y.F[i]) {
				return false
			}
		}
		return true
	case *SliceV:
		y, ok := b.(*SliceV)
		return ok && x.Reg == y.Reg && x.Off == y.Off && x.Len == y.Len
	case *PtrV:
		y, ok := b.(*PtrV)
		return ok && fmt.Sprint(*x) == fmt.Sprint(*y)
	case *MapV:
		y, ok := b.(*MapV)
		return ok && x.Obj == y.Obj
	case *MapObj:
		y, ok := b.(*MapObj)
		return ok && (x == y || !x.Conc && x.Pres == y.Pres && x.Vals == y.Vals)
	case *FuncV:
		y, ok := b.(*FuncV)
		return ok && x.Fn == y.Fn && len(x.Binds) == 0 && len(y.Binds) == 0 || a == b
	case *IterV:
		y, ok := b.(*IterV)
		return ok && x.Obj == y.Obj
	case TupleV:
		y, ok := b.(TupleV)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameVal(x[i], y[i]) {
				return false
			}
		}
		return true
	}
	return a == b
}

func diffVal(a, b Val, path []int, add func([]int)) {
	if sameVal(a, b) {
		return
	}
	x, ok1 := a.(*StructV)
	y, ok2 := b.(*StructV)
	if ok1 && ok2 && len(x.F) == len(y.F) {
		for i := range x.F {
			diffVal(x.F[i], y.F[i], append(append([]int{}, path...), i), add)
		}
		return
	}
	add(path)
}

func (e *Exec) freshVal(st *State, hint string, t types.Type) Val {
	c := e.c
	{
		el := t
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			el = pt.Elem()
		}
		if sh := e.p.shadowOf(el); sh != nil { // a new library object
			e.nobj++
			o := e.nobj
			e.objType[o], e.objName[o], e.localObj[o] = sh, hint, true
			st.heap[o] = e.freshVal(st, hint, sh)
			return &PtrV{Kind: 'o', Obj: o}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		v := &StructV{}
		for i := 0; i < u.NumFields(); i++ {
			v.F = append(v.F, e.freshVal(st, hint+"."+u.Field(i).Name(), u.Field(i).Type()))
		}
		return v
	case *types.Array:
		v := &StructV{}
		for i := int64(0); i < u.Len(); i++ {
			v.F = append(v.F, e.freshVal(st, fmt.Sprintf("%s.%d", hint, i), u.Elem()))
		}
		return v
	case *types.Slice:
		seq := c.Fresh(hint, e.ts.SortOf(t))
		return e.ownSlice(st, seq, u.Elem(), hint)
	case *types.Pointer:
		if heapTyped(u.Elem()) {
			return c.Fresh(hint, SRef)
		}
		if n, ok := types.Unalias(u.Elem()).(*types.Named); ok && n.Obj().Pkg() != nil && !e.p.repoType(n) {
			return c.Fresh(hint, SRef) // a library object nothing is known about
		}
		unsup("fresh pointer %s of type %s", hint, t)
	case *types.Signature:
		return c.Fresh(hint, SRef)
	case *types.Map, *types.Chan:
		unsup("fresh value of type %s", t)
	case *types.Basic:
		v := c.Fresh(hint, e.ts.SortOf(t))
		if u.Info()&types.IsUnsigned != 0 {
			st.assume(c, c.Le(c.Int(0), v))
			if u.Kind() == types.Uint8 {
				st.assume(c, c.Lt(v, c.Int(256)))
			}
		}
		return v
	}
	return c.Fresh(hint, e.ts.SortOf(t))
}

func typeAt(t types.Type, path []int) types.Type {
	for _, i := range path {
		fs := structFields(t)
		if fs == nil || i >= len(fs) {
			return nil
		}
		t = fs[i]
	}
	return t
}

func ints(path []int) []pathEl {
	var p []pathEl
	for _, i := range path {
		p = append(p, pathEl{f: i})
	}
	return p
}

// havoc builds the state at the loop head.
func (e *Exec) havoc(fr *Frame, snap *hdrSnap, lc *LoopCtx) (*State, *Frame) {
	c := e.c
	st := snap.st.clone()
	f := fr.clone()
	f.env = cloneEnv(snap.env)
	m := lc.sets
	lc.k = c.Fresh("K", SInt)
	st.assume(c, c.Le(c.Int(0), lc.k))
	lc.env = map[ssa.Value]Val{}
	for _, p := range headPhis(lc.l.head) {
		v := lc.init[p]
		if m.phis[p] {
			if step := m.affine[p]; step != nil {
				k := lc.k
				if step.Sort == SReal {
					k = c.ToReal(k)
				}
				v = c.Add(lc.init[p].(*Term), c.Mul(step, k))
			} else {
				name := p.Comment
				if name == "" {
					name = p.Name()
				}
				v = e.freshVal(st, name, p.Type())
			}
		}
		f.env[p] = v
		lc.env[p] = v
	}
	var keys []string
	for k := range m.locs {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		l := m.locs[k]
		old := st.heap[l.obj]
		if mo, ok := old.(*MapObj); ok {
			n := *mo
			if mo.Conc {
				unsup("loop modifies a function table")
			}
			n.Pres = c.Fresh("map.pres", mo.Pres.Sort)
			n.Vals = c.Fresh("map.vals", mo.Vals.Sort)
			st.heap[l.obj] = &n
			continue
		}
		t := typeAt(e.objType[l.obj], l.path)
		var nv Val
		if t == nil {
			ot, ok := e.getPath(old, ints(l.path)).(*Term)
			if !ok {
				unsup("loop modifies an object of unknown type")
			}
			nv = c.Fresh("loc", ot.Sort)
			if e.iterStr[l.obj] != nil {
				st.assume(c, c.Le(c.Int(0), nv.(*Term)))
			}
		} else {
			nv = e.freshVal(st, e.locName(l.obj, l.path), t)
		}
		st.heap[l.obj] = e.setPath(old, ints(l.path), nv)
	}
	var rs []int
	for r := range m.regs {
		rs = append(rs, r)
	}
	sort.Ints(rs)
	for _, r := range rs {
		old := st.regs[r]
		if old == nil {
			continue
		}
		n := *old
		n.Content = c.Fresh("elems", old.Content.Sort)
		st.assume(c, c.Eq(c.SeqLen(n.Content), c.SeqLen(old.Content)))
		st.regs[r] = &n
	}
	for r, fl := range m.flags {
		if old := st.regs[r]; old != nil {
			n := *old
			n.Leaked = n.Leaked || fl.Leaked
			n.Stale = n.Stale || fl.Stale
			n.Clob = n.Clob || fl.Clob
			st.regs[r] = &n
		}
	}
	for k := range m.theap {
		st.theap[k] = c.Fresh("heap."+k, st.theap[k].Sort)
	}
	for k := range m.ghost {
		st.ghost[k] = c.Fresh("ghost."+k, st.ghost[k].Sort)
	}
	return st, f
}

func (e *Exec) locName(obj int, path []int) string {
	n := e.objName[obj]
	if n == "" {
		n = "o"
	}
	t := e.objType[obj]
	for _, i := range path {
		if t != nil {
			if s, ok := t.Underlying().(*types.Struct); ok && i < s.NumFields() {
				n += "." + s.Field(i).Name()
				t = s.Field(i).Type()
				continue
			}
		}
		n += fmt.Sprintf(".%d", i)
		if t != nil {
			t = typeAt(t, []int{i})
		}
	}
	return n
}

// update adds the differences of the back edges to the set.
func (m *modset) update(e *Exec, lc *LoopCtx) bool {
	ch := false
	for _, b := range lc.backs {
		for _, p := range headPhis(lc.l.head) {
			if !m.phis[p] && !sameVal(lc.env[p], b.env[p]) {
				m.phis[p] = true
				ch = true
			}
		}
		for obj, v := range lc.head.heap {
			bv, ok := b.st.heap[obj]
			if !ok {
				continue
			}
			diffVal(v, bv, nil, func(path []int) {
				k := fmt.Sprint(obj, path)
				if _, ok := m.locs[k]; !ok {
					m.locs[k] = mloc{obj, path}
					ch = true
				}
			})
		}
		for r, v := range lc.head.regs {
			bv := b.st.regs[r]
			if bv == nil || lc.initSt.regs[r] == nil {
				continue // regions made for the exploration are unknown anyway
			}
			if bv.Content != v.Content && !m.regs[r] {
				m.regs[r] = true
				ch = true
			}
			if bv.Leaked && !v.Leaked || bv.Stale && !v.Stale || bv.Clob && !v.Clob {
				f := m.flags[r]
				if f == nil {
					f = &Region{}
				}
				n := *f
				n.Leaked = n.Leaked || bv.Leaked
				n.Stale = n.Stale || bv.Stale
				n.Clob = n.Clob || bv.Clob
				if n != *f {
					m.flags[r] = &n
					ch = true
				}
			}
		}
		for k, v := range b.st.theap {
			if hv, ok := lc.head.theap[k]; ok && hv != v && !m.theap[k] {
				m.theap[k] = true
				ch = true
			} else if !ok && v.Op != "var" {
				m.theap[k] = true
				ch = true
			}
		}
		for k, v := range b.st.ghost {
			if lc.head.ghost[k] != v && !m.ghost[k] {
				m.ghost[k] = true
				ch = true
			}
		}
	}
	return ch
}

func (e *Exec) runBody(lc *LoopCtx, f *Frame, st *State, k Cont) {
	f.loops[lc.l] = lc
	delete(f.hdr, lc.l)
	b := lc.l.head
	i := len(headPhis(b))
	e.guard(func() { e.instrs(f, b, i, st, k) })
}

func (e *Exec) cutLoop(fr *Frame, l *Loop, snap *hdrSnap, k Cont) {
	c := e.c
	base := fr.clone()
	base.env = cloneEnv(snap.env)
	init := map[*ssa.Phi]Val{}
	{
		f := base.clone()
		e.phis(f, l.head, snap.pred)
		for _, p := range headPhis(l.head) {
			init[p] = f.env[p]
		}
	}
	sets := newModset()
	explore := func(mode loopMode, cands []*cand) *LoopCtx {
		lc := &LoopCtx{l: l, mode: mode, sets: sets, init: init, fr: base, cands: cands, initSt: snap.st}
		st, f := e.havoc(base, snap, lc)
		le := &loopEnv{st: st, phi: phiMap(lc), k: lc.k, lc: lc}
		for _, cd := range cands {
			if t := e.evalCand(cd, le); t != nil {
				st.assume(c, t)
			}
		}
		lc.head = st.clone()
		e.dry++
		houd := e.houd
		e.houd = mode == modeHoudini
		saved := e.paths
		e.runBody(lc, f, st, func(*State, []Val) {})
		e.paths = saved
		e.dry--
		e.houd = houd
		return lc
	}
	var lc *LoopCtx
	for n := 0; ; n++ {
		lc = explore(modeDry, nil)
		if !sets.update(e, lc) {
			break
		}
		if n > 12 {
			unsup("loop modifications do not stabilise")
		}
	}
	// affine variables
	for _, p := range headPhis(l.head) {
		if !sets.phis[p] {
			continue
		}
		h, ok := lc.env[p].(*Term)
		if !ok || h.Sort != SInt && h.Sort != SReal {
			continue
		}
		if _, ok := init[p].(*Term); !ok {
			continue
		}
		var step *Term
		good := len(lc.backs) > 0
		for _, b := range lc.backs {
			d := c.Sub(b.env[p].(*Term), h)
			if !d.isNum() || step != nil && step != d {
				good = false
				break
			}
			step = d
		}
		if good {
			sets.affine[p] = step
		}
	}
	// theap sets may appear late
	lc = explore(modeDry, nil)
	for sets.update(e, lc) {
		lc = explore(modeDry, nil)
	}
	if e.dry > 0 && !e.houd {
		// inside an exploration: no invariants, only the effect
		flc := &LoopCtx{l: l, mode: modeFinal, sets: sets, init: init, fr: base, initSt: snap.st}
		st, f := e.havoc(base, snap, flc)
		flc.head = st.clone()
		e.runBody(flc, f, st, k)
		return
	}
	cands := e.candidates(base, lc)
	// initiation
	initEnv := &loopEnv{st: snap.st, phi: init, k: c.Int(0), lc: lc}
	var goals []*Term
	var keep []*cand
	for _, cd := range cands {
		if strings.HasSuffix(cd.name, "keeps its initial value") && e.candFail[fmt.Sprintf("%d %s", l.head.Index, cd.name)] >= 2 {
			continue // did not hold on other paths to this loop
		}
		t := e.evalCand(cd, initEnv)
		if t == nil {
			continue
		}
		if cd.meta && !t.isTrue() && hasRec(t) && !e.entryTrue(t) {
			if os.Getenv("GOVC_CAND") != "" && strings.Contains(cd.name, os.Getenv("GOVC_CAND")) {
				fmt.Printf("    candidate %s: not true at entry: %s\n", cd.name, t)
			}
			continue // a wrong choice for the unknowns of the candidate
		}
		goals = append(goals, t)
		keep = append(keep, cd)
	}
	okInit := e.proveAll(snap.st.pc, goals)
	cands = nil
	for i, cd := range keep {
		if okInit[i].ok {
			cands = append(cands, cd)
		} else if debug {
			fmt.Printf("    init fails: %s: %s\n", cd.name, goals[i])
		}
	}
	// consecution
	for round := 0; ; round++ {
		lc = explore(modeHoudini, cands)
		drop := map[*cand]bool{}
		for _, b := range lc.backs {
			le := &loopEnv{st: b.st, phi: b.env, k: c.Add(lc.k, c.Int(1)), lc: lc}
			var gs []*Term
			var cs []*cand
			for _, cd := range cands {
				if drop[cd] {
					continue
				}
				t := e.evalCand(cd, le)
				if t == nil {
					drop[cd] = true
					continue
				}
				gs = append(gs, t)
				cs = append(cs, cd)
			}
			rs := e.proveAll(b.st.pc, gs)
			for i := range cs {
				if !rs[i].ok {
					drop[cs[i]] = true
					e.candFail[fmt.Sprintf("%d %s", l.head.Index, cs[i].name)]++
					if d := os.Getenv("GOVC_CAND"); d != "" && strings.Contains(cs[i].name, d) {
						os.WriteFile("/tmp/cand.smt2", []byte(e.queryFor(b.st.pc, gs[i], recDepth)), 0o644)
					}
					if debug {
						fmt.Printf("    step fails: %s: %s [%s]\n", cs[i].name, gs[i], rs[i].res.Status)
					}
				}
			}
		}
		if len(drop) == 0 {
			break
		}
		var n []*cand
		for _, cd := range cands {
			if !drop[cd] {
				n = append(n, cd)
			}
		}
		cands = n
		if round > 12 {
			break
		}
	}
	for _, cd := range cands {
		e.recordInv(cd, l, fr)
	}
	if debug {
		var ns []string
		for _, cd := range cands {
			ns = append(ns, cd.name)
		}
		fmt.Printf("    loop %s block %d: invariants %s\n", fr.fn.Name(), l.head.Index, strings.Join(ns, "; "))
	}
	flc := &LoopCtx{l: l, mode: modeFinal, sets: sets, init: init, fr: base, cands: cands, initSt: snap.st}
	st, f := e.havoc(base, snap, flc)
	le := &loopEnv{st: st, phi: phiMap(flc), k: flc.k, lc: flc}
	for _, cd := range cands {
		if t := e.evalCand(cd, le); t != nil {
			st.assume(c, t)
		}
	}
	flc.head = st.clone()
	e.runBody(flc, f, st, k)
}

func phiMap(lc *LoopCtx) map[*ssa.Phi]Val {
	m := map[*ssa.Phi]Val{}
	for k, v := range lc.env {
		m[k.(*ssa.Phi)] = v
	}
	return m
}

func (e *Exec) recordInv(cd *cand, l *Loop, fr *Frame) {
	o := &Oblig{Fn: fnName(e.root), Kind: "invariant", Name: fmt.Sprintf("loop of %s: %s", fnName(fr.fn), cd.name), Tags: cd.tags, Goal: e.c.True(), Status: "houdini"}
	if o.Tags == nil {
		o.Tags = e.autoTags("frame")
	}
	k := "inv|" + o.Name
	if !e.seenObl[k] {
		e.seenObl[k] = true
		e.obl = append(e.obl, o)
	}
}

// backEdge ends a path at the loop head.
func (e *Exec) backEdge(fr *Frame, lc *LoopCtx, pred *ssa.BasicBlock, st *State) {
	f := fr.clone()
	e.phis(f, lc.l.head, pred)
	env := map[*ssa.Phi]Val{}
	for _, p := range headPhis(lc.l.head) {
		env[p] = f.env[p]
	}
	b := &backState{st: st, env: env, fr: f}
	if lc.mode != modeFinal {
		b.st = st.clone()
		lc.backs = append(lc.backs, b)
		return
	}
	if e.dry > 0 {
		return
	}
	e.termination(fr, lc, b)
}

// nextSubst maps the unknowns of the head state to their values at the back edge.
func (e *Exec) nextSubst(lc *LoopCtx, b *backState) map[*Term]*Term {
	m := map[*Term]*Term{lc.k: e.c.Add(lc.k, e.c.Int(1))}
	var put func(h, n Val)
	put = func(h, n Val) {
		switch h := h.(type) {
		case *Term:
			if h.Op == "var" {
				if t, ok := n.(*Term); ok {
					m[h] = t
				}
			}
		case *StructV:
			if s, ok := n.(*StructV); ok {
				for i := range h.F {
					put(h.F[i], s.F[i])
				}
			}
		case *SliceV:
			r := lc.head.regs[h.Reg]
			if r.Content.Op == "var" {
				m[r.Content] = e.sliceSeq(b.st, n)
			}
		}
	}
	for p, v := range lc.env {
		put(v, b.env[p.(*ssa.Phi)])
	}
	for _, l := range lc.sets.locs {
		hv := lc.head.heap[l.obj]
		if _, ok := hv.(*MapObj); ok {
			continue
		}
		put(e.getPath(hv, ints(l.path)), e.getPath(b.st.heap[l.obj], ints(l.path)))
	}
	for r := range lc.sets.regs {
		h := lc.head.regs[r]
		if h != nil && h.Content.Op == "var" && b.st.regs[r] != nil {
			m[h.Content] = b.st.regs[r].Content
		}
	}
	for k := range lc.sets.ghost {
		m[lc.head.ghost[k]] = b.st.ghost[k]
	}
	return m
}

func (e *Exec) termination(fr *Frame, lc *LoopCtx, b *backState) {
	c := e.c
	sub := e.nextSubst(lc, b)
	// the measure is the distance to the exit test at the head, or the
	// decreases clause of the contract for loops without such a test
	var measures []*Term
	if hc := e.headCond(lc.fr, lc); hc != nil && (hc.Op == "<" || hc.Op == "<=") {
		measures = append(measures, c.Sub(hc.Args[1], hc.Args[0]))
	} else {
		for _, d := range e.decreases(fr) {
			le := &loopEnv{st: lc.head, phi: phiMap(lc), k: lc.k, lc: lc}
			if t := e.evalLoopTerm(d, le); t != nil {
				measures = append(measures, t)
				break
			}
		}
	}
	var goals []*Term
	for _, ms := range measures {
		n := c.Subst(ms, sub)
		d := c.Sub(ms, n)
		if ms.Sort == SInt {
			goals = append(goals, c.And(c.Le(c.Int(0), ms), c.Le(c.Int(1), d)))
		} else {
			goals = append(goals, c.And(c.Le(c.Real(0), ms), c.Le(c.Real(1), d)))
		}
		if goals[len(goals)-1] = b.st.decided(c, goals[len(goals)-1]); goals[len(goals)-1].isTrue() {
			break
		}
		if ms.Sort == SInt && d.isNum() && d.Num.Sign() > 0 || ms.Sort == SReal && d.isNum() && d.Num.Sign() > 0 {
			// the measure is positive or the path would have left the loop
			goals = []*Term{c.True()}
			break
		}
	}
	name := "loop of " + fnName(fr.fn) + " terminates"
	if len(goals) > 0 && goals[len(goals)-1].isTrue() {
		e.oblig(b.st, "termination", name, c.True(), nil)
		return
	}
	rs := e.proveAll(b.st.pc, goals)
	for i := range rs {
		if rs[i].ok {
			e.oblig(b.st, "termination", name, c.True(), nil)
			return
		}
	}
	if len(goals) == 0 {
		e.oblig(b.st, "termination", name, c.False(), nil)
		return
	}
	e.oblig(b.st, "termination", name, c.Or(goals...), nil)
}

// ---- candidates ----

func (e *Exec) evalCand(cd *cand, le *loopEnv) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case unsupported, specErr, sortErr:
				if os.Getenv("GOVC_CAND") != "" && strings.Contains(cd.name, os.Getenv("GOVC_CAND")) {
					fmt.Printf("    candidate %s: %v\n", cd.name, r)
				}
				t = nil
			default:
				panic(r)
			}
		}
	}()
	return cd.eval(le)
}

func (e *Exec) decreases(fr *Frame) []ast.Expr {
	var out []ast.Expr
	if e.ct != nil {
		for _, d := range e.ct.Decreases {
			out = append(out, d.Expr)
		}
	}
	if fr.ct != nil && fr.ct != e.ct {
		for _, d := range fr.ct.Decreases {
			out = append(out, d.Expr)
		}
	}
	return out
}

func (e *Exec) evalLoopTerm(x ast.Expr, le *loopEnv) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case unsupported, specErr, sortErr:
				t = nil
			default:
				panic(r)
			}
		}
	}()
	env := e.rootEnv(le.st)
	env.loop = le
	v := env.eval(x)
	t, _ = v.v.(*Term)
	return t
}

func (e *Exec) candidates(fr *Frame, lc *LoopCtx) []*cand {
	c := e.c
	var out []*cand
	// the continuation test of the previous iteration
	if cond := e.headCond(fr, lc); cond != nil {
		cc := cond
		lcc := lc
		out = append(out, &cand{name: "the loop test held in the previous iteration", eval: func(le *loopEnv) *Term {
			m := map[*Term]*Term{lcc.k: c.Sub(le.k, c.Int(1))}
			// only tests over loop-invariant terms and the counter make sense
			t := c.Subst(cc, m)
			return c.Or(c.Eq(le.k, c.Int(0)), t)
		}})
	}
	for _, l := range lc.sets.locs {
		if s := e.iterStr[l.obj]; s != nil {
			obj := l.obj
			out = append(out, &cand{name: "string position in range", eval: func(le *loopEnv) *Term {
				p := le.st.heap[obj].(*Term)
				return c.And(c.Le(c.Int(0), p), c.Le(p, e.slen(s)))
			}})
		}
	}
	// lengths growing by a constant
	addLen := func(name string, get func(le *loopEnv) Val) {
		le0 := &loopEnv{st: lc.head, phi: phiMap(lc), k: lc.k, lc: lc}
		var step *Term
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(unsupported); !ok {
					panic(r)
				}
			}
		}()
		h := e.sliceLen(lc.head, get(le0))
		for _, b := range lc.backs {
			d := c.Sub(e.sliceLen(b.st, get(&loopEnv{st: b.st, phi: b.env, k: lc.k, lc: lc})), h)
			if !d.isNum() || step != nil && d != step {
				return
			}
			step = d
		}
		if step == nil {
			return
		}
		initLen := e.sliceLen(lc.initSt, get(&loopEnv{st: lc.initSt, phi: lc.init, k: c.Int(0), lc: lc}))
		out = append(out, &cand{name: "length of " + name, eval: func(le *loopEnv) *Term {
			return c.Eq(e.sliceLen(le.st, get(le)), c.Add(initLen, c.Mul(step, le.k)))
		}})
	}
	for _, p := range headPhis(lc.l.head) {
		p := p
		if _, ok := p.Type().Underlying().(*types.Slice); ok && lc.sets.phis[p] {
			addLen(p.Comment, func(le *loopEnv) Val { return le.phi[p] })
		}
	}
	for _, l := range lc.sets.locs {
		l := l
		t := typeAt(e.objType[l.obj], l.path)
		if t == nil {
			continue
		}
		if _, ok := t.Underlying().(*types.Slice); ok {
			addLen(e.locName(l.obj, l.path), func(le *loopEnv) Val { return e.getPath(le.st.heap[l.obj], ints(l.path)) })
		}
	}
	for _, r := range sortedInts(lc.sets.regs) {
		r := r
		if h := lc.initSt.regs[r]; h != nil {
			n := c.SeqLen(h.Content)
			out = append(out, &cand{name: "length of " + h.Origin, eval: func(le *loopEnv) *Term {
				return c.Eq(c.SeqLen(le.st.regs[r].Content), n)
			}})
		}
	}
	// values that stay what they were, nonnegative counters
	for _, p := range headPhis(lc.l.head) {
		p := p
		if !lc.sets.phis[p] {
			continue
		}
		iv, ok := lc.init[p].(*Term)
		if !ok {
			continue
		}
		if iv.Sort == SInt && lc.sets.affine[p] == nil {
			out = append(out, &cand{name: p.Comment + " does not decrease", eval: func(le *loopEnv) *Term {
				return c.Le(iv, le.phi[p].(*Term))
			}})
		}
		if iv.Sort == SAny || iv.Sort == SBool || iv.Sort == SStr {
			out = append(out, &cand{name: p.Comment + " keeps its initial value", eval: func(le *loopEnv) *Term {
				return c.Eq(iv, le.phi[p].(*Term))
			}})
		}
	}
	for _, l := range lc.sets.locs {
		l := l
		iv, ok := e.getPath(lc.initSt.heap[l.obj], ints(l.path)).(*Term)
		if !ok || isSeq(iv.Sort) || iv.Sort == SInt || iv.Sort == SReal || e.iterStr[l.obj] != nil {
			continue
		}
		out = append(out, &cand{name: e.locName(l.obj, l.path) + " keeps its initial value", eval: func(le *loopEnv) *Term {
			return c.Eq(iv, e.getPath(le.st.heap[l.obj], ints(l.path)).(*Term))
		}})
	}
	// candidates of the contracts
	addClauses := func(ct *Contract, mkEnv func(st *State) *specEnv) {
		for _, cl := range ct.Invs {
			cl := cl
			metas := metaVars(cl.Expr)
			phis := headPhis(lc.l.head)
			var rec func(i int, bind map[string]func(le *loopEnv) typedVal)
			rec = func(i int, bind map[string]func(le *loopEnv) typedVal) {
				if i == len(metas) {
					b := map[string]func(le *loopEnv) typedVal{}
					nm := cl.Src
					for k, v := range bind {
						b[k] = v
					}
					out = append(out, &cand{name: nm, meta: len(metas) > 0, tags: cl.Tags, eval: func(le *loopEnv) *Term {
						mk := func(le *loopEnv) *specEnv {
							env := mkEnv(le.st)
							env.loop = le
							for k, f := range b {
								env.vars[k] = f(le)
							}
							return env
						}
						env := mk(le)
						env.init = func() *specEnv { return mk(&loopEnv{st: lc.initSt, phi: lc.init, k: c.Int(0), lc: lc}) }
						v := env.eval(cl.Expr)
						t, ok := v.v.(*Term)
						if !ok || t.Sort != SBool {
							panic(specErr{"candidate is not boolean"})
						}
						return t
					}})
					return
				}
				if strings.HasPrefix(metas[i], "VS_") {
					for _, t := range stringsBefore(fr) {
						t := t
						bind[metas[i]] = func(le *loopEnv) typedVal { return typedVal{t, tStr} }
						rec(i+1, bind)
					}
					delete(bind, metas[i])
					return
				}
				if strings.HasPrefix(metas[i], "VP_") {
					seen := map[int]bool{}
					for _, l := range prefixes(lc.sets.locs) {
						o := l.obj
						if seen[o] || !e.isLocalObj(o) || e.objType[o] == nil {
							continue
						}
						seen[o] = true
						bind[metas[i]] = func(le *loopEnv) typedVal {
							return typedVal{&PtrV{Kind: 'o', Obj: o}, types.NewPointer(e.objType[o])}
						}
						rec(i+1, bind)
					}
					delete(bind, metas[i])
					return
				}
				for _, p := range phis {
					p := p
					if !metaFits(metas[i], e.ts.SortOf(p.Type())) {
						continue
					}
					bind[metas[i]] = func(le *loopEnv) typedVal { return typedVal{le.phi[p], p.Type()} }
					rec(i+1, bind)
				}
				for _, l := range prefixes(lc.sets.locs) {
					l := l
					if e.isLocalObj(l.obj) {
						t := typeAt(e.objType[l.obj], l.path)
						if t == nil {
							t = types.Typ[types.Int]
						}
						if !metaFits(metas[i], e.ts.SortOf(t)) {
							continue
						}
						bind[metas[i]] = func(le *loopEnv) typedVal {
							return typedVal{e.getPath(le.st.heap[l.obj], ints(l.path)), t}
						}
						rec(i+1, bind)
					}
				}
				for _, r := range sortedInts(lc.sets.regs) {
					r := r
					if h := lc.head.regs[r]; h != nil && h.Elem != nil && strings.HasPrefix(metas[i], "V_") {
						t := types.NewSlice(h.Elem)
						bind[metas[i]] = func(le *loopEnv) typedVal {
							return typedVal{le.st.regs[r].Content, t}
						}
						rec(i+1, bind)
					}
				}
				delete(bind, metas[i])
			}
			if len(out) < 400 {
				rec(0, map[string]func(le *loopEnv) typedVal{})
			}
		}
	}
	if e.ct != nil && (fr.ct == nil || fr.ct == e.ct || len(fr.ct.Invs) == 0) {
		addClauses(e.ct, func(st *State) *specEnv { return e.rootEnv(st) })
	}
	if fr.ct != nil && fr.ct != e.ct {
		ct, fn, args, in := fr.ct, fr.fn, fr.args, fr.in
		addClauses(ct, func(st *State) *specEnv { return e.frameEnv(ct, fn, args, in, st) })
	}
	// type check by evaluating once on the head state
	le0 := &loopEnv{st: lc.head, phi: phiMap(lc), k: lc.k, lc: lc}
	var good []*cand
	seen := map[string]bool{}
	for _, cd := range out {
		t := e.evalCand(cd, le0)
		if t == nil || t.isTrue() {
			continue
		}
		key := fmt.Sprint(t.id)
		if seen[key] {
			continue
		}
		seen[key] = true
		good = append(good, cd)
	}
	return good
}

// prefixes: the locations and the aggregates they are part of.
func prefixes(locs map[string]mloc) []mloc {
	m := map[string]mloc{}
	for _, l := range locs {
		for n := 0; n <= len(l.path); n++ {
			q := mloc{obj: l.obj, path: append([]int(nil), l.path[:n]...)}
			m[fmt.Sprint(q)] = q
		}
	}
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []mloc
	for _, k := range ks {
		out = append(out, m[k])
	}
	return out
}

func (e *Exec) isLocalObj(obj int) bool { return e.localObj[obj] }

// headCond is the condition under which the loop goes on, evaluated at the head.
func (e *Exec) headCond(fr *Frame, lc *LoopCtx) (cond *Term) {
	b := lc.l.head
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	in0, in1 := lc.l.body[b.Succs[0]], lc.l.body[b.Succs[1]]
	if in0 == in1 {
		return nil
	}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(unsupported); ok {
				cond = nil
				return
			}
			if _, ok := r.(pathEnd); ok {
				cond = nil
				return
			}
			panic(r)
		}
	}()
	f := fr.clone()
	for p, v := range lc.env {
		f.env[p] = v
	}
	st := lc.head.clone()
	e.dry++
	defer func() { e.dry-- }()
	for _, in := range b.Instrs[len(headPhis(b)) : len(b.Instrs)-1] {
		v, ok := in.(ssa.Value)
		if !ok {
			return nil
		}
		if call, ok := in.(*ssa.Call); ok {
			bl, ok := call.Call.Value.(*ssa.Builtin)
			if !ok || bl.Name() != "len" {
				return nil
			}
			e.doCall(f, call, st, func(_ *State, res []Val) { f.env[call] = res[0] })
			continue
		}
		f.env[v] = e.pure(f, v, st)
	}
	t := e.term(f, iff.Cond)
	if in1 {
		t = e.c.Not(t)
	}
	return t
}

func sortedInts(m map[int]bool) []int {
	var out []int
	for k := range m {
		out = append(out, k)
	}
	sort.Ints(out)
	return out
}

// entryTrue: t becomes true when its recursive specifications are unfolded once.
func (e *Exec) entryTrue(t *Term) bool {
	m := map[*Term]*Term{}
	collect([]*Term{t}, map[*Term]bool{}, func(a *Term) {
		if strings.HasPrefix(a.Op, "rec:") {
			if b := e.unfold(a); b != nil && !hasRec(b) {
				m[a] = b
			}
		}
	})
	return len(m) > 0 && e.c.Subst(t, m).isTrue()
}

func hasRec(t *Term) bool {
	found := false
	collect([]*Term{t}, map[*Term]bool{}, func(t *Term) {
		if strings.HasPrefix(t.Op, "rec:") {
			found = true
		}
	})
	return found
}

// stringsBefore lists the strings the function has computed so far.
func stringsBefore(fr *Frame) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	for _, v := range fr.env {
		if t, ok := v.(*Term); ok && t.Sort == SStr && !t.isLit() && !seen[t] {
			seen[t] = true
			out = append(out, t)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id > out[j].id })
	if len(out) > 12 {
		out = out[:12]
	}
	return out
}
