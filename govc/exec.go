package main

// Symbolic execution of go/ssa functions: every path of the function under
// verification is executed once; loops are cut at their head with invariants;
// calls use the callee's contract when it has one and are inlined otherwise.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Oblig struct {
	Fn     string
	Kind   string // ensures, requires, frame, alias, bounds, nil, panic, invariant, termination, step
	Name   string
	Tags   []string
	PC     []*Term
	Goal   *Term
	Pos    string
	Trace  []string
	Status string
	Res    SolveResult
	Query  string
}

type Exec struct {
	fast      bool // little time for invariant candidates
	nzCache   map[string]bool
	reveal    map[string]bool
	fastDrops int64 // candidates dropped for lack of time
	p         *Prog
	ts        *TypeSorts
	c         *Ctx
	root      *ssa.Function
	ct        *Contract // contract of the function under verification

	nobj, nreg int
	ptrOf      map[int64]Val
	ptrIdx     map[string]int64
	roObj      map[int]string
	globals    map[*ssa.Global]int
	inInit     bool

	obl     []*Oblig
	seenObl map[string]bool
	dry     int // no obligations, no pruning
	houd bool // exploring with candidate invariants
	depth   int
	paths   int
	steps   int

	entry   *State // function entry state
	params  []Val
	ptypes  []types.Type
	results []types.Type

	loops      map[*ssa.Function]map[*ssa.BasicBlock]*Loop
	feasCache  map[string]bool
	nfeas      int
	candFail   map[string]int
	curPos     token.Pos
	allocN     int
	deadline   time.Time
	loopNotes  []string
	axiomsOn   bool
	trustUsed  map[string]bool
	specUsed   map[string]bool
	inlined    map[string]bool
	byContract map[string]bool
	callDepth  int
	rets       int // returns reached
	objType    map[int]types.Type
	objName    map[int]string
	iterStr    map[int]*Term
	localObj   map[int]bool
	globalInit map[int]Val
	nbv        int
	specDepth  int
	inFacts    int
}

type Cont func(st *State, res []Val)

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Val
	defers []*deferred
	loops  map[*Loop]*LoopCtx
	hdr    map[*Loop]*hdrSnap
	iter   map[*Loop]int
	depth  int
	ct     *Contract
	args   []Val
	in     *State // state at entry of the frame
}

type deferred struct {
	call *ssa.CallCommon
	fn   Val
	args []Val
}

type hdrSnap struct {
	st   *State
	env  map[ssa.Value]Val
	pred *ssa.BasicBlock
}

type Loop struct {
	head *ssa.BasicBlock
	body map[*ssa.BasicBlock]bool
	idx  int
}

func (fr *Frame) clone() *Frame {
	n := *fr
	n.env = make(map[ssa.Value]Val, len(fr.env))
	for k, v := range fr.env {
		n.env[k] = v
	}
	n.defers = append([]*deferred{}, fr.defers...)
	n.loops = map[*Loop]*LoopCtx{}
	for k, v := range fr.loops {
		n.loops[k] = v
	}
	n.hdr = map[*Loop]*hdrSnap{}
	for k, v := range fr.hdr {
		n.hdr[k] = v
	}
	n.iter = map[*Loop]int{}
	for k, v := range fr.iter {
		n.iter[k] = v
	}
	return &n
}

func (e *Exec) loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*Loop {
	if m, ok := e.loops[fn]; ok {
		return m
	}
	m := map[*ssa.BasicBlock]*Loop{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := m[s]
				if l == nil {
					l = &Loop{head: s, body: map[*ssa.BasicBlock]bool{s: true}, idx: s.Index}
					m[s] = l
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if l.body[x] {
						continue
					}
					l.body[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	e.loops[fn] = m
	return m
}

// ---- obligations ----

func (e *Exec) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := e.p.fset.Position(p)
	f := q.Filename
	f = strings.TrimPrefix(f, e.p.dir+"/")
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (e *Exec) oblig(st *State, kind, name string, goal *Term, tags []string) {
	if e.dry > 0 || e.inInit {
		return
	}
	if tags == nil {
		tags = e.autoTags(kind)
	}
	goal = st.decided(e.c, goal)
	o := &Oblig{Fn: fnName(e.root), Kind: kind, Name: name, Tags: tags, PC: append([]*Term{}, st.pc...), Goal: goal, Pos: e.pos(e.curPos), Trace: append([]string{}, st.trace...)}
	if goal.isTrue() {
		o.Status = "simplifier"
		o.PC = nil
	}
	// the same goal under the same assumptions is one obligation
	var sb strings.Builder
	fmt.Fprintf(&sb, "%s|%s|%d|", kind, name, goal.id)
	if !goal.isTrue() {
		for _, p := range o.PC {
			fmt.Fprintf(&sb, "%d,", p.id)
		}
	} else {
		sb.WriteString(o.Pos)
	}
	if e.seenObl[sb.String()] {
		return
	}
	e.seenObl[sb.String()] = true
	e.obl = append(e.obl, o)
}

func (e *Exec) autoTags(kind string) []string {
	switch kind {
	case "bounds", "nil", "panic", "termination":
		if e.ct != nil && len(e.ct.SafetyTags) > 0 {
			return e.ct.SafetyTags
		}
		return []string{"C01"}
	}
	if e.ct != nil {
		return e.ct.allTags()
	}
	return nil
}

// ---- feasibility ----

func (e *Exec) feasible(st *State, t *Term) bool {
	r, text, k := e.feasText(st, t)
	if text == "" {
		return r
	}
	r = quickCheck(text) != "unsat"
	e.feasCache[k] = r
	return r
}

// feasible2 is feasible for both outcomes of a test.
func (e *Exec) feasible2(st *State, t, u *Term) (bool, bool) {
	r1, text1, k1 := e.feasText(st, t)
	r2, text2, k2 := e.feasText(st, u)
	var wg sync.WaitGroup
	ask := func(text, k string, r *bool) {
		if text == "" {
			return
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			*r = quickCheck(text) != "unsat"
		}()
	}
	ask(text1, k1, &r1)
	ask(text2, k2, &r2)
	wg.Wait()
	if text1 != "" {
		e.feasCache[k1] = r1
	}
	if text2 != "" {
		e.feasCache[k2] = r2
	}
	return r1, r2
}

// feasText gives the answer, or the question for the solver.
func (e *Exec) feasText(st *State, t *Term) (bool, string, string) {
	if e.dry > 0 {
		return true, "", ""
	}
	t = st.decided(e.c, t)
	if t.isFalse() {
		return false, "", ""
	}
	if t.isTrue() {
		return true, "", ""
	}
	key := make([]int, 0, len(st.pc)+1)
	for _, p := range st.pc {
		key = append(key, p.id)
	}
	sort.Ints(key)
	k := fmt.Sprint(key, t.id)
	if r, ok := e.feasCache[k]; ok {
		return r, "", ""
	}
	as := append(append([]*Term{}, st.pc...), t)
	as = relevant(as, t)
	as = append(as, e.groundFacts(as, 0)...)
	q := &Query{c: e.c, assert: as}
	e.nfeas++
	return false, q.Text(false), k
}

// ---- running ----

func (e *Exec) tick() {
	e.steps++
	if e.steps%256 == 0 && time.Now().After(e.deadline) {
		unsup("time limit of the symbolic execution")
	}
	if e.paths > 6000 {
		unsup("too many paths")
	}
}

func (e *Exec) call(fn *ssa.Function, args []Val, binds []Val, st *State, ct *Contract, k Cont) {
	if fn.Blocks == nil {
		unsup("no body: %s", fn)
	}
	if e.callDepth > 40 {
		unsup("call depth in %s", fn)
	}
	e.callDepth++
	defer func() { e.callDepth-- }()
	fr := &Frame{fn: fn, env: map[ssa.Value]Val{}, loops: map[*Loop]*LoopCtx{}, hdr: map[*Loop]*hdrSnap{}, iter: map[*Loop]int{}, ct: ct, args: args, in: st.clone()}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		fr.env[p] = binds[i]
	}
	e.block(fr, fn.Blocks[0], nil, st, k)
}

func (e *Exec) block(fr *Frame, b, pred *ssa.BasicBlock, st *State, k Cont) {
	e.tick()
	if pred != nil {
		// leaving loops that are only being explored
		for l, lc := range fr.loops {
			if l.body[pred] && !l.body[b] {
				if lc.mode != modeFinal {
					return
				}
				delete(fr.loops, l)
				delete(fr.hdr, l)
				delete(fr.iter, l)
			}
		}
		for l := range fr.hdr {
			if l.body[pred] && !l.body[b] {
				delete(fr.hdr, l)
				delete(fr.iter, l)
			}
		}
	}
	if l := e.loopsOf(fr.fn)[b]; l != nil {
		if lc := fr.loops[l]; lc != nil && pred != nil && l.body[pred] {
			e.backEdge(fr, lc, pred, st)
			return
		}
		if pred == nil || !l.body[pred] {
			fr.iter[l] = 0
		}
		fr.iter[l]++
		if fr.iter[l] > 400 {
			unsup("loop unrolled more than 400 times in %s", fr.fn)
		}
		fr.hdr[l] = &hdrSnap{st: st.clone(), env: cloneEnv(fr.env), pred: pred}
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); !ok {
			e.cutLoop(fr, l, fr.hdr[l], k)
			return
		}
	}
	e.phis(fr, b, pred)
	i := 0
	for i < len(b.Instrs) {
		if _, ok := b.Instrs[i].(*ssa.Phi); !ok {
			break
		}
		i++
	}
	e.instrs(fr, b, i, st, k)
}

func cloneEnv(m map[ssa.Value]Val) map[ssa.Value]Val {
	n := make(map[ssa.Value]Val, len(m))
	for k, v := range m {
		n[k] = v
	}
	return n
}

func (e *Exec) phis(fr *Frame, b, pred *ssa.BasicBlock) {
	if pred == nil {
		return
	}
	idx := -1
	for i, p := range b.Preds {
		if p == pred {
			idx = i
		}
	}
	var ps []*ssa.Phi
	var vs []Val
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, p)
		vs = append(vs, e.val(fr, p.Edges[idx]))
	}
	for i := range ps {
		fr.env[ps[i]] = vs[i]
	}
}

func (e *Exec) constVal(v *ssa.Const) Val {
	c := e.c
	if v.Value == nil {
		return e.zero(v.Type())
	}
	s := e.ts.SortOf(v.Type())
	return e.constTerm(v.Value, s, c)
}

func (e *Exec) constTerm(v constant.Value, s Sort, c *Ctx) *Term {
	switch v.Kind() {
	case constant.Bool:
		return c.Bool(constant.BoolVal(v))
	case constant.String:
		return c.Lit(constant.StringVal(v))
	case constant.Int, constant.Float:
		if s == SReal {
			f, _ := constant.Float64Val(constant.ToFloat(v))
			r := new(big.Rat)
			r.SetFloat64(f)
			return c.Rat(r, SReal)
		}
		iv := constant.ToInt(v)
		bi, ok := new(big.Int).SetString(iv.ExactString(), 10)
		if !ok {
			unsup("constant %s", v)
		}
		return c.Rat(new(big.Rat).SetInt(bi), SInt)
	}
	unsup("constant %s", v)
	return nil
}

func (e *Exec) val(fr *Frame, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return e.constVal(v)
	case *ssa.Function:
		return &FuncV{Fn: v}
	case *ssa.Global:
		return e.globalPtr(v)
	case *ssa.Builtin:
		return v
	}
	r, ok := fr.env[v]
	if !ok {
		unsup("value %s (%T) not available", v.Name(), v)
	}
	return r
}

func (e *Exec) term(fr *Frame, v ssa.Value) *Term {
	x := e.val(fr, v)
	t, ok := x.(*Term)
	if !ok {
		unsup("%s is not a scalar: %T", v, x)
	}
	return t
}

// asPtr resolves a pointer value; symbolic references point to typed heap cells.
func (e *Exec) asPtr(st *State, v Val, typ types.Type) *PtrV {
	switch v := v.(type) {
	case *PtrV:
		return v
	case *Term:
		pt, ok := typ.Underlying().(*types.Pointer)
		if !ok {
			unsup("pointer type %s", typ)
		}
		if n, ok := v.isInt64(); ok && n == 0 {
			e.oblig(st, "nil", "nil dereference", e.c.False(), nil)
			panic(pathEnd{})
		}
		e.oblig(st, "nil", "dereference of "+typeName(pt.Elem()), e.c.Not(e.c.Eq(v, e.c.mkRef(0))), nil)
		return &PtrV{Kind: 't', Ref: v, HT: pt.Elem()}
	}
	unsup("pointer %T", v)
	return nil
}

type pathEnd struct{}

func (e *Exec) instrs(fr *Frame, b *ssa.BasicBlock, i int, st *State, k Cont) {
	c := e.c
	for ; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		if in.Pos().IsValid() {
			e.curPos = in.Pos()
		}
		e.tick()
		switch in := in.(type) {
		case *ssa.DebugRef:
		case *ssa.Phi:
			unsup("phi in the middle of a block")
		case *ssa.Jump:
			e.block(fr, b.Succs[0], b, st, k)
			return
		case *ssa.If:
			cond := st.decided(c, e.term(fr, in.Cond))
			if cond.isTrue() {
				e.block(fr, b.Succs[0], b, st, k)
				return
			}
			if cond.isFalse() {
				e.block(fr, b.Succs[1], b, st, k)
				return
			}
			// an undecided exit test of an uncut loop: cut the loop here
			if l := e.loopsOf(fr.fn)[b]; l != nil && fr.loops[l] == nil && fr.hdr[l] != nil && !e.unrolls(fr, l, st, cond) {
				e.cutLoop(fr, l, fr.hdr[l], k)
				return
			}
			neg := c.Not(cond)
			f1, f2 := e.feasible2(st, cond, neg)
			if f1 && f2 {
				st2, fr2 := st.clone(), fr.clone()
				st.assume(c, cond)
				e.guard(func() { e.block(fr, b.Succs[0], b, st, k) })
				st2.assume(c, neg)
				e.guard(func() { e.block(fr2, b.Succs[1], b, st2, k) })
				return
			}
			if f1 {
				st.assume(c, cond)
				e.block(fr, b.Succs[0], b, st, k)
				return
			}
			if f2 {
				st.assume(c, neg)
				e.block(fr, b.Succs[1], b, st, k)
			}
			return
		case *ssa.Return:
			for l, lc := range fr.loops {
				if l.body[b] && lc.mode != modeFinal {
					return
				}
			}
			var res []Val
			for _, r := range in.Results {
				res = append(res, e.val(fr, r))
			}
			e.paths++
			k(st, res)
			return
		case *ssa.Panic:
			e.oblig(st, "panic", "explicit panic", c.False(), nil)
			return
		case *ssa.RunDefers:
			ds := fr.defers
			fr.defers = nil
			rest := i + 1
			var run func(fr *Frame, st *State, n int)
			run = func(fr *Frame, st *State, n int) {
				if n < 0 {
					e.instrs(fr, b, rest, st, k)
					return
				}
				d := ds[n]
				e.invokeVal(fr, nil, d.fn, d.args, st, func(st *State, _ []Val) {
					run(fr.clone(), st, n-1)
				})
			}
			run(fr, st, len(ds)-1)
			return
		case *ssa.Defer:
			if in.Call.IsInvoke() {
				unsup("deferred interface call")
			}
			var as []Val
			for _, a := range in.Call.Args {
				as = append(as, e.val(fr, a))
			}
			if bl, ok := in.Call.Value.(*ssa.Builtin); ok {
				unsup("deferred %s", bl.Name())
			}
			fr.defers = append(fr.defers, &deferred{call: &in.Call, fn: e.val(fr, in.Call.Value), args: as})
		case *ssa.Store:
			p := e.asPtr(st, e.val(fr, in.Addr), in.Addr.Type())
			e.store(st, p, e.unshare(st, e.val(fr, in.Val), in.Val.Type()))
		case *ssa.MapUpdate:
			e.mapUpdate(st, e.val(fr, in.Map), e.val(fr, in.Key), e.val(fr, in.Value), in.Map.Type())
		case *ssa.Call:
			rest := i + 1
			e.doCall(fr, in, st, func(st *State, res []Val) {
				f2 := fr.clone()
				switch len(res) {
				case 0:
				case 1:
					f2.env[in] = res[0]
				default:
					f2.env[in] = TupleV(res)
				}
				e.guard(func() { e.instrs(f2, b, rest, st, k) })
			})
			return
		case *ssa.Lookup:
			rest := i + 1
			if e.lookupForks(fr, in, st, func(st *State, v Val) {
				f2 := fr.clone()
				f2.env[in] = v
				e.guard(func() { e.instrs(f2, b, rest, st, k) })
			}) {
				return
			}
		case *ssa.TypeAssert:
			rest := i + 1
			x := e.term(fr, in.X)
			if _, ok := in.AssertedType.Underlying().(*types.Interface); ok {
				ok2 := e.c.App("implements:"+typeName(in.AssertedType), SBool, x)
				if in.CommaOk {
					fr.env[in] = TupleV{x, ok2}
				} else {
					fr.env[in] = x
				}
				continue
			}
			tag, ps := e.ts.BoxTag(in.AssertedType)
			is := st.decided(c, c.IsBox(x, tag))
			get := func() Val {
				if ps == "" {
					return e.zero(in.AssertedType)
				}
				return e.reflect(c.Unbox(x, tag, ps), in.AssertedType)
			}
			if !in.CommaOk {
				e.oblig(st, "panic", "type assertion to "+tag, is, nil)
				st.assume(c, is)
				fr.env[in] = get()
				continue
			}
			f1, f2 := e.feasible2(st, is, c.Not(is))
			if f1 {
				s2, fr2 := st.clone(), fr.clone()
				s2.assume(c, is)
				// the value is the box of its content
				if ps != "" {
					s2.assume(c, c.Eq(x, c.Box(tag, c.Unbox(x, tag, ps))))
				} else {
					s2.assume(c, c.Eq(x, c.Box(tag, nil)))
				}
				fr2.env[in] = TupleV{get(), c.True()}
				e.guard(func() { e.instrs(fr2, b, rest, s2, k) })
			}
			if f2 {
				st.assume(c, c.Not(is))
				fr.env[in] = TupleV{e.zero(in.AssertedType), c.False()}
				e.instrs(fr, b, rest, st, k)
			}
			return
		case ssa.Value:
			fr.env[in] = e.pure(fr, in, st)
		default:
			unsup("instruction %T", in)
		}
	}
}

// guard runs one alternative; the end of a path inside it does not end the others.
// unrolls reports whether a loop over local variables only is executed as it
// stands at this iteration, as the contract asks for.
func (e *Exec) unrolls(fr *Frame, l *Loop, st *State, cond *Term) bool {
	if e.ct == nil || e.ct.Unroll == 0 {
		return false
	}
	for b := range l.body {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store, *ssa.MapUpdate, *ssa.Go, *ssa.Defer, *ssa.Send:
				return false
			case *ssa.Call:
				if _, ok := in.Call.Value.(*ssa.Builtin); !ok {
					return false
				}
			}
		}
	}
	if fr.iter[l] <= e.ct.Unroll {
		return true
	}
	f1, f2 := e.feasible2(st, cond, e.c.Not(cond))
	return !f1 || !f2
}

func (e *Exec) guard(f func()) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(pathEnd); ok {
				return
			}
			panic(r)
		}
	}()
	f()
}

func heapTyped(t types.Type) bool {
	switch typeName(t) {
	case "svg.Gradient", "svg.SvgMask":
		return true
	}
	return false
}

func (e *Exec) pure(fr *Frame, in ssa.Value, st *State) Val {
	c := e.c
	switch in := in.(type) {
	case *ssa.Alloc:
		et := in.Type().Underlying().(*types.Pointer).Elem()
		if in.Heap && heapTyped(et) && e.allocEscapes(in) {
			ref := e.alloc(st)
			st.theap[typeName(et)] = c.Store(e.theapOf(st, et), ref, e.reify(st, e.zero(et), et, false))
			return &PtrV{Kind: 't', Ref: ref, HT: et}
		}
		if sh := e.p.shadowOf(et); sh != nil {
			et = sh
		}
		e.nobj++
		st.heap[e.nobj] = e.zero(et)
		e.objType[e.nobj] = et
		e.objName[e.nobj] = in.Comment
		e.localObj[e.nobj] = true
		return &PtrV{Kind: 'o', Obj: e.nobj}
	case *ssa.FieldAddr:
		p := e.asPtr(st, e.val(fr, in.X), in.X.Type())
		q := *p
		f := in.Field
		et := in.X.Type().Underlying().(*types.Pointer).Elem()
		if sh := e.p.shadowOf(et); sh != nil {
			// a part of a library object that has its own record, or the whole
			f = -1
			name := et.Underlying().(*types.Struct).Field(in.Field).Name()
			ss := sh.Underlying().(*types.Struct)
			for i := 0; i < ss.NumFields(); i++ {
				if ss.Field(i).Name() == name {
					f = i
				}
			}
			if f < 0 && !et.Underlying().(*types.Struct).Field(in.Field).Anonymous() {
				q.Kind, q.HT = 'i', et // not part of the record
				e.trustUsed["field "+name+" of "+typeName(et)+" has no effect on the model"] = true
				return &q
			}
			if f < 0 {
				return &q
			}
		}
		q.Path = append(append([]pathEl{}, p.Path...), pathEl{f: f})
		return &q
	case *ssa.Field:
		v := e.val(fr, in.X)
		if t, ok := v.(*Term); ok {
			v = e.reflect(t, in.X.Type())
		}
		return v.(*StructV).F[in.Field]
	case *ssa.IndexAddr:
		idx := e.term(fr, in.Index)
		switch u := in.X.Type().Underlying().(type) {
		case *types.Slice:
			sv := e.val(fr, in.X)
			n := e.sliceLen(st, sv)
			e.bounds(st, idx, n)
			v := e.asView(st, sv, u.Elem())
			if st.regs[v.Reg].Clob {
				e.oblig(st, "alias", "read of a slice overwritten through another one", c.False(), nil)
			}
			return &PtrV{Kind: 'r', Obj: v.Reg, Idx: c.Add(v.Off, idx)}
		case *types.Pointer:
			at := u.Elem().Underlying().(*types.Array)
			e.bounds(st, idx, c.Int(at.Len()))
			p := e.asPtr(st, e.val(fr, in.X), in.X.Type())
			q := *p
			q.Path = append(append([]pathEl{}, p.Path...), pathEl{idx: idx})
			return &q
		}
		unsup("IndexAddr on %s", in.X.Type())
	case *ssa.Index:
		idx := e.term(fr, in.Index)
		xt := in.X.Type().Underlying()
		if at, ok := xt.(*types.Array); ok {
			e.bounds(st, idx, c.Int(at.Len()))
			return e.getPath(e.val(fr, in.X), []pathEl{{idx: idx}})
		}
		// string byte
		s := e.term(fr, in.X)
		e.bounds(st, idx, e.slen(s))
		return e.sbyte(s, idx)
	case *ssa.UnOp:
		switch in.Op {
		case token.MUL:
			p := e.asPtr(st, e.val(fr, in.X), in.X.Type())
			if _, ok := in.Type().Underlying().(*types.Interface); ok && p.Kind == 'o' && len(p.Path) == 0 && e.p.shadowOf(in.Type()) != nil {
				return p // an embedded interface of a library object stands for the object
			}
			v := e.load(st, p)
			e.assumeAllocated(st, v, in.Type())
			return v
		case token.SUB:
			return c.Neg(e.term(fr, in.X))
		case token.NOT:
			return c.Not(e.term(fr, in.X))
		}
		unsup("unary %s", in.Op)
	case *ssa.BinOp:
		return e.binop(fr, in, st)
	case *ssa.ChangeType:
		return e.val(fr, in.X)
	case *ssa.ChangeInterface:
		return e.val(fr, in.X)
	case *ssa.Convert:
		return e.convert(fr, in, st)
	case *ssa.MakeInterface:
		x := e.val(fr, in.X)
		return e.box(st, x, in.X.Type())
	case *ssa.MakeClosure:
		var bs []Val
		for _, b := range in.Bindings {
			bs = append(bs, e.val(fr, b))
		}
		return &FuncV{Fn: in.Fn.(*ssa.Function), Binds: bs}
	case *ssa.MakeMap:
		mt := in.Type().Underlying().(*types.Map)
		e.nobj++
		st.heap[e.nobj] = e.emptyMap(mt)
		return &MapV{e.nobj}
	case *ssa.MakeSlice:
		n := e.term(fr, in.Len)
		el := in.Type().Underlying().(*types.Slice).Elem()
		e.oblig(st, "panic", "make with a negative length", c.Le(c.Int(0), n), nil)
		z := e.reify(st, e.zero(el), el, false)
		content := c.Rep(e.ts.SortOf(in.Type()), n, z)
		return e.ownSlice(st, content, el, "slice made at "+e.pos(in.Pos()))
	case *ssa.Slice:
		return e.sliceOp(fr, in, st)
	case *ssa.Extract:
		t, ok := e.val(fr, in.Tuple).(TupleV)
		if !ok {
			unsup("extract")
		}
		return t[in.Index]
	case *ssa.Range:
		if b, ok := in.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			e.nobj++
			st.heap[e.nobj] = c.Int(0)
			e.iterStr[e.nobj] = e.term(fr, in.X)
			e.localObj[e.nobj] = true
			return &IterV{Obj: e.nobj, Str: e.term(fr, in.X)}
		}
		unsup("range over %s", in.X.Type())
	case *ssa.Next:
		it, ok := e.val(fr, in.Iter).(*IterV)
		if !ok || !in.IsString {
			unsup("range iteration")
		}
		pos := st.heap[it.Obj].(*Term)
		okT := c.Lt(pos, e.slen(it.Str))
		r := e.runeAt(it.Str, pos)
		w := e.runeWidth(it.Str, pos)
		st.heap[it.Obj] = c.Add(pos, w)
		return TupleV{okT, pos, r}
	}
	unsup("instruction %T: %s", in, in)
	return nil
}

// allocEscapes reports whether the address of an allocation is stored or
// passed on (and not only used for field access and loads).
func (e *Exec) allocEscapes(a *ssa.Alloc) bool {
	for _, r := range *a.Referrers() {
		switch r := r.(type) {
		case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.UnOp, *ssa.DebugRef:
		case *ssa.Store:
			if r.Val == a {
				return true
			}
		default:
			return true
		}
	}
	return false
}

func (e *Exec) bounds(st *State, idx, n *Term) {
	g := e.c.And(e.c.Le(e.c.Int(0), idx), e.c.Lt(idx, n))
	e.oblig(st, "bounds", "index in range", g, nil)
	if e.dry == 0 {
		st.assume(e.c, g) // a failing index ends the path
	}
}

func (e *Exec) box(st *State, x Val, t types.Type) *Term {
	tag, ps := e.ts.BoxTag(t)
	if ps == "" {
		return e.c.Box(tag, nil)
	}
	return e.c.Box(tag, e.reify(st, x, t, true))
}

func (e *Exec) eqVals(st *State, a, b Val, t types.Type) *Term {
	if pa, ok := a.(*PtrV); ok {
		if pb, ok := b.(*PtrV); ok {
			return e.c.Bool(fmt.Sprint(*pa) == fmt.Sprint(*pb))
		}
		if tb, ok := b.(*Term); ok {
			if n, ok := tb.isInt64(); ok && n == 0 && pa.Kind != 't' {
				return e.c.False()
			}
		}
	}
	if _, ok := b.(*PtrV); ok {
		if _, ok := a.(*Term); ok {
			return e.eqVals(st, b, a, t)
		}
	}
	switch t.Underlying().(type) {
	case *types.Slice: // comparison with nil
		x := a
		if tm, ok := a.(*Term); ok && tm.Op == "empty" {
			x = b
		}
		return e.c.Eq(e.sliceLen(st, x), e.c.Int(0))
	case *types.Signature:
		if f, ok := a.(*FuncV); ok {
			_ = f
			return e.c.False()
		}
	}
	return e.c.Eq(e.reify(st, a, t, false), e.reify(st, b, t, false))
}

func (e *Exec) binop(fr *Frame, in *ssa.BinOp, st *State) Val {
	c := e.c
	xt := in.X.Type()
	switch in.Op {
	case token.EQL, token.NEQ:
		x, y := e.val(fr, in.X), e.val(fr, in.Y)
		r := e.eqVals(st, x, y, xt)
		if in.Op == token.NEQ {
			return c.Not(r)
		}
		return r
	}
	x, y := e.term(fr, in.X), e.term(fr, in.Y)
	return e.arith(st, in.Op, x, y, xt)
}

func (e *Exec) arith(st *State, op token.Token, x, y *Term, xt types.Type) *Term {
	c := e.c
	switch op {
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		if x.Sort == SStr {
			r := c.App("strless", SBool, x, y)
			switch op {
			case token.GTR:
				r = c.App("strless", SBool, y, x)
			case token.LEQ:
				r = c.Not(c.App("strless", SBool, y, x))
			case token.GEQ:
				r = c.Not(r)
			}
			return r
		}
	}
	switch op {
	case token.LSS:
		return c.Lt(x, y)
	case token.GTR:
		return c.Lt(y, x)
	case token.LEQ:
		return c.Le(x, y)
	case token.GEQ:
		return c.Le(y, x)
	case token.ADD:
		if x.Sort == SStr {
			return e.scat(x, y)
		}
		return c.Add(x, y)
	case token.SUB:
		return c.Sub(x, y)
	case token.MUL:
		return c.Mul(x, y)
	case token.QUO:
		if x.Sort == SReal {
			return c.RDiv(x, y)
		}
		e.oblig(st, "panic", "integer division by zero", c.Not(c.Eq(y, c.Int(0))), nil)
		return c.IDiv(x, y)
	case token.REM:
		e.oblig(st, "panic", "integer division by zero", c.Not(c.Eq(y, c.Int(0))), nil)
		return c.IMod(x, y)
	case token.SHR:
		if n, ok := y.isInt64(); ok && n < 62 {
			return c.EDiv(x, int64(1)<<uint(n))
		}
	case token.SHL:
		if n, ok := y.isInt64(); ok && n < 62 {
			return c.Mul(x, c.Int(int64(1)<<uint(n)))
		}
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		if x.Sort == SBool {
			break
		}
		if a, ok := x.isInt64(); ok {
			if b, ok := y.isInt64(); ok {
				switch op {
				case token.AND:
					return c.Int(a & b)
				case token.OR:
					return c.Int(a | b)
				case token.XOR:
					return c.Int(a ^ b)
				}
			}
		}
		if op == token.AND {
			if m, ok := y.isInt64(); ok && m >= 0 && (m+1)&m == 0 {
				return c.EMod(x, m+1)
			}
		}
		return c.App("bit"+op.String(), SInt, x, y)
	}
	unsup("operator %s on %s", op, xt)
	return nil
}

func (e *Exec) convert(fr *Frame, in *ssa.Convert, st *State) Val {
	c := e.c
	from, to := in.X.Type().Underlying(), in.Type().Underlying()
	if tb, ok := to.(*types.Basic); ok {
		switch {
		case tb.Info()&types.IsString != 0:
			if fb, ok := from.(*types.Basic); ok {
				if fb.Info()&types.IsString != 0 {
					return e.val(fr, in.X)
				}
				return c.App("runestr", SStr, e.term(fr, in.X))
			}
			seq := e.sliceSeq(st, e.val(fr, in.X))
			return c.App("bytestr", SStr, seq)
		case tb.Info()&types.IsFloat != 0:
			return c.ToReal(e.term(fr, in.X))
		case tb.Info()&types.IsInteger != 0:
			x := e.term(fr, in.X)
			if x.Sort == SReal {
				x = c.Trunc(x)
			}
			if tb.Kind() == types.Uint8 || tb.Kind() == types.Int8 {
				if fb, ok := from.(*types.Basic); ok && fb.Kind() == types.Uint8 {
					return x
				}
				return c.EMod(x, 256)
			}
			return x
		}
	}
	if _, ok := to.(*types.Slice); ok {
		s := e.term(fr, in.X)
		return e.ownSlice(st, c.App("strbytes:"+string(e.ts.SortOf(in.Type())), e.ts.SortOf(in.Type()), s), to.(*types.Slice).Elem(), "bytes")
	}
	return e.val(fr, in.X)
}

func (e *Exec) sliceOp(fr *Frame, in *ssa.Slice, st *State) Val {
	c := e.c
	opt := func(v ssa.Value, d *Term) *Term {
		if v == nil {
			return d
		}
		return e.term(fr, v)
	}
	switch u := in.X.Type().Underlying().(type) {
	case *types.Basic: // string
		s := e.term(fr, in.X)
		n := e.slen(s)
		lo, hi := opt(in.Low, c.Int(0)), opt(in.High, n)
		g := c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, n))
		e.oblig(st, "bounds", "string slice in range", g, nil)
		if e.dry == 0 {
			st.assume(c, g)
		}
		return e.ssub(s, lo, hi)
	case *types.Slice:
		v := e.val(fr, in.X)
		n := e.sliceLen(st, v)
		lo, hi := opt(in.Low, c.Int(0)), opt(in.High, n)
		// slicing up to the capacity is allowed in Go; we require the length,
		// which is the stronger condition
		g := c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, n))
		e.oblig(st, "bounds", "slice in range", g, nil)
		if e.dry == 0 {
			st.assume(c, g)
		}
		full := false
		if in.Max != nil {
			full = e.term(fr, in.Max) == hi
		}
		if t, ok := v.(*Term); ok {
			if t.Op == "empty" {
				return t
			}
			sv := e.asView(st, t, u.Elem())
			return &SliceV{Reg: sv.Reg, Off: c.Add(sv.Off, lo), Len: c.Sub(hi, lo), Full: full}
		}
		sv := v.(*SliceV)
		return &SliceV{Reg: sv.Reg, Off: c.Add(sv.Off, lo), Len: c.Sub(hi, lo), Full: full}
	case *types.Pointer:
		at, ok := u.Elem().Underlying().(*types.Array)
		if !ok {
			break
		}
		lo, ok1 := opt(in.Low, c.Int(0)).isInt64()
		hi, ok2 := opt(in.High, c.Int(at.Len())).isInt64()
		if !ok1 || !ok2 || lo < 0 || hi < lo || hi > at.Len() {
			unsup("slice of an array part")
		}
		p := e.asPtr(st, e.val(fr, in.X), in.X.Type())
		sv := e.load(st, p).(*StructV)
		ss := seqSort(e.ts.SortOf(at.Elem()))
		seq := c.Empty(ss)
		for i := lo; i < hi; i++ {
			seq = c.Snoc(seq, e.reify(st, sv.F[i], at.Elem(), true))
		}
		r := e.ownSlice(st, seq, at.Elem(), "slice literal")
		r.Full = true
		return r
	}
	unsup("slice of %s", in.X.Type())
	return nil
}

// ---- maps ----

func (e *Exec) emptyMap(mt *types.Map) *MapObj {
	m := &MapObj{KT: mt.Key(), VT: mt.Elem()}
	if _, ok := mt.Elem().Underlying().(*types.Signature); ok {
		m.Conc = true
		return m
	}
	vs := e.ts.SortOf(mt.Elem())
	ks := e.ts.SortOf(mt.Key())
	m.Pres = e.c.mk("constarr", arrSort(ks, SBool), e.c.False())
	m.Vals = e.c.mk("constarr", arrSort(ks, vs), e.reify(newState(), e.zero(mt.Elem()), mt.Elem(), false))
	return m
}

func (e *Exec) mapObj(st *State, v Val) (*MapObj, int) {
	mv, ok := v.(*MapV)
	if !ok {
		unsup("map value %T", v)
	}
	m, ok := st.heap[mv.Obj].(*MapObj)
	if !ok {
		unsup("map object")
	}
	return m, mv.Obj
}

func (e *Exec) mapUpdate(st *State, mv, k, v Val, mt types.Type) {
	m, obj := e.mapObj(st, mv)
	if e.roObj[obj] != "" && !e.inInit {
		e.oblig(st, "frame", "store to "+e.roObj[obj], e.c.False(), nil)
	}
	n := *m
	kt := e.reify(st, k, m.KT, false)
	if m.Conc {
		n.Ent = nil
		done := false
		for _, x := range m.Ent {
			if x.k == kt {
				n.Ent = append(n.Ent, mapEnt{kt, v})
				done = true
			} else {
				n.Ent = append(n.Ent, x)
			}
		}
		if !done {
			n.Ent = append(n.Ent, mapEnt{kt, v})
		}
	} else {
		n.Pres = e.c.Store(m.Pres, kt, e.c.True())
		n.Vals = e.c.Store(m.Vals, kt, e.reify(st, v, m.VT, true))
	}
	st.heap[obj] = &n
}

// lookupForks executes a map or string lookup that may need a case split;
// it reports whether it took over the continuation.
func (e *Exec) lookupForks(fr *Frame, in *ssa.Lookup, st *State, k func(*State, Val)) bool {
	c := e.c
	if b, ok := in.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		s, idx := e.term(fr, in.X), e.term(fr, in.Index)
		e.bounds(st, idx, e.slen(s))
		fr.env[in] = e.sbyte(s, idx)
		return false
	}
	ret := func(v Val, ok *Term) Val {
		if in.CommaOk {
			return TupleV{v, ok}
		}
		return v
	}
	if t, ok := e.val(fr, in.X).(*Term); ok {
		// a map of another package, read only
		kt := e.term(fr, in.Index)
		vt := in.X.Type().Underlying().(*types.Map).Elem()
		pres := c.App("mappres:"+t.String(), SBool, kt)
		v := e.reflect(c.App("mapval:"+t.String(), e.ts.SortOf(vt), kt), vt)
		if !in.CommaOk {
			zero := e.reify(st, e.zero(vt), vt, false)
			fr.env[in] = e.reflect(c.Ite(pres, e.reify(st, v, vt, false), zero), vt)
			return false
		}
		fr.env[in] = TupleV{v, pres}
		return false
	}
	m, _ := e.mapObj(st, e.val(fr, in.X))
	kt := e.reify(st, e.val(fr, in.Index), m.KT, false)
	if !m.Conc {
		pres := c.Select(m.Pres, kt, SBool)
		vs := e.ts.SortOf(m.VT)
		raw := c.Select(m.Vals, kt, vs)
		if _, isP := m.VT.Underlying().(*types.Pointer); isP {
			e.assumeAllocated(st, raw, m.VT)
		}
		zero := e.reify(st, e.zero(m.VT), m.VT, false)
		v := e.reflect(c.Ite(pres, raw, zero), m.VT)
		fr.env[in] = ret(v, pres)
		return false
	}
	// association list: one case per key
	rest := st.clone()
	for _, x := range m.Ent {
		eq := rest.decided(c, c.Eq(kt, x.k))
		if eq.isFalse() {
			continue
		}
		if e.feasible(rest, eq) {
			s2 := rest.clone()
			s2.assume(c, eq)
			v := x.v
			e.guard(func() { k(s2, ret(v, c.True())) })
		}
		if eq.isTrue() {
			return true
		}
		rest.assume(c, c.Not(eq))
	}
	if e.feasible(rest, c.True()) {
		e.guard(func() { k(rest, ret(e.zero(m.VT), c.False())) })
	}
	return true
}

// alloc gives a new reference; all references in use are below it.
func (e *Exec) alloc(st *State) *Term {
	a := e.allocCtr(st)
	st.ghost["alloc"] = e.c.Add(a, e.c.Int(1))
	return a
}

func (e *Exec) allocCtr(st *State) *Term {
	a, ok := st.ghost["alloc"]
	if !ok {
		a = e.c.Var("alloc0", SInt)
		st.ghost["alloc"] = a
		st.assume(e.c, e.c.Lt(e.c.Int(0), a))
	}
	return a
}

// assumeAllocated: a reference found in memory is nil or was allocated.
func (e *Exec) assumeAllocated(st *State, v Val, typ types.Type) {
	t, ok := v.(*Term)
	if !ok || t.isNum() {
		return
	}
	pt, ok := typ.Underlying().(*types.Pointer)
	if !ok || !heapTyped(pt.Elem()) || e.inInit {
		return
	}
	st.assume(e.c, e.c.Le(e.c.Int(0), t))
	st.assume(e.c, e.c.Lt(t, e.allocCtr(st)))
}

// ---- calls ----

func (e *Exec) doCall(fr *Frame, in *ssa.Call, st *State, k Cont) {
	com := in.Common()
	if com.IsInvoke() {
		recv := e.val(fr, com.Value)
		var args []Val
		for _, a := range com.Args {
			args = append(args, e.val(fr, a))
		}
		e.invokeIface(fr, in, com, recv, args, st, k)
		return
	}
	var args []Val
	for _, a := range com.Args {
		args = append(args, e.val(fr, a))
	}
	if b, ok := com.Value.(*ssa.Builtin); ok {
		e.builtin(fr, in, b, com, args, st, k)
		return
	}
	e.invokeVal(fr, in, e.val(fr, com.Value), args, st, k)
}

func (e *Exec) invokeVal(fr *Frame, in *ssa.Call, f Val, args []Val, st *State, k Cont) {
	fv, ok := f.(*FuncV)
	if !ok {
		unsup("call of an unknown function value")
	}
	fn := fv.Fn
	if fn == nil {
		unsup("call of opaque function")
	}
	e.invokeFn(fr, in, fn, args, fv.Binds, st, k)
}

func (e *Exec) invokeFn(fr *Frame, in *ssa.Call, fn *ssa.Function, args, binds []Val, st *State, k Cont) {
	if fn.Name() == "init" && fn.Synthetic != "" {
		k(st, nil) // the initialisation of another package: its variables are left symbolic or run on their own
		return
	}
	if m, ok := externs[extName(fn)]; ok {
		e.trustUsed[extName(fn)] = true
		m(e, &CallCtx{fr: fr, in: in, fn: fn, args: args, st: st, k: k})
		return
	}
	if ct := e.p.specs.contracts[extName(fn)]; ct != nil && ct.Trusted != "" && !e.p.isRepo(fn) && len(ct.Params) == len(args) && !e.inInit {
		e.callContract(fr, fn, ct, args, st, k)
		return
	}
	if !e.p.isRepo(fn) && !inlineExtern(fn) {
		e.unknownExtern(fn, args, st, k)
		return
	}
	if ct := e.p.contractOf(fn); ct != nil && !ct.Inline && !e.inInit {
		if fn == e.root || !e.wantInline(fn, ct) {
			e.byContract[fnName(fn)] = true
			e.callContract(fr, fn, ct, args, st, k)
			return
		}
	}
	if e.p.isRepo(fn) && fn.Synthetic == "" {
		e.inlined[fnName(fn)] = true
	}
	for f := fr; f != nil; f = nil {
		if f.fn == fn {
			unsup("recursive call of %s without a contract", fn)
		}
	}
	pos := e.curPos
	e.call(fn, args, binds, st, e.p.contractOf(fn), func(st *State, res []Val) {
		e.curPos = pos
		k(st, res)
	})
}

func (e *Exec) wantInline(fn *ssa.Function, ct *Contract) bool { return false }

func (e *Exec) unknownExtern(fn *ssa.Function, args []Val, st *State, k Cont) {
	// an unmodelled library function with scalar arguments and results is an
	// uninterpreted function; anything else is out of reach
	sig := fn.Signature
	var ts []*Term
	ps := fn.Params
	_ = ps
	for i, a := range args {
		t, ok := a.(*Term)
		if !ok {
			unsup("unmodelled function %s (argument %d)", fn, i)
		}
		ts = append(ts, t)
	}
	var res []Val
	for i := 0; i < sig.Results().Len(); i++ {
		rt := sig.Results().At(i).Type()
		switch rt.Underlying().(type) {
		case *types.Basic:
		default:
			unsup("unmodelled function %s", fn)
		}
		name := extName(fn)
		if sig.Results().Len() > 1 {
			name = fmt.Sprintf("%s#%d", name, i)
		}
		r, ok := foldExtern(e.c, name, ts)
		if !ok {
			r = e.c.App(name, e.ts.SortOf(rt), ts...)
		}
		res = append(res, r)
	}
	if len(res) == 0 {
		unsup("unmodelled function %s", fn)
	}
	e.trustUsed["(uninterpreted) "+extName(fn)] = true
	k(st, res)
}

func (e *Exec) builtin(fr *Frame, in *ssa.Call, b *ssa.Builtin, com *ssa.CallCommon, args []Val, st *State, k Cont) {
	c := e.c
	switch b.Name() {
	case "len":
		t := com.Args[0].Type().Underlying()
		switch t.(type) {
		case *types.Basic:
			k(st, []Val{e.slen(args[0].(*Term))})
			return
		case *types.Slice:
			k(st, []Val{e.sliceLen(st, args[0])})
			return
		case *types.Array:
			k(st, []Val{c.Int(t.(*types.Array).Len())})
			return
		}
	case "cap":
		if _, ok := com.Args[0].Type().Underlying().(*types.Slice); ok {
			n := e.sliceLen(st, args[0])
			cp := c.Fresh("cap", SInt)
			st.assume(c, c.Le(n, cp))
			k(st, []Val{cp})
			return
		}
	case "append":
		k(st, []Val{e.appendOp(st, com, args)})
		return
	case "copy":
		e.copyOp(st, com, args, k)
		return
	case "print", "println":
		k(st, nil)
		return
	case "min", "max":
		r := args[0].(*Term)
		for _, a := range args[1:] {
			t := a.(*Term)
			if b.Name() == "min" {
				r = c.Ite(c.Le(r, t), r, t)
			} else {
				r = c.Ite(c.Le(t, r), r, t)
			}
		}
		k(st, []Val{r})
		return
	case "ssa:wrapnilchk":
		k(st, []Val{args[0]})
		return
	}
	unsup("builtin %s", b.Name())
}

func (e *Exec) appendOp(st *State, com *ssa.CallCommon, args []Val) Val {
	c := e.c
	stp := com.Args[0].Type().Underlying().(*types.Slice)
	base := args[0]
	var add *Term
	if _, ok := com.Args[1].Type().Underlying().(*types.Basic); ok {
		add = c.App("strbytes:"+string(e.ts.SortOf(com.Args[0].Type())), e.ts.SortOf(com.Args[0].Type()), args[1].(*Term))
	} else {
		add = e.sliceSeq(st, args[1])
	}
	if add.Op == "empty" {
		return base
	}
	seq := e.sliceSeq(st, base)
	n := c.SeqCat(seq, add)
	r := e.newRegion(st, n, stp.Elem(), "slice appended at "+e.pos(e.curPos))
	out := &SliceV{Reg: r, Off: c.Int(0), Len: c.SeqLen(n)}
	switch bv := base.(type) {
	case *Term:
		if bv.Op != "empty" && !e.appendable(com.Args[0]) {
			e.oblig(st, "alias", "append to a slice that is part of a recorded value (its spare capacity may be shared)", c.False(), nil)
		}
	case *SliceV:
		br := st.regs[bv.Reg]
		emptyBase := c.SeqLen(br.Content)
		if z, ok := emptyBase.isInt64(); ok && z == 0 && !br.Stale {
			// nothing can be overwritten
			break
		}
		if bv.Full {
			break
		}
		if br.Frozen && !e.appendable(com.Args[0]) {
			e.oblig(st, "alias", "append to a slice that is part of a recorded value (its spare capacity may be shared)", c.False(), nil)
		}
		if br.Stale {
			e.oblig(st, "alias", "second append to the same slice: both results may share memory", c.False(), nil)
		}
		end := c.Add(bv.Off, bv.Len)
		if end != c.SeqLen(br.Content) {
			// overwrites the tail of the region
			if br.Leaked {
				e.oblig(st, "alias", "append overwrites "+br.Origin+", which is part of a recorded value", c.Eq(end, c.SeqLen(br.Content)), nil)
			}
			nb := *br
			nb.Clob = true
			nb.Stale = true
			st.regs[bv.Reg] = &nb
		} else {
			nb := *br
			nb.Stale = true
			st.regs[bv.Reg] = &nb
		}
		st.regs[r].Base = bv.Reg
		if br.Leaked && end != c.SeqLen(br.Content) {
			st.regs[r].Leaked = true
		} else if br.Leaked {
			// the recorded part is never written again through the longer slice
			// unless an index store does: keep the mark
			st.regs[r].Leaked = true
		}
	}
	return out
}

// appendable lists the places that own a growing list exclusively.
func (e *Exec) appendable(v ssa.Value) bool {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		field := func(v ssa.Value, owned bool) bool {
			fa, ok := v.(*ssa.FieldAddr)
			if !ok {
				return false
			}
			st := fa.X.Type().Underlying().(*types.Pointer).Elem()
			name := typeName(st) + "." + st.Underlying().(*types.Struct).Field(fa.Field).Name()
			return e.p.appendOnly[name] || owned && e.p.specs.owned[name]
		}
		if ph, ok := u.X.(*ssa.Phi); ok {
			for _, x := range ph.Edges {
				if !field(x, true) {
					return false
				}
			}
			return true
		}
		if field(u.X, false) {
			return true
		}
	}
	if p, ok := v.(*ssa.Parameter); ok {
		return e.p.appendOnly[typeName(p.Type())]
	}
	if p, ok := v.(*ssa.Phi); ok {
		return e.p.appendOnly[typeName(p.Type())]
	}
	if p, ok := v.(*ssa.Call); ok {
		return e.p.appendOnly[typeName(p.Type())]
	}
	return false
}

func (e *Exec) copyOp(st *State, com *ssa.CallCommon, args []Val, k Cont) {
	c := e.c
	dst, ok := args[0].(*SliceV)
	if !ok {
		unsup("copy destination")
	}
	if _, ok := com.Args[1].Type().Underlying().(*types.Slice); !ok {
		unsup("copy from a string")
	}
	src := e.sliceSeq(st, args[1])
	r := st.regs[dst.Reg]
	if r.Leaked || r.Frozen || r.Stale {
		e.oblig(st, "alias", "copy into "+r.Origin+", which is shared", c.False(), nil)
	}
	n := c.SeqLen(src)
	whole := c.And(c.Eq(dst.Off, c.Int(0)), c.Eq(dst.Len, c.SeqLen(r.Content)), c.Eq(dst.Len, n))
	if st.decided(c, whole).isTrue() {
		nr := *r
		nr.Content = src
		st.regs[dst.Reg] = &nr
		k(st, []Val{n})
		return
	}
	unsup("copy of a part of a slice")
}

// invokeIface dispatches an interface method call.
func (e *Exec) invokeIface(fr *Frame, in *ssa.Call, com *ssa.CallCommon, recvV Val, args []Val, st *State, k Cont) {
	c := e.c
	name := typeName(com.Value.Type()) + "." + com.Method.Name()
	if m, ok := externs[name]; ok {
		e.trustUsed[name] = true
		m(e, &CallCtx{fr: fr, in: in, args: append([]Val{recvV}, args...), st: st, k: k})
		return
	}
	if ct := e.p.specs.contracts[name]; ct != nil && ct.Trusted != "" && len(ct.Params) == len(args)+1 {
		pts := []types.Type{com.Value.Type()}
		sig := com.Method.Type().(*types.Signature)
		for i := 0; i < sig.Params().Len(); i++ {
			pts = append(pts, sig.Params().At(i).Type())
		}
		if t, ok := recvV.(*Term); ok {
			if !st.decided(c, c.Eq(t, c.NilAny())).isFalse() {
				e.oblig(st, "nil", "method call on a nil "+typeName(com.Value.Type()), c.Not(c.Eq(t, c.NilAny())), nil)
			}
			if e.p.shadowOf(com.Value.Type()) != nil {
				if t == c.NilAny() {
					return
				}
				unsup("interface call %s on an unknown object", name)
			}
		}
		e.callBy(ct, com.Method.Name(), pts, sig.Results(), append([]Val{recvV}, args...), st, k)
		return
	}
	recv, ok := recvV.(*Term)
	if !ok {
		unsup("interface call %s on a library object", name)
	}
	impls := e.p.implementers(com.Value.Type())
	if len(impls) == 0 {
		unsup("interface call %s", name)
	}
	rest := st.clone()
	for _, t := range impls {
		tag, ps := e.ts.BoxTag(t)
		is := rest.decided(c, c.IsBox(recv, tag))
		if is.isFalse() {
			continue
		}
		if e.feasible(rest, is) {
			s2 := rest.clone()
			s2.assume(c, is)
			var x Val
			if ps == "" {
				s2.assume(c, c.Eq(recv, c.Box(tag, nil)))
				x = e.zero(t)
			} else {
				s2.assume(c, c.Eq(recv, c.Box(tag, c.Unbox(recv, tag, ps))))
				x = e.reflect(c.Unbox(recv, tag, ps), t)
			}
			sel := e.p.prog.MethodSets.MethodSet(t).Lookup(com.Method.Pkg(), com.Method.Name())
			if sel == nil {
				unsup("method %s of %s", com.Method.Name(), t)
			}
			fn := e.p.prog.MethodValue(sel)
			e.guard(func() { e.invokeFn(fr, in, fn, append([]Val{x}, args...), nil, s2, k) })
		}
		rest.assume(c, c.Not(is))
	}
	// a dynamic type outside the package's own is excluded by assumption;
	// nil is a panic
	nil1 := rest.decided(c, c.Eq(recv, c.NilAny()))
	if !nil1.isFalse() {
		e.oblig(rest, "nil", "method call on a nil "+typeName(com.Value.Type()), c.Not(nil1), nil)
	}
}

var debug = os.Getenv("GOVC_DEBUG") != ""
