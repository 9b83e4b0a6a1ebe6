package main

// Ground facts added to queries: definitions of the recursive specifications
// (unfolded a bounded number of times at the terms that occur), and the axioms
// of the models instantiated at the terms that occur.

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

var mathPi = new(big.Rat).SetFloat64(math.Pi)

func collect(ts []*Term, seen map[*Term]bool, f func(t *Term)) {
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if binders[t.Op] != "" {
			for _, a := range t.Args[:len(t.Args)-1] {
				walk(a)
			}
			f(t)
			return
		}
		for _, a := range t.Args {
			walk(a)
		}
		f(t)
	}
	for _, t := range ts {
		walk(t)
	}
}

// groundFacts returns facts about the terms of the assertions. depth is the
// number of times recursive specifications are unfolded.
func (e *Exec) groundFacts(as []*Term, depth int) []*Term {
	c := e.c
	seen := map[*Term]bool{}
	have := map[int]bool{}
	for _, a := range as {
		have[a.id] = true
	}
	var out []*Term
	var work []*Term
	add := func(t *Term) {
		if t.isTrue() || have[t.id] {
			return
		}
		have[t.id] = true
		out = append(out, t)
		work = append(work, t)
	}
	lits := map[string]*Term{}
	seqEq := map[[2]int]bool{}
	var strs []*Term
	var lam []*Term
	seqArgs := map[string][]*Term{}
	level := map[*Term]int{}
	// quantified assumptions, with the sequences they index by the bound variable
	type quant struct {
		t    *Term
		seqs map[*Term]bool
	}
	var quants []quant
	for _, a := range as {
		if a.Op != "forall" || a.Args[0].Sort != SInt {
			continue
		}
		q := quant{a, map[*Term]bool{}}
		collect([]*Term{a.Args[1]}, map[*Term]bool{}, func(t *Term) {
			if t.Op == "at" && t.Args[1] == a.Args[0] {
				q.seqs[t.Args[0]] = true
			}
		})
		if len(q.seqs) > 0 {
			quants = append(quants, q)
		}
	}
	insts := 0
	cur := as
	for round := 0; round < 8; round++ {
		work = nil
		var apps []*Term
		collect(cur, seen, func(t *Term) {
			if t.bound {
				return
			}
			switch t.Op {
			case "lit":
				lits[t.Str] = t
			case "inv":
				x := t.Args[0]
				add(c.Or(c.Eq(x, c.Real(0)), c.mk("=", SBool, c.mk("*", SReal, t, x), c.Real(1))))
			case "slen":
				add(c.mk("<=", SBool, c.Int(0), t))
				add(c.mk("=", SBool, c.mk("=", SBool, t, c.Int(0)), c.mk("=", SBool, t.Args[0], c.Lit(""))))
				strs = append(strs, t.Args[0])
			case "sbyte":
				add(c.And(c.mk("<=", SBool, c.Int(0), t), c.mk("<", SBool, t, c.Int(256))))
			case "rune":
				b := c.sbyte(t.Args[0], t.Args[1])
				w := c.runeWidth(t.Args[0], t.Args[1])
				in := c.And(c.Le(c.Int(0), t.Args[1]), c.Lt(t.Args[1], c.slen(t.Args[0])))
				ascii := c.Lt(b, c.Int(128))
				add(c.Imp(c.And(in, ascii), c.And(c.Eq(t, b), c.Eq(w, c.Int(1)))))
				add(c.Imp(c.And(in, c.Not(ascii)), c.Le(c.Int(128), t)))
				add(c.Le(c.Int(0), t))
			case "runew":
				in := c.And(c.Le(c.Int(0), t.Args[1]), c.Lt(t.Args[1], c.slen(t.Args[0])))
				add(c.And(c.Le(c.Int(1), t), c.Le(t, c.Int(4))))
				add(c.Imp(in, c.Le(c.Add(t.Args[1], t), c.slen(t.Args[0]))))
			case "strings.HasPrefix":
				p := t.Args[1]
				if p.isLit() {
					cs := []*Term{c.Le(c.Int(int64(len(p.Str))), c.slen(t.Args[0]))}
					for i := range p.Str {
						cs = append(cs, c.Eq(c.sbyte(t.Args[0], c.Int(int64(i))), c.Int(int64(p.Str[i]))))
					}
					add(c.Eq(t, c.And(cs...)))
				} else {
					add(c.Imp(t, c.Le(c.slen(p), c.slen(t.Args[0]))))
				}
				strs = append(strs, t.Args[0])
			case "strings.HasSuffix":
				p := t.Args[1]
				if p.isLit() {
					n := c.slen(t.Args[0])
					cs := []*Term{c.Le(c.Int(int64(len(p.Str))), n)}
					for i := range p.Str {
						cs = append(cs, c.Eq(c.sbyte(t.Args[0], c.Add(n, c.Int(int64(i-len(p.Str))))), c.Int(int64(p.Str[i]))))
					}
					add(c.Eq(t, c.And(cs...)))
				} else {
					add(c.Imp(t, c.Le(c.slen(p), c.slen(t.Args[0]))))
				}
				strs = append(strs, t.Args[0])
			case "strings.Index":
				s, p := t.Args[0], t.Args[1]
				add(c.Le(c.Int(-1), t))
				found := c.Le(c.Int(0), t)
				add(c.Imp(found, c.Le(c.Add(t, c.slen(p)), c.slen(s))))
				if p.isLit() && len(p.Str) == 1 {
					add(c.Imp(found, c.Eq(c.sbyte(s, t), c.Int(int64(p.Str[0])))))
				}
			case "math.Sqrt":
				x := t.Args[0]
				add(c.Imp(c.Le(c.Real(0), x), c.And(c.Le(c.Real(0), t), c.Eq(c.Mul(t, t), x))))
			case "math.Cos":
				add(c.Imp(c.Eq(t.Args[0], c.Real(0)), c.Eq(t, c.Real(1))))
			case "math.Sin":
				add(c.Imp(c.Eq(t.Args[0], c.Real(0)), c.Eq(t, c.Real(0))))
				if co := c.App("math.Cos", SReal, t.Args[0]); true {
					add(c.Eq(c.Add(c.Mul(t, t), c.Mul(co, co)), c.Real(1)))
				}
			case "math.Atan2":
				y, x := t.Args[0], t.Args[1]
				pi := c.Rat(mathPi, SReal)
				half := c.Rat(new(big.Rat).Mul(mathPi, big.NewRat(1, 2)), SReal)
				neg := func(r *big.Rat) *Term { return c.Rat(new(big.Rat).Neg(r), SReal) }
				zero := c.Real(0)
				add(c.Le(t, pi))
				add(c.Le(neg(mathPi), t))
				add(c.Imp(c.And(c.Eq(y, zero), c.Lt(zero, x)), c.Eq(t, zero)))
				add(c.Imp(c.And(c.Eq(y, zero), c.Lt(x, zero)), c.Eq(t, pi)))
				add(c.Imp(c.And(c.Eq(x, zero), c.Lt(zero, y)), c.Eq(t, half)))
				add(c.Imp(c.And(c.Eq(x, zero), c.Lt(y, zero)), c.Eq(t, neg(new(big.Rat).Mul(mathPi, big.NewRat(1, 2))))))
			case "trunc":
				x := t.Args[0]
				tr := c.mk("to_real", SReal, t)
				add(c.Imp(c.Le(c.Real(0), x), c.And(c.Le(tr, x), c.Lt(x, c.Add(tr, c.Real(1))))))
				add(c.Imp(c.Lt(x, c.Real(0)), c.And(c.Le(x, tr), c.Lt(tr, c.Add(x, c.Real(1))))))
			case "unicode.IsLetter":
				r := t.Args[0]
				l := func(lo, hi int64) *Term { return c.And(c.Le(c.Int(lo), r), c.Le(r, c.Int(hi))) }
				add(c.Imp(c.And(c.Le(c.Int(0), r), c.Lt(r, c.Int(128))), c.Eq(t, c.Or(l('a', 'z'), l('A', 'Z')))))
			case "unicode.IsNumber":
				r := t.Args[0]
				add(c.Imp(c.And(c.Le(c.Int(0), r), c.Lt(r, c.Int(128))), c.Eq(t, c.And(c.Le(c.Int('0'), r), c.Le(r, c.Int('9'))))))
			case "strings.Split":
				add(c.Le(c.Int(1), c.SeqLen(t)))
			case "comp":
				n := t.Args[0]
				i := c.BVar("seq!i", SInt)
				add(c.mk("=", SBool, c.mk("len", SInt, t), c.Ite(c.Le(c.Int(0), n), n, c.Int(0))))
				add(c.Forall(i, c.Imp(c.And(c.Le(c.Int(0), i), c.Lt(i, n)), c.mk("=", SBool, c.mk("at", elemSort(t.Sort), t, i), t.Args[1]))))
			case "fieldsfunc":
				lam = append(lam, t)
			case "at":
				for _, q := range quants {
					if q.seqs[t.Args[0]] && insts < 200 {
						insts++
						add(c.Subst(q.t.Args[1], map[*Term]*Term{q.t.Args[0]: t.Args[1]}))
					}
				}
			case "=":
				a, b := t.Args[0], t.Args[1]
				if isSeq(a.Sort) && a.Op != "empty" && b.Op != "empty" && !seqEq[[2]int{a.id, b.id}] {
					seqEq[[2]int{a.id, b.id}] = true
					add(e.seqExt(a, b))
				}
			}
			if strings.HasPrefix(t.Op, "rec:") {
				apps = append(apps, t)
			}
			if _, ok := uintSel(e.ts, t); ok {
				add(c.And(c.Le(c.Int(0), t), c.mk("<", SBool, t, c.Int(256))))
			}
			// arguments of uninterpreted functions over sequences
			if isUF(e.ts, t) {
				for i, a := range t.Args {
					if isSeq(a.Sort) {
						k := fmt.Sprintf("%s|%s|%d", t.Op, a.Sort, i)
						for _, o := range seqArgs[k] {
							if o != a && !seqEq[[2]int{o.id, a.id}] {
								seqEq[[2]int{o.id, a.id}] = true
								if len(seqEq) < 12 {
									add(e.seqExt(o, a))
								}
							}
						}
						seqArgs[k] = append(seqArgs[k], a)
					}
				}
			}
		})
		for _, a := range apps {
			lv := level[a]
			if lv >= depth {
				continue
			}
			b := e.unfold(a)
			if b == nil {
				continue
			}
			collect([]*Term{b}, map[*Term]bool{}, func(t *Term) {
				if strings.HasPrefix(t.Op, "rec:") {
					if _, ok := level[t]; !ok && !seen[t] {
						level[t] = lv + 1
					}
				}
			})
			add(c.mk("=", SBool, a, b))
		}
		if len(work) == 0 {
			break
		}
		cur = work
	}
	for i, a := range lam {
		for _, b := range lam[:i] {
			if a.Args[0] == b.Args[0] && a.Args[1] != b.Args[1] {
				sk := c.Fresh("sk.rune", SInt)
				m := map[*Term]*Term{c.BVar("rune!p", SInt): sk}
				out = append(out, c.Or(c.Eq(a, b), c.Not(c.Eq(c.Subst(a.Args[1], m), c.Subst(b.Args[1], m)))))
			}
		}
	}
	// a string equal to a literal has its length and bytes
	done := map[*Term]bool{}
	for _, s := range strs {
		if done[s] || s.isLit() {
			continue
		}
		done[s] = true
		for _, l := range lits {
			eq := c.Eq(s, l)
			cs := []*Term{c.Eq(c.slen(s), c.Int(int64(len(l.Str))))}
			for i := 0; i < len(l.Str) && i < 24; i++ {
				cs = append(cs, c.Eq(c.sbyte(s, c.Int(int64(i))), c.Int(int64(l.Str[i]))))
			}
			if len(l.Str) <= 3 {
				out = append(out, c.Eq(eq, c.And(cs...)))
			} else {
				out = append(out, c.Imp(eq, c.And(cs...)))
			}
		}
	}
	return out
}

func (e *Exec) seqExt(a, b *Term) *Term {
	c := e.c
	sk := c.Fresh("sk.ext", SInt)
	la := c.SeqLen(a)
	return c.Or(c.mk("=", SBool, a, b), c.Not(c.Eq(la, c.SeqLen(b))),
		c.And(c.Le(c.Int(0), sk), c.Lt(sk, la), c.Not(c.Eq(c.SeqAt(a, sk), c.SeqAt(b, sk)))))
}

func uintSel(ts *TypeSorts, t *Term) (int, bool) {
	if len(t.Args) != 1 || t.Sort != SInt {
		return 0, false
	}
	i, ok := ts.selIndex(t.Op, t.Args[0].Sort)
	if !ok {
		return 0, false
	}
	b, ok := ts.dts[t.Args[0].Sort].ftypes[i].Underlying().(*types.Basic)
	return i, ok && b.Kind() == types.Uint8
}

var interpreted = map[string]bool{"len": true, "at": true, "snoc": true, "upd": true, "sub": true, "cat": true, "rep": true, "comp": true, "paren": true, "inv": true, "trunc": true, "forall": true, "constarr": true}

func isUF(ts *TypeSorts, t *Term) bool {
	if len(t.Args) == 0 || interpreted[t.Op] {
		return false
	}
	if _, ok := builtinOps[t.Op]; ok {
		return false
	}
	if strings.HasPrefix(t.Op, "mk_") || strings.HasPrefix(t.Op, "box_") || strings.HasPrefix(t.Op, "unbox_") || strings.HasPrefix(t.Op, "is_") {
		return false
	}
	if len(t.Args) == 1 {
		if _, ok := ts.selIndex(t.Op, t.Args[0].Sort); ok {
			return false
		}
	}
	return true
}

// relevant keeps the assertions connected to t through unknowns.
func relevant(as []*Term, t *Term) []*Term {
	leaves := func(t *Term) map[string]bool {
		m := map[string]bool{}
		collect([]*Term{t}, map[*Term]bool{}, func(x *Term) {
			if x.Op == "var" {
				m[x.Str] = true
			}
		})
		return m
	}
	want := leaves(t)
	ls := make([]map[string]bool, len(as))
	in := make([]bool, len(as))
	for i, a := range as {
		ls[i] = leaves(a)
	}
	for ch := true; ch; {
		ch = false
		for i := range as {
			if in[i] {
				continue
			}
			hit := as[i] == t
			for k := range ls[i] {
				if want[k] {
					hit = true
					break
				}
			}
			if hit {
				in[i] = true
				ch = true
				for k := range ls[i] {
					want[k] = true
				}
			}
		}
	}
	var out []*Term
	for i := range as {
		if in[i] {
			out = append(out, as[i])
		}
	}
	return out
}

// ---- proving ----

type proofRes struct {
	ok  bool
	res SolveResult
}

var recDepth = 2

// clearInv multiplies equations between rational expressions by their
// denominators, which the path condition knows to be nonzero.
func (e *Exec) clearInv(pc []*Term, g *Term) *Term {
	c := e.c
	switch g.Op {
	case "and":
		var as []*Term
		for _, a := range g.Args {
			as = append(as, e.clearInv(pc, a))
		}
		return c.And(as...)
	case "or":
		// assume the negated literals while treating each disjunct
		var as []*Term
		for i, a := range g.Args {
			hyp := pc
			for j, b := range g.Args {
				if i != j {
					hyp = append(append([]*Term{}, hyp...), c.Not(b))
				}
			}
			as = append(as, e.clearInv(hyp, a))
		}
		return c.Or(as...)
	case "=":
	default:
		return g
	}
	if g.Args[0].Sort != SReal {
		return g
	}
	d := c.Sub(g.Args[0], g.Args[1])
	for n := 0; n < 6; n++ {
		p := c.toPoly(d)
		var inv *Term
		pow := 0
		for _, m := range p.ms {
			cnt := map[*Term]int{}
			for _, a := range m.atoms {
				if a.Op == "inv" {
					cnt[a]++
					if inv == nil {
						if e.nonzero(pc, a.Args[0]) {
							inv = a
						}
					}
				}
			}
		}
		if inv == nil {
			break
		}
		for _, m := range p.ms {
			k := 0
			for _, a := range m.atoms {
				if a == inv {
					k++
				}
			}
			if k > pow {
				pow = k
			}
		}
		x := inv.Args[0]
		sum := c.Real(0)
		for _, m := range p.ms {
			k := 0
			t := c.Rat(m.c, SReal)
			for _, a := range m.atoms {
				if a == inv {
					k++
				} else {
					t = c.Mul(t, a)
				}
			}
			for ; k < pow; k++ {
				t = c.Mul(t, x)
			}
			sum = c.Add(sum, t)
		}
		d = sum
	}
	if d.isNum() && d.Num.Sign() == 0 {
		return c.True()
	}
	return g
}

// nonzero asks the path condition, and then a solver, whether x is not zero.
func (e *Exec) nonzero(pc []*Term, x *Term) bool {
	c := e.c
	if x.isNum() {
		return x.Num.Sign() != 0
	}
	nz := c.Not(c.Eq(x, c.Real(0)))
	for _, h := range pc {
		if h == nz || h == c.Lt(c.Real(0), x) || h == c.Lt(x, c.Real(0)) {
			return true
		}
	}
	if e.nzCache == nil {
		e.nzCache = map[string]bool{}
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d|", x.id)
	for _, h := range pc {
		fmt.Fprintf(&sb, "%d,", h.id)
	}
	k := sb.String()
	if v, ok := e.nzCache[k]; ok {
		return v
	}
	solverSlots <- struct{}{}
	r := runSolver(solvers[0], e.queryFor(pc, nz, 0), fastTimeout)
	<-solverSlots
	e.nzCache[k] = r.Status == "unsat"
	return e.nzCache[k]
}

// reduce rewrites a goal with what its path condition says: literals are replaced
// by their truth values, variables by what they are equal to.
func (e *Exec) reduce(pc []*Term, g *Term) *Term {
	c := e.c
	for n := 0; n < 10; n++ {
		m := map[*Term]*Term{}
		sub := false
		for _, h := range pc {
			if h.Op == "not" {
				m[h.Args[0]] = c.False()
			} else if h.Op != "and" && h.Op != "or" {
				m[h] = c.True()
				if n := c.Not(h); n.Op == "<" || n.Op == "<=" {
					m[n] = c.False()
				}
			}
		}
		for _, h := range pc {
			if h.Op == "=" {
				a, b := h.Args[0], h.Args[1]
				if a.Op != "var" {
					a, b = b, a
				}
				if a.isNum() {
					a, b = b, a
				}
				if b.isNum() && !a.isNum() && !a.bound {
					if m[a] == nil {
						m[a] = b
					}
					continue
				}
				if a.Op == "var" && a != b && m[a] == nil && !occurs(a, b) && !sub {
					m[a] = b
					sub = true
				}
			}
		}
		ng := c.Subst(g, m)
		// one equation at a time, also in the path condition
		var np []*Term
		for _, h := range pc {
			mm := map[*Term]*Term{}
			for k, v := range m {
				if k.Op == "var" && v.Op != "true" && v.Op != "false" {
					mm[k] = v
				}
			}
			if len(mm) == 0 {
				np = append(np, h)
			} else if t := c.Subst(h, mm); !t.isTrue() {
				np = append(np, t)
			}
		}
		if ng == g {
			break
		}
		g, pc = ng, np
	}
	if g.isTrue() {
		return g
	}
	return e.clearInv(pc, g)
}

func termSize(t *Term) int {
	n := 0
	collect([]*Term{t}, map[*Term]bool{}, func(*Term) { n++ })
	return n
}

// unfoldTrue: the goal becomes true when its recursive specifications are
// unfolded once, their cases decided by the integer comparisons of the path.
func (e *Exec) unfoldTrue(pc []*Term, g *Term) bool {
	if !hasRec(g) {
		return false
	}
	c := e.c
	var apps []*Term
	collect([]*Term{g}, map[*Term]bool{}, func(a *Term) {
		if strings.HasPrefix(a.Op, "rec:") && !a.bound {
			apps = append(apps, a)
		}
	})
	if len(apps) > 6 {
		return false
	}
	var small []*Term
	for _, h := range pc {
		if termSize(h) < 12 && !hasRec(h) {
			small = append(small, h)
		}
	}
	for _, a := range apps {
		b := e.unfold(a)
		if b == nil {
			continue
		}
		for n := 0; n < 3 && b.Op == "ite"; n++ {
			cond := b.Args[0]
			if termSize(cond) > 12 || hasRec(cond) {
				break
			}
			if e.follows(small, c.Not(cond)) {
				b = b.Args[2]
			} else if e.follows(small, cond) {
				b = b.Args[1]
			} else {
				break
			}
		}
		if b.Op == "ite" {
			continue
		}
		if r := c.Subst(g, map[*Term]*Term{a: b}); r.isTrue() || e.reduce(pc, r).isTrue() {
			return true
		}
	}
	return false
}

func (e *Exec) follows(pc []*Term, g *Term) bool {
	if g.isTrue() {
		return true
	}
	if g.isFalse() {
		return false
	}
	if e.nzCache == nil {
		e.nzCache = map[string]bool{}
	}
	q := &Query{c: e.c, assert: append(append([]*Term{}, pc...), e.c.Not(g))}
	k := q.Text(false)
	if v, ok := e.nzCache[k]; ok {
		return v
	}
	r := runSolver(solvers[0], k, 300*time.Millisecond)
	e.nzCache[k] = r.Status == "unsat"
	return e.nzCache[k]
}

// simplest is the goal to ask the solvers about.
// eta opens equalities with a constructed value, and with a sequence given by
// its elements.
func (e *Exec) eta(g *Term) *Term {
	c := e.c
	switch g.Op {
	case "and":
		as := make([]*Term, len(g.Args))
		for i, a := range g.Args {
			as[i] = e.eta(a)
		}
		return c.And(as...)
	case "=":
		for i := 0; i < 2; i++ {
			a, b := g.Args[i], g.Args[1-i]
			if strings.HasPrefix(a.Op, "mk_") && !isCtor(b) && b.Op != "ite" && b.Op != "at" {
				var cs []*Term
				for j := range a.Args {
					cs = append(cs, e.eta(c.Eq(c.Sel(b, j), a.Args[j])))
				}
				return c.And(cs...)
			}
			if a.Op == "comp" && (b.Op != "comp" && b.Op != "ite") {
				bv := c.BVar("eta!k", SInt)
				return c.And(c.Eq(c.SeqLen(a), c.SeqLen(b)), c.Forall(bv, c.Imp(c.And(c.Le(c.Int(0), bv), c.Lt(bv, c.SeqLen(a))), c.Eq(c.SeqAt(a, bv), c.SeqAt(b, bv)))))
			}
		}
	}
	return g
}

func (e *Exec) simplest(pc []*Term, g *Term) *Term {
	g = e.eta(g)
	r := e.reduce(pc, g)
	if !r.isTrue() && e.unfoldTrue(pc, r) {
		return e.c.True()
	}
	if r.isTrue() || termSize(r) < termSize(g) {
		return r
	}
	return e.clearInv(pc, g)
}

func (e *Exec) queryFor(pc []*Term, goal *Term, depth int) string {
	c := e.c
	as := append(append([]*Term{}, pc...), c.Not(goal))
	facts := e.groundFacts(as, depth)
	q := &Query{c: c, assert: append(as, facts...)}
	return q.Text(false)
}

// goalParts splits conjunctions.
func goalParts(g *Term) []*Term {
	if g.Op == "and" {
		var out []*Term
		for _, a := range g.Args {
			out = append(out, goalParts(a)...)
		}
		return out
	}
	return []*Term{g}
}

var houdiniTimeout = 4 * time.Second

// proveAll proves goals under pc; the goals are tried together first.
func (e *Exec) proveAll(pc []*Term, goals []*Term) []proofRes {
	c := e.c
	if debug {
		t0 := time.Now()
		defer func() { fmt.Printf("    proveAll %d goals %.2fs\n", len(goals), time.Since(t0).Seconds()) }()
	}
	out := make([]proofRes, len(goals))
	var open []int
	hyp := map[int]bool{}
	for _, p := range pc {
		hyp[p.id] = true
	}
	for i, g := range goals {
		if !g.isTrue() {
			g = e.simplest(pc, g)
		}
		if g.isTrue() || hyp[g.id] {
			out[i] = proofRes{true, SolveResult{Status: "unsat", Solver: "simplifier"}}
			continue
		}
		goals[i] = g
		open = append(open, i)
	}
	if len(open) == 0 {
		return out
	}
	if len(open) > 1 {
		var gs []*Term
		for _, i := range open {
			gs = append(gs, goals[i])
		}
		r := e.solveInv(e.queryFor(pc, c.And(gs...), recDepth), 1)
		if r.Status == "unsat" {
			for _, i := range open {
				out[i] = proofRes{true, r}
			}
			return out
		}
	}
	texts := make([]string, len(open))
	for j, i := range open {
		texts[j] = e.queryFor(pc, goals[i], recDepth)
	}
	var wg sync.WaitGroup
	for j, i := range open {
		j, i := j, i
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := e.solveInv(texts[j], 0)
			out[i] = proofRes{r.Status == "unsat", r}
		}()
	}
	wg.Wait()
	return out
}

// solveInv is solve for invariant candidates. Most of them are wrong choices of
// the unknowns; the first attempt at a function gives each little time, and the
// function is done again with more when one of its obligations fails.
func (e *Exec) solveInv(text string, group int) SolveResult {
	if !e.fast {
		return solve(text, houdiniTimeout)
	}
	solverSlots <- struct{}{}
	defer func() { <-solverSlots }()
	r := runSolver(solvers[0], text, fastTimeout)
	if r.Status == "unknown" && group == 0 {
		atomic.AddInt64(&e.fastDrops, 1)
	}
	return r
}

var fastTimeout = 1200 * time.Millisecond
