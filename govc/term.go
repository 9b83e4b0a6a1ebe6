package main

// Hash-consed terms of the verification logic, with simplifying constructors.
// Arithmetic is kept in polynomial normal form (mathematical integers and
// reals), datatype selectors are evaluated on constructors, and sequence
// operations are reduced where the indices allow it.

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

type Sort string

const (
	SBool Sort = "Bool"
	SInt  Sort = "Int"
	SReal Sort = "Real"
	SStr  Sort = "Str"
	SAny  Sort = "Any"
	SRef  Sort = "Int" // references are integers
)

type Term struct {
	Op    string
	Args  []*Term
	Sort  Sort
	Num   *big.Rat // op "num"
	Str   string   // op "lit" (string literal) or op "var" (name)
	id    int
	bound bool // contains bound variables
}

// Ctx owns the terms of one function's verification.
type Ctx struct {
	tab   map[string]*Term
	n     int
	fresh map[string]int
	ts    *TypeSorts

	tTrue, tFalse *Term
	addMemo       map[[2]int]*Term
}

func NewCtx(ts *TypeSorts) *Ctx {
	c := &Ctx{tab: map[string]*Term{}, fresh: map[string]int{}, ts: ts, addMemo: map[[2]int]*Term{}}
	c.tTrue = c.mk("true", SBool)
	c.tFalse = c.mk("false", SBool)
	return c
}

func (c *Ctx) intern(t *Term) *Term {
	var sb strings.Builder
	sb.WriteString(t.Op)
	sb.WriteByte('|')
	sb.WriteString(string(t.Sort))
	switch t.Op {
	case "num":
		sb.WriteString(t.Num.RatString())
	case "lit", "var", "bvar":
		sb.WriteString(t.Str)
	}
	for _, a := range t.Args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.id))
	}
	k := sb.String()
	if o, ok := c.tab[k]; ok {
		return o
	}
	c.n++
	t.id = c.n
	if t.Op == "bvar" {
		t.bound = true
	}
	for _, a := range t.Args {
		if a.bound {
			t.bound = true
		}
	}
	if t.Op == "forall" || binders[t.Op] != "" {
		t.bound = freeBound(t)
	}
	c.tab[k] = t
	return t
}

// binders are the operators that bind a variable of a fixed name in their
// last argument.
var binders = map[string]string{"comp": "seq!i", "fieldsfunc": "rune!p"}

// freeBound reports whether a bound variable occurs free in t.
func freeBound(t *Term) bool {
	names := map[string]bool{}
	var walk func(t *Term, b map[string]bool) bool
	walk = func(t *Term, b map[string]bool) bool {
		if !t.bound && t.Op != "forall" && binders[t.Op] == "" {
			return false
		}
		if t.Op == "bvar" {
			return !b[t.Str]
		}
		if t.Op == "forall" {
			nb := map[string]bool{}
			for k := range b {
				nb[k] = true
			}
			nb[t.Args[0].Str] = true
			return walk(t.Args[1], nb)
		}
		if v := binders[t.Op]; v != "" {
			nb := map[string]bool{v: true}
			for k := range b {
				nb[k] = true
			}
			if len(t.Args) > 1 && walk(t.Args[0], b) {
				return true
			}
			return walk(t.Args[len(t.Args)-1], nb)
		}
		for _, a := range t.Args {
			if walk(a, b) {
				return true
			}
		}
		return false
	}
	return walk(t, names)
}

func (c *Ctx) mk(op string, s Sort, args ...*Term) *Term {
	return c.intern(&Term{Op: op, Args: args, Sort: s})
}

func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.tTrue
	}
	return c.tFalse
}
func (c *Ctx) True() *Term  { return c.tTrue }
func (c *Ctx) False() *Term { return c.tFalse }
func (c *Ctx) Rat(r *big.Rat, s Sort) *Term {
	return c.intern(&Term{Op: "num", Num: r, Sort: s})
}
func (c *Ctx) Int(i int64) *Term { return c.Rat(new(big.Rat).SetInt64(i), SInt) }
func (c *Ctx) Real(f int64) *Term {
	return c.Rat(new(big.Rat).SetInt64(f), SReal)
}
func (c *Ctx) Lit(s string) *Term { return c.intern(&Term{Op: "lit", Str: s, Sort: SStr}) }
func (c *Ctx) Var(name string, s Sort) *Term {
	return c.intern(&Term{Op: "var", Str: name, Sort: s})
}
func (c *Ctx) BVar(name string, s Sort) *Term {
	return c.intern(&Term{Op: "bvar", Str: name, Sort: s})
}
func (c *Ctx) Fresh(hint string, s Sort) *Term {
	hint = sanitize(hint)
	c.fresh[hint]++
	return c.Var(fmt.Sprintf("%s!%d", hint, c.fresh[hint]), s)
}

func sanitize(s string) string {
	var sb strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' {
			sb.WriteRune(r)
		} else {
			sb.WriteByte('_')
		}
	}
	return sb.String()
}

func (t *Term) isNum() bool { return t.Op == "num" }
func (t *Term) isLit() bool { return t.Op == "lit" }
func (t *Term) isInt64() (int64, bool) {
	if t.Op == "num" && t.Num.IsInt() && t.Num.Num().IsInt64() {
		return t.Num.Num().Int64(), true
	}
	return 0, false
}
func (t *Term) isTrue() bool  { return t.Op == "true" }
func (t *Term) isFalse() bool { return t.Op == "false" }

// App applies an uninterpreted function.
func (c *Ctx) App(fn string, s Sort, args ...*Term) *Term {
	return c.mk(fn, s, args...)
}

// ---- booleans ----

func (c *Ctx) Not(a *Term) *Term {
	switch a.Op {
	case "true":
		return c.tFalse
	case "false":
		return c.tTrue
	case "not":
		return a.Args[0]
	case "<":
		return c.Le(a.Args[1], a.Args[0])
	case "<=":
		return c.Lt(a.Args[1], a.Args[0])
	}
	return c.mk("not", SBool, a)
}

func (c *Ctx) And(as ...*Term) *Term {
	seen := map[int]bool{}
	var out []*Term
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a.isFalse() {
			return false
		}
		if a.isTrue() || seen[a.id] {
			return true
		}
		if a.Op == "and" {
			for _, x := range a.Args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[c.Not(a).id] {
			return false
		}
		seen[a.id] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return c.tFalse
		}
	}
	switch len(out) {
	case 0:
		return c.tTrue
	case 1:
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return c.mk("and", SBool, out...)
}

func (c *Ctx) Or(as ...*Term) *Term {
	var ns []*Term
	for _, a := range as {
		ns = append(ns, c.Not(a))
	}
	n := c.And(ns...)
	if n.Op == "and" {
		var os []*Term
		for _, a := range n.Args {
			os = append(os, c.Not(a))
		}
		sort.Slice(os, func(i, j int) bool { return os[i].id < os[j].id })
		return c.mk("or", SBool, os...)
	}
	return c.Not(n)
}

func (c *Ctx) Imp(a, b *Term) *Term { return c.Or(c.Not(a), b) }

func (c *Ctx) Ite(cond, a, b *Term) *Term {
	if cond.isTrue() || a == b {
		return a
	}
	if cond.isFalse() {
		return b
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("ite sorts %s %s: %s %s", a.Sort, b.Sort, a, b))
	}
	if a.Sort == SBool {
		if a.isTrue() && b.isFalse() {
			return cond
		}
		if a.isFalse() && b.isTrue() {
			return c.Not(cond)
		}
		if a.isTrue() {
			return c.Or(cond, b)
		}
		if a.isFalse() {
			return c.And(c.Not(cond), b)
		}
		if b.isTrue() {
			return c.Or(c.Not(cond), a)
		}
		if b.isFalse() {
			return c.And(cond, a)
		}
	}
	if cond.Op == "not" {
		return c.Ite(cond.Args[0], b, a)
	}
	if a.Op == "ite" && a.Args[0] == cond {
		a = a.Args[1]
	}
	if b.Op == "ite" && b.Args[0] == cond {
		b = b.Args[2]
	}
	if a == b {
		return a
	}
	if strings.HasPrefix(a.Op, "mk_") && a.Op == b.Op {
		args := make([]*Term, len(a.Args))
		for i := range args {
			args[i] = c.Ite(cond, a.Args[i], b.Args[i])
		}
		return c.mk(a.Op, a.Sort, args...)
	}
	return c.mk("ite", a.Sort, cond, a, b)
}

func isCtor(t *Term) bool {
	return strings.HasPrefix(t.Op, "mk_") || strings.HasPrefix(t.Op, "box_") || t.Op == "nil_any"
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.tTrue
	}
	if a.Sort != b.Sort {
		panic(sortErr(fmt.Sprintf("eq of %s (%s) and %s (%s)", a, a.Sort, b, b.Sort)))
	}
	if a.isLit() && b.isLit() {
		return c.tFalse
	}
	if a.Sort == SBool {
		if a.isTrue() {
			return b
		}
		if b.isTrue() {
			return a
		}
		if a.isFalse() {
			return c.Not(b)
		}
		if b.isFalse() {
			return c.Not(a)
		}
		if c.Not(a) == b {
			return c.tFalse
		}
	}
	if a.Sort == SInt || a.Sort == SReal {
		if a.isNum() && b.isNum() {
			return c.tFalse
		}
		d := c.Sub(a, b)
		if d.isNum() {
			return c.Bool(d.Num.Sign() == 0)
		}
		// canonical scale: leading coefficient positive
		p := c.toPoly(d)
		lead := p.lead()
		if lead != nil && lead.Sign() < 0 {
			a, b = b, a
		}
	}
	if isCtor(a) && isCtor(b) {
		if a.Op != b.Op {
			return c.tFalse
		}
		var cs []*Term
		for i := range a.Args {
			cs = append(cs, c.Eq(a.Args[i], b.Args[i]))
		}
		return c.And(cs...)
	}
	if strings.HasPrefix(string(a.Sort), "Seq_") {
		if x, ok := c.seqNeq(a, b); ok && x {
			return c.tFalse
		}
		if a.Op == "snoc" && b.Op == "snoc" {
			return c.And(c.Eq(a.Args[0], b.Args[0]), c.Eq(a.Args[1], b.Args[1]))
		}
	}
	if a.Op == "ite" && (b.isNum() || b.isLit()) {
		if (a.Args[1].isNum() || a.Args[1].isLit()) && (a.Args[2].isNum() || a.Args[2].isLit()) {
			return c.Ite(a.Args[0], c.Eq(a.Args[1], b), c.Eq(a.Args[2], b))
		}
	}
	if b.Op == "ite" && (a.isNum() || a.isLit()) {
		return c.Eq(b, a)
	}
	// nil test on ite of constructors
	if b.Op == "nil_any" && a.Op == "ite" {
		return c.Ite(a.Args[0], c.Eq(a.Args[1], b), c.Eq(a.Args[2], b))
	}
	if a.Op == "nil_any" && b.Op == "ite" {
		return c.Eq(b, a)
	}
	if a.Sort != SInt && a.Sort != SReal && a.id > b.id {
		a, b = b, a
	}
	return c.mk("=", SBool, a, b)
}

func (c *Ctx) seqNeq(a, b *Term) (bool, bool) {
	d := c.Sub(c.SeqLen(a), c.SeqLen(b))
	if d.isNum() {
		return d.Num.Sign() != 0, true
	}
	return false, false
}

func (c *Ctx) Lt(a, b *Term) *Term {
	d := c.Sub(b, a)
	if d.isNum() {
		return c.Bool(d.Num.Sign() > 0)
	}
	if a.Sort == SInt && c.knownNonneg(c.Sub(a, b)) {
		return c.tFalse
	}
	return c.mk("<", SBool, a, b)
}

func (c *Ctx) Le(a, b *Term) *Term {
	d := c.Sub(b, a)
	if d.isNum() {
		return c.Bool(d.Num.Sign() >= 0)
	}
	if a.Sort == SInt && c.knownNonneg(d) {
		return c.tTrue
	}
	return c.mk("<=", SBool, a, b)
}

// knownNonneg is a cheap syntactic check: sums of nonnegative lengths and
// nonnegative constants.
func (c *Ctx) knownNonneg(t *Term) bool {
	p := c.toPoly(t)
	for _, m := range p.ms {
		if m.c.Sign() < 0 {
			return false
		}
		for _, a := range m.atoms {
			if a.Op != "len" && a.Op != "slen" && a.Op != "mod" && !(a.Op == "div" && c.knownNonneg(a.Args[0])) {
				return false
			}
		}
	}
	return true
}

// ---- arithmetic ----

type mono struct {
	c     *big.Rat
	atoms []*Term // sorted by id
}
type poly struct{ ms map[string]*mono }

func monoKey(atoms []*Term) string {
	var sb strings.Builder
	for _, a := range atoms {
		sb.WriteString(strconv.Itoa(a.id))
		sb.WriteByte('.')
	}
	return sb.String()
}

func (p *poly) add(c *big.Rat, atoms []*Term) {
	k := monoKey(atoms)
	if m, ok := p.ms[k]; ok {
		m.c = new(big.Rat).Add(m.c, c)
		if m.c.Sign() == 0 {
			delete(p.ms, k)
		}
		return
	}
	if c.Sign() != 0 {
		p.ms[k] = &mono{new(big.Rat).Set(c), atoms}
	}
}

func (p *poly) lead() *big.Rat {
	var best *mono
	for _, m := range p.ms {
		if len(m.atoms) == 0 {
			continue
		}
		if best == nil || lessAtoms(m.atoms, best.atoms) {
			best = m
		}
	}
	if best == nil {
		return nil
	}
	return best.c
}

func lessAtoms(a, b []*Term) bool {
	if len(a) != len(b) {
		return len(a) < len(b)
	}
	for i := range a {
		if a[i].id != b[i].id {
			return a[i].id < b[i].id
		}
	}
	return false
}

func (c *Ctx) toPoly(t *Term) *poly {
	p := &poly{map[string]*mono{}}
	one := big.NewRat(1, 1)
	mon := func(t *Term) {
		switch t.Op {
		case "num":
			p.add(t.Num, nil)
		case "*":
			if t.Args[0].isNum() {
				p.add(t.Args[0].Num, t.Args[1:])
			} else {
				p.add(one, t.Args)
			}
		default:
			p.add(one, []*Term{t})
		}
	}
	if t.Op == "+" {
		for _, a := range t.Args {
			mon(a)
		}
	} else {
		mon(t)
	}
	return p
}

func (c *Ctx) fromPoly(p *poly, s Sort) *Term {
	var ms []*mono
	for _, m := range p.ms {
		ms = append(ms, m)
	}
	if len(ms) == 0 {
		return c.Rat(new(big.Rat), s)
	}
	sort.Slice(ms, func(i, j int) bool { return lessAtoms(ms[i].atoms, ms[j].atoms) })
	var ts []*Term
	for _, m := range ms {
		if len(m.atoms) == 0 {
			ts = append(ts, c.Rat(m.c, s))
			continue
		}
		if m.c.Cmp(big.NewRat(1, 1)) == 0 {
			if len(m.atoms) == 1 {
				ts = append(ts, m.atoms[0])
			} else {
				ts = append(ts, c.mk("*", s, m.atoms...))
			}
			continue
		}
		ts = append(ts, c.mk("*", s, append([]*Term{c.Rat(m.c, s)}, m.atoms...)...))
	}
	if len(ts) == 1 {
		return ts[0]
	}
	return c.mk("+", s, ts...)
}

func (c *Ctx) Add(as ...*Term) *Term {
	s := as[0].Sort
	p := &poly{map[string]*mono{}}
	for _, a := range as {
		if a.Sort != s {
			panic(fmt.Sprintf("add of %s and %s: %s %s", s, a.Sort, as[0], a))
		}
		for _, m := range c.toPoly(a).ms {
			p.add(m.c, m.atoms)
		}
	}
	return c.fromPoly(p, s)
}

func (c *Ctx) Neg(a *Term) *Term { return c.Mul(c.Rat(big.NewRat(-1, 1), a.Sort), a) }
func (c *Ctx) Sub(a, b *Term) *Term {
	if a == b {
		return c.Rat(new(big.Rat), a.Sort)
	}
	return c.Add(a, c.Neg(b))
}

const maxMonos = 400

func (c *Ctx) Mul(a, b *Term) *Term {
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("mul of %s and %s", a.Sort, b.Sort))
	}
	pa, pb := c.toPoly(a), c.toPoly(b)
	if len(pa.ms)*len(pb.ms) > maxMonos {
		// too large to expand: hide the larger factor behind an opaque node
		if len(pa.ms) > len(pb.ms) {
			pa = &poly{map[string]*mono{"": {big.NewRat(1, 1), []*Term{c.mk("paren", a.Sort, a)}}}}
		} else {
			pb = &poly{map[string]*mono{"": {big.NewRat(1, 1), []*Term{c.mk("paren", b.Sort, b)}}}}
		}
	}
	p := &poly{map[string]*mono{}}
	for _, x := range pa.ms {
		for _, y := range pb.ms {
			atoms := append(append([]*Term{}, x.atoms...), y.atoms...)
			sort.Slice(atoms, func(i, j int) bool { return atoms[i].id < atoms[j].id })
			p.add(new(big.Rat).Mul(x.c, y.c), atoms)
		}
	}
	return c.fromPoly(p, a.Sort)
}

// RDiv is real division.
func (c *Ctx) RDiv(a, b *Term) *Term {
	if b.isNum() && b.Num.Sign() != 0 {
		return c.Mul(c.Rat(new(big.Rat).Inv(b.Num), SReal), a)
	}
	// pull the scalar content out of the denominator so that equal
	// denominators up to a factor share an inverse
	p := c.toPoly(b)
	if l := p.lead(); l != nil && len(p.ms) > 0 {
		f := new(big.Rat).Set(l)
		if f.Cmp(big.NewRat(1, 1)) != 0 {
			return c.RDiv(c.Mul(c.Rat(new(big.Rat).Inv(f), SReal), a), c.Mul(c.Rat(new(big.Rat).Inv(f), SReal), b))
		}
	}
	if len(p.ms) == 1 {
		for _, m := range p.ms {
			if len(m.atoms) > 1 {
				r := a
				for _, x := range m.atoms {
					r = c.RDiv(r, x)
				}
				return r
			}
		}
	}
	// a factor of every term of the denominator comes out
	if len(p.ms) > 1 {
		var first *mono
		for _, m := range p.ms {
			if first == nil || len(m.atoms) < len(first.atoms) {
				first = m
			}
		}
		for _, x := range first.atoms {
			common := true
			q := &poly{map[string]*mono{}}
			for _, m := range p.ms {
				k := -1
				for i, y := range m.atoms {
					if x == y {
						k = i
					}
				}
				if k < 0 {
					common = false
					break
				}
				q.add(m.c, append(append([]*Term{}, m.atoms[:k]...), m.atoms[k+1:]...))
			}
			if common {
				return c.RDiv(c.RDiv(a, x), c.fromPoly(q, SReal))
			}
		}
	}
	if b.Op == "inv" {
		return c.Mul(a, b.Args[0]) // 1/0 stands for 0
	}
	return c.Mul(a, c.mk("inv", SReal, b))
}

// IDiv and IMod are Go's truncated integer operations.
func (c *Ctx) IDiv(a, b *Term) *Term {
	if a.isNum() && b.isNum() && b.Num.Sign() != 0 {
		q := new(big.Int).Quo(a.Num.Num(), b.Num.Num())
		return c.Rat(new(big.Rat).SetInt(q), SInt)
	}
	if n, ok := b.isInt64(); ok && n == 1 {
		return a
	}
	if c.knownNonneg(a) && b.isNum() && b.Num.Sign() > 0 {
		return c.mk("div", SInt, a, b)
	}
	if b.isNum() && b.Num.Sign() > 0 {
		return c.Ite(c.Le(c.Int(0), a), c.mk("div", SInt, a, b), c.Neg(c.mk("div", SInt, c.Neg(a), b)))
	}
	return c.mk("godiv", SInt, a, b)
}

func (c *Ctx) IMod(a, b *Term) *Term {
	if a.isNum() && b.isNum() && b.Num.Sign() != 0 {
		q := new(big.Int).Rem(a.Num.Num(), b.Num.Num())
		return c.Rat(new(big.Rat).SetInt(q), SInt)
	}
	if n, ok := b.isInt64(); ok && n == 1 {
		return c.Int(0)
	}
	if c.knownNonneg(a) && b.isNum() && b.Num.Sign() > 0 {
		return c.mk("mod", SInt, a, b)
	}
	if b.isNum() && b.Num.Sign() > 0 {
		return c.Ite(c.Le(c.Int(0), a), c.mk("mod", SInt, a, b), c.Neg(c.mk("mod", SInt, c.Neg(a), b)))
	}
	return c.mk("gomod", SInt, a, b)
}

// EDiv, EMod are SMT-LIB's integer operations (flooring for positive divisors).
func (c *Ctx) EDiv(a *Term, n int64) *Term {
	if v, ok := a.isInt64(); ok {
		q := v / n
		if v%n < 0 {
			q--
		}
		return c.Int(q)
	}
	return c.mk("div", SInt, a, c.Int(n))
}
func (c *Ctx) EMod(a *Term, n int64) *Term {
	if v, ok := a.isInt64(); ok {
		return c.Int(((v % n) + n) % n)
	}
	if a.Op == "mod" {
		if m, ok := a.Args[1].isInt64(); ok && m <= n {
			return a
		}
	}
	return c.mk("mod", SInt, a, c.Int(n))
}

// ToReal converts an integer term.
func (c *Ctx) ToReal(a *Term) *Term {
	if a.Sort == SReal {
		return a
	}
	p := c.toPoly(a)
	q := &poly{map[string]*mono{}}
	for _, m := range p.ms {
		var atoms []*Term
		for _, x := range m.atoms {
			atoms = append(atoms, c.mk("to_real", SReal, x))
		}
		sort.Slice(atoms, func(i, j int) bool { return atoms[i].id < atoms[j].id })
		q.add(m.c, atoms)
	}
	return c.fromPoly(q, SReal)
}

// Trunc is the conversion of a real to an integer, rounding toward zero.
func (c *Ctx) Trunc(a *Term) *Term {
	if a.Op == "to_real" {
		return a.Args[0]
	}
	if a.isNum() {
		q := new(big.Int).Quo(a.Num.Num(), a.Num.Denom())
		return c.Rat(new(big.Rat).SetInt(q), SInt)
	}
	// sums of converted integers with integer coefficients are integers
	p := c.toPoly(a)
	ok := true
	q := &poly{map[string]*mono{}}
	for _, m := range p.ms {
		if !m.c.IsInt() {
			ok = false
			break
		}
		var atoms []*Term
		for _, x := range m.atoms {
			if x.Op != "to_real" {
				ok = false
				break
			}
			atoms = append(atoms, x.Args[0])
		}
		sort.Slice(atoms, func(i, j int) bool { return atoms[i].id < atoms[j].id })
		q.add(m.c, atoms)
	}
	if ok {
		return c.fromPoly(q, SInt)
	}
	return c.mk("trunc", SInt, a)
}

// ---- datatypes ----

func (c *Ctx) Mk(s Sort, args ...*Term) *Term {
	// eta: mk(sel0 x, sel1 x, ...) = x
	if len(args) > 0 && len(args[0].Args) == 1 && args[0].Op == c.ts.selName(s, 0) {
		x := args[0].Args[0]
		same := true
		for i, a := range args {
			if a.Op != c.ts.selName(s, i) || len(a.Args) != 1 || a.Args[0] != x {
				same = false
				break
			}
		}
		if same {
			return x
		}
	}
	return c.mk("mk_"+string(s), s, args...)
}

func (c *Ctx) Sel(t *Term, i int) *Term {
	if t.Op == "mk_"+string(t.Sort) {
		return t.Args[i]
	}
	if t.Op == "ite" && (isCtor(t.Args[1]) || isCtor(t.Args[2])) {
		return c.Ite(t.Args[0], c.Sel(t.Args[1], i), c.Sel(t.Args[2], i))
	}
	return c.mk(c.ts.selName(t.Sort, i), c.ts.fieldSort(t.Sort, i), t)
}

// ---- sequences ----

func seqSort(elem Sort) Sort      { return Sort("Seq_" + string(elem)) }
func elemSort(s Sort) Sort        { return Sort(strings.TrimPrefix(string(s), "Seq_")) }
func isSeq(s Sort) bool           { return strings.HasPrefix(string(s), "Seq_") }
func (c *Ctx) Empty(s Sort) *Term { return c.mk("empty", s) }

func (c *Ctx) SeqLen(s *Term) *Term {
	switch s.Op {
	case "empty":
		return c.Int(0)
	case "snoc":
		return c.Add(c.SeqLen(s.Args[0]), c.Int(1))
	case "upd":
		return c.SeqLen(s.Args[0])
	case "sub": // created only with valid bounds
		return c.Sub(s.Args[2], s.Args[1])
	case "cat":
		return c.Add(c.SeqLen(s.Args[0]), c.SeqLen(s.Args[1]))
	case "rep":
		return s.Args[0]
	case "comp":
		if c.knownNonneg(s.Args[0]) {
			return s.Args[0]
		}
	case "ite":
		a, b := c.SeqLen(s.Args[1]), c.SeqLen(s.Args[2])
		if a == b {
			return a
		}
		if a.isNum() || b.isNum() {
			return c.Ite(s.Args[0], a, b)
		}
	}
	return c.mk("len", SInt, s)
}

func (c *Ctx) Snoc(s, x *Term) *Term { return c.mk("snoc", s.Sort, s, x) }

func (c *Ctx) SeqAt(s, i *Term) *Term {
	es := elemSort(s.Sort)
	switch s.Op {
	case "snoc":
		d := c.Sub(i, c.SeqLen(s.Args[0]))
		if d.isNum() {
			if d.Num.Sign() == 0 {
				return s.Args[1]
			}
			return c.SeqAt(s.Args[0], i)
		}
	case "upd":
		d := c.Sub(i, s.Args[1])
		if d.isNum() {
			if d.Num.Sign() == 0 {
				return s.Args[2]
			}
			return c.SeqAt(s.Args[0], i)
		}
	case "sub":
		return c.SeqAt(s.Args[0], c.Add(i, s.Args[1]))
	case "rep":
		return s.Args[1]
	case "comp":
		if i.Op == "bvar" && i.Str == "seq!i" {
			break
		}
		return c.Subst(s.Args[1], map[*Term]*Term{c.BVar("seq!i", SInt): i})
	case "cat":
		la := c.SeqLen(s.Args[0])
		d := c.Sub(i, la)
		if c.knownNonneg(d) {
			return c.SeqAt(s.Args[1], d)
		}
		if d.isNum() && d.Num.Sign() < 0 {
			return c.SeqAt(s.Args[0], i)
		}
		if i.isNum() && c.knownNonneg(c.Sub(la, c.Add(i, c.Int(1)))) {
			return c.SeqAt(s.Args[0], i)
		}
	case "ite":
		return c.Ite(s.Args[0], c.SeqAt(s.Args[1], i), c.SeqAt(s.Args[2], i))
	}
	return c.mk("at", es, s, i)
}

func (c *Ctx) SeqUpd(s, i, x *Term) *Term {
	if s.Op == "upd" {
		d := c.Sub(i, s.Args[1])
		if d.isNum() && d.Num.Sign() == 0 {
			return c.SeqUpd(s.Args[0], i, x)
		}
	}
	if s.Op == "snoc" {
		d := c.Sub(i, c.SeqLen(s.Args[0]))
		if d.isNum() {
			if d.Num.Sign() == 0 {
				return c.Snoc(s.Args[0], x)
			}
			return c.Snoc(c.SeqUpd(s.Args[0], i, x), s.Args[1])
		}
	}
	if s.Op == "rep" && s.Args[0].isNum() {
		if n, ok := s.Args[0].isInt64(); ok && n <= 64 {
			r := c.Empty(s.Sort)
			for k := int64(0); k < n; k++ {
				r = c.Snoc(r, s.Args[1])
			}
			if i.isNum() {
				return c.SeqUpd(r, i, x)
			}
		}
	}
	return c.mk("upd", s.Sort, s, i, x)
}

// SeqSub is s[i:j]; callers guarantee 0 <= i <= j <= len(s) (as an obligation).
func (c *Ctx) SeqSub(s, i, j *Term) *Term {
	if i == j {
		return c.Empty(s.Sort)
	}
	if v, ok := i.isInt64(); ok && v == 0 && c.SeqLen(s) == j {
		return s
	}
	switch s.Op {
	case "sub":
		return c.SeqSub(s.Args[0], c.Add(s.Args[1], i), c.Add(s.Args[1], j))
	case "snoc":
		l := c.SeqLen(s.Args[0])
		d := c.Sub(l, j)
		if d.isNum() && d.Num.Sign() >= 0 || c.knownNonneg(d) {
			return c.SeqSub(s.Args[0], i, j)
		}
		if j == c.SeqLen(s) {
			d := c.Sub(l, i)
			if d.isNum() && d.Num.Sign() >= 0 || c.knownNonneg(d) {
				return c.Snoc(c.SeqSub(s.Args[0], i, l), s.Args[1])
			}
		}
	case "cat":
		l := c.SeqLen(s.Args[0])
		if v, ok := i.isInt64(); ok && v == 0 && j == l {
			return s.Args[0]
		}
		if i == l && j == c.SeqLen(s) {
			return s.Args[1]
		}
	}
	return c.mk("sub", s.Sort, s, i, j)
}

func (c *Ctx) SeqCat(a, b *Term) *Term {
	if a.Op == "empty" {
		return b
	}
	switch b.Op {
	case "empty":
		return a
	case "snoc":
		return c.Snoc(c.SeqCat(a, b.Args[0]), b.Args[1])
	case "cat":
		return c.SeqCat(c.SeqCat(a, b.Args[0]), b.Args[1])
	}
	return c.mk("cat", a.Sort, a, b)
}

func (c *Ctx) Rep(s Sort, n, x *Term) *Term {
	if v, ok := n.isInt64(); ok && v >= 0 && v <= 64 {
		r := c.Empty(s)
		for k := int64(0); k < v; k++ {
			r = c.Snoc(r, x)
		}
		return r
	}
	return c.mk("rep", s, n, x)
}

// ---- arrays (maps) ----

func arrSort(k, v Sort) Sort { return Sort("(Array " + string(k) + " " + string(v) + ")") }

func (c *Ctx) Select(a, k *Term, vs Sort) *Term {
	switch a.Op {
	case "store":
		e := c.Eq(a.Args[1], k)
		if e.isTrue() {
			return a.Args[2]
		}
		if e.isFalse() {
			return c.Select(a.Args[0], k, vs)
		}
	case "constarr":
		return a.Args[0]
	}
	return c.mk("select", vs, a, k)
}

func (c *Ctx) Store(a, k, v *Term) *Term {
	if a.Op == "store" && a.Args[1] == k {
		return c.Store(a.Args[0], k, v)
	}
	return c.mk("store", a.Sort, a, k, v)
}

// ---- quantifiers ----

func (c *Ctx) Forall(v *Term, body *Term) *Term {
	if body.isTrue() {
		return body
	}
	return c.mk("forall", SBool, v, body)
}

// ---- substitution ----

// Subst rebuilds t with the given replacements.
func (c *Ctx) Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var walk func(t *Term) *Term
	walk = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			args[i] = walk(a)
			if args[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = c.Rebuild(t, args)
		}
		memo[t] = r
		return r
	}
	return walk(t)
}

// Rebuild applies the smart constructor of t to new arguments.
func (c *Ctx) Rebuild(t *Term, a []*Term) *Term {
	switch t.Op {
	case "not":
		return c.Not(a[0])
	case "and":
		return c.And(a...)
	case "or":
		return c.Or(a...)
	case "ite":
		return c.Ite(a[0], a[1], a[2])
	case "=":
		return c.Eq(a[0], a[1])
	case "<":
		return c.Lt(a[0], a[1])
	case "<=":
		return c.Le(a[0], a[1])
	case "+":
		return c.Add(a...)
	case "*":
		r := a[0]
		for _, x := range a[1:] {
			r = c.Mul(r, x)
		}
		return r
	case "paren":
		return c.mk("paren", t.Sort, a[0])
	case "inv":
		return c.RDiv(c.Real(1), a[0])
	case "to_real":
		return c.ToReal(a[0])
	case "trunc":
		return c.Trunc(a[0])
	case "len":
		return c.SeqLen(a[0])
	case "at":
		return c.SeqAt(a[0], a[1])
	case "upd":
		return c.SeqUpd(a[0], a[1], a[2])
	case "sub":
		return c.SeqSub(a[0], a[1], a[2])
	case "cat":
		return c.SeqCat(a[0], a[1])
	case "rep":
		return c.Rep(t.Sort, a[0], a[1])
	case "select":
		return c.Select(a[0], a[1], t.Sort)
	case "store":
		return c.Store(a[0], a[1], a[2])
	case "forall":
		return c.Forall(a[0], a[1])
	case "div":
		if n, ok := a[1].isInt64(); ok && n > 0 {
			return c.EDiv(a[0], n)
		}
	case "mod":
		if n, ok := a[1].isInt64(); ok && n > 0 {
			return c.EMod(a[0], n)
		}
	}
	if strings.HasPrefix(t.Op, "mk_") {
		return c.Mk(t.Sort, a...)
	}
	if len(a) == 1 {
		if i, ok := c.ts.selIndex(t.Op, a[0].Sort); ok {
			return c.Sel(a[0], i)
		}
		if strings.HasPrefix(t.Op, "unbox_") {
			return c.Unbox(a[0], strings.TrimPrefix(t.Op, "unbox_"), t.Sort)
		}
		if strings.HasPrefix(t.Op, "is_") {
			return c.IsBox(a[0], strings.TrimPrefix(t.Op, "is_"))
		}
	}
	if f, ok := foldExtern(c, t.Op, a); ok {
		return f
	}
	return c.mk(t.Op, t.Sort, a...)
}

// ---- interface boxes ----

func (c *Ctx) NilAny() *Term { return c.mk("nil_any", SAny) }
func (c *Ctx) Box(tag string, payload *Term) *Term {
	if payload == nil {
		return c.mk("box_"+tag, SAny)
	}
	if payload.Op == "unbox_"+tag {
		// box(unbox(x)) = x only under is(x); keep
	}
	return c.mk("box_"+tag, SAny, payload)
}
func (c *Ctx) IsBox(a *Term, tag string) *Term {
	if isCtor(a) {
		return c.Bool(a.Op == "box_"+tag)
	}
	if a.Op == "ite" && (isCtor(a.Args[1]) || isCtor(a.Args[2])) {
		return c.Ite(a.Args[0], c.IsBox(a.Args[1], tag), c.IsBox(a.Args[2], tag))
	}
	return c.mk("is_"+tag, SBool, a)
}
func (c *Ctx) Unbox(a *Term, tag string, s Sort) *Term {
	if a.Op == "box_"+tag {
		return a.Args[0]
	}
	if a.Op == "ite" {
		if a.Args[1].Op == "box_"+tag && a.Args[2].Op == "box_"+tag {
			return c.Ite(a.Args[0], a.Args[1].Args[0], a.Args[2].Args[0])
		}
	}
	return c.mk("unbox_"+tag, s, a)
}

// ---- printing (debugging) ----

func (t *Term) String() string {
	switch t.Op {
	case "num":
		return t.Num.RatString()
	case "lit":
		return strconv.Quote(t.Str)
	case "var", "bvar":
		return t.Str
	}
	if len(t.Args) == 0 {
		return t.Op
	}
	var sb strings.Builder
	sb.WriteString("(" + t.Op)
	for _, a := range t.Args {
		sb.WriteString(" " + a.String())
		if sb.Len() > 4000 {
			sb.WriteString(" ...")
			break
		}
	}
	sb.WriteString(")")
	return sb.String()
}

type sortErr string
