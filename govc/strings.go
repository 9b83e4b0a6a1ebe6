package main

// Strings are an uninterpreted sort with a length, bytes, substrings and
// concatenation; literals are evaluated, the rest is left to the facts.

import (
	"math/big"
	"strconv"
	"strings"
	"unicode/utf8"
)

func (e *Exec) slen(s *Term) *Term           { return e.c.slen(s) }
func (e *Exec) sbyte(s, i *Term) *Term       { return e.c.sbyte(s, i) }
func (e *Exec) ssub(s, lo, hi *Term) *Term   { return e.c.ssub(s, lo, hi) }
func (e *Exec) scat(a, b *Term) *Term        { return e.c.scat(a, b) }
func (e *Exec) runeAt(s, pos *Term) *Term    { return e.c.runeAt(s, pos) }
func (e *Exec) runeWidth(s, pos *Term) *Term { return e.c.runeWidth(s, pos) }

func (c *Ctx) slen(s *Term) *Term {
	switch s.Op {
	case "lit":
		return c.Int(int64(len(s.Str)))
	case "scat":
		var ts []*Term
		for _, a := range s.Args {
			ts = append(ts, c.slen(a))
		}
		return c.Add(ts...)
	case "ssub": // created only within bounds
		return c.Sub(s.Args[2], s.Args[1])
	case "bytestr":
		return c.SeqLen(s.Args[0])
	}
	return c.mk("slen", SInt, s)
}

func (c *Ctx) sbyte(s, i *Term) *Term {
	n, num := i.isInt64()
	switch s.Op {
	case "lit":
		if num && n >= 0 && n < int64(len(s.Str)) {
			return c.Int(int64(s.Str[n]))
		}
	case "ssub":
		return c.sbyte(s.Args[0], c.Add(s.Args[1], i))
	case "bytestr":
		return c.SeqAt(s.Args[0], i)
	case "scat":
		l := c.slen(s.Args[0])
		d := c.Sub(i, l)
		rest := c.scat(s.Args[1:]...)
		if c.knownNonneg(d) {
			return c.sbyte(rest, d)
		}
		if d.isNum() && d.Num.Sign() < 0 || num && s.Args[0].isLit() && n < int64(len(s.Args[0].Str)) {
			return c.sbyte(s.Args[0], i)
		}
	case "ite":
		return c.Ite(s.Args[0], c.sbyte(s.Args[1], i), c.sbyte(s.Args[2], i))
	}
	return c.mk("sbyte", SInt, s, i)
}

func (c *Ctx) ssub(s, lo, hi *Term) *Term {
	l, lok := lo.isInt64()
	h, hok := hi.isInt64()
	if lo == hi {
		return c.Lit("")
	}
	if lok && l == 0 && hi == c.slen(s) {
		return s
	}
	switch s.Op {
	case "lit":
		if lok && hok && 0 <= l && l <= h && h <= int64(len(s.Str)) {
			return c.Lit(s.Str[l:h])
		}
	case "bytestr":
		n, ok := c.SeqLen(s.Args[0]).isInt64()
		if ok && lok && hok && 0 <= l && l <= h && h <= n {
			q := c.Empty(s.Args[0].Sort)
			for i := l; i < h; i++ {
				q = c.Snoc(q, c.SeqAt(s.Args[0], c.Int(i)))
			}
			return c.App("bytestr", SStr, q)
		}
	case "ssub":
		return c.ssub(s.Args[0], c.Add(s.Args[1], lo), c.Add(s.Args[1], hi))
	case "scat":
		// cut whole leading pieces
		p := s.Args[0]
		pl := c.slen(p)
		rest := c.scat(s.Args[1:]...)
		if c.knownNonneg(c.Sub(lo, pl)) {
			return c.ssub(rest, c.Sub(lo, pl), c.Sub(hi, pl))
		}
		if lok && l == 0 && hi == pl {
			return p
		}
		if p.isLit() && lok && 0 <= l && l <= int64(len(p.Str)) && c.knownNonneg(c.Sub(hi, pl)) {
			return c.scat(c.Lit(p.Str[l:]), c.ssub(rest, c.Int(0), c.Sub(hi, pl)))
		}
	case "ite":
		return c.Ite(s.Args[0], c.ssub(s.Args[1], lo, hi), c.ssub(s.Args[2], lo, hi))
	}
	return c.mk("ssub", SStr, s, lo, hi)
}

func (c *Ctx) scat(as ...*Term) *Term {
	var out []*Term
	var add func(a *Term)
	add = func(a *Term) {
		if a.Op == "scat" {
			for _, x := range a.Args {
				add(x)
			}
			return
		}
		if a.isLit() {
			if a.Str == "" {
				return
			}
			if n := len(out); n > 0 && out[n-1].isLit() {
				out[n-1] = c.Lit(out[n-1].Str + a.Str)
				return
			}
		}
		out = append(out, a)
	}
	for _, a := range as {
		add(a)
	}
	switch len(out) {
	case 0:
		return c.Lit("")
	case 1:
		return out[0]
	}
	return c.mk("scat", SStr, out...)
}

func (c *Ctx) runeAt(s, pos *Term) *Term {
	if n, ok := pos.isInt64(); ok && s.isLit() && n >= 0 && n < int64(len(s.Str)) {
		r, _ := utf8.DecodeRuneInString(s.Str[n:])
		return c.Int(int64(r))
	}
	return c.mk("rune", SInt, s, pos)
}

func (c *Ctx) runeWidth(s, pos *Term) *Term {
	if n, ok := pos.isInt64(); ok && s.isLit() && n >= 0 && n < int64(len(s.Str)) {
		_, w := utf8.DecodeRuneInString(s.Str[n:])
		return c.Int(int64(w))
	}
	return c.mk("runew", SInt, s, pos)
}

// foldExtern evaluates the functions of the models on literals.
func foldExtern(c *Ctx, op string, a []*Term) (*Term, bool) {
	allLit := len(a) > 0
	for _, x := range a {
		if !x.isLit() {
			allLit = false
		}
	}
	switch op {
	case "slen":
		return c.slen(a[0]), true
	case "sbyte":
		return c.sbyte(a[0], a[1]), true
	case "ssub":
		return c.ssub(a[0], a[1], a[2]), true
	case "scat":
		return c.scat(a...), true
	case "rune":
		return c.runeAt(a[0], a[1]), true
	case "runew":
		return c.runeWidth(a[0], a[1]), true
	case "strings.TrimSpace", "strings.ToLower", "strings.ToUpper":
		if allLit {
			switch op {
			case "strings.TrimSpace":
				return c.Lit(strings.TrimSpace(a[0].Str)), true
			case "strings.ToLower":
				return c.Lit(strings.ToLower(a[0].Str)), true
			}
			return c.Lit(strings.ToUpper(a[0].Str)), true
		}
		if a[0].Op == op {
			return a[0], true
		}
		if op == "strings.TrimSpace" && a[0].Op == "ite" && (trimmed(a[0].Args[1]) || trimmed(a[0].Args[2])) {
			x, y := c.trimSpace(a[0].Args[1]), c.trimSpace(a[0].Args[2])
			return c.Ite(a[0].Args[0], x, y), true
		}
	case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains":
		if allLit {
			switch op {
			case "strings.HasPrefix":
				return c.Bool(strings.HasPrefix(a[0].Str, a[1].Str)), true
			case "strings.HasSuffix":
				return c.Bool(strings.HasSuffix(a[0].Str, a[1].Str)), true
			}
			return c.Bool(strings.Contains(a[0].Str, a[1].Str)), true
		}
		if a[1].isLit() && a[1].Str == "" {
			return c.True(), true
		}
	case "strings.Index":
		if allLit {
			return c.Int(int64(strings.Index(a[0].Str, a[1].Str))), true
		}
	case "pfok", "pf":
		if allLit {
			f, err := strconv.ParseFloat(a[0].Str, 64)
			if op == "pfok" {
				return c.Bool(err == nil), true
			}
			r := new(big.Rat)
			if err == nil && r.SetFloat64(f) != nil {
				return c.Rat(r, SReal), true
			}
		}
	case "trimPrefix":
		return c.Ite(c.strPred("strings.HasPrefix", a[0], a[1]), c.ssub(a[0], c.slen(a[1]), c.slen(a[0])), a[0]), true
	case "trimSuffix":
		return c.Ite(c.strPred("strings.HasSuffix", a[0], a[1]), c.ssub(a[0], c.Int(0), c.Sub(c.slen(a[0]), c.slen(a[1]))), a[0]), true
	case "math.Sqrt":
		if n, ok := a[0].isInt64(); ok && (n == 0 || n == 1) {
			return a[0], true
		}
	case "math.Sin", "math.Tan":
		if n, ok := a[0].isInt64(); ok && n == 0 {
			return c.Real(0), true
		}
	case "math.Cos":
		if n, ok := a[0].isInt64(); ok && n == 0 {
			return c.Real(1), true
		}
	}
	return nil, false
}

func (c *Ctx) strPred(op string, a ...*Term) *Term {
	if r, ok := foldExtern(c, op, a); ok {
		return r
	}
	return c.mk(op, SBool, a...)
}

func (c *Ctx) strFn(op string, s Sort, a ...*Term) *Term {
	if r, ok := foldExtern(c, op, a); ok {
		return r
	}
	return c.mk(op, s, a...)
}

func (c *Ctx) trimSpace(a *Term) *Term { return c.strFn("strings.TrimSpace", SStr, a) }

func trimmed(t *Term) bool { return t.isLit() || t.Op == "strings.TrimSpace" }
