package main

// Models of library functions. They are trusted: the evidence lists every
// one that a verified function uses.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type CallCtx struct {
	fr   *Frame
	in   *ssa.Call
	fn   *ssa.Function
	args []Val
	st   *State
	k    Cont
}

type extern func(e *Exec, cc *CallCtx)

func (cc *CallCtx) t(i int) *Term {
	t, ok := cc.args[i].(*Term)
	if !ok {
		unsup("argument %d of a library call is %T", i, cc.args[i])
	}
	return t
}

func (cc *CallCtx) ret(vs ...Val) { cc.k(cc.st, vs) }

func (cc *CallCtx) resType(i int) types.Type {
	if cc.fn != nil {
		return cc.fn.Signature.Results().At(i).Type()
	}
	return cc.in.Call.Signature().Results().At(i).Type()
}

type pureFn struct {
	real bool
	app  func(e *Exec, ts []*Term) *Term
	typ  func(e *Exec) types.Type
}

func uf(name string, s Sort) func(e *Exec, ts []*Term) *Term {
	return func(e *Exec, ts []*Term) *Term { return e.c.strFn(name, s, ts...) }
}

func tf(t types.Type) func(e *Exec) types.Type { return func(*Exec) types.Type { return t } }

var tStrs = types.NewSlice(types.Typ[types.String])

// pureFns are the functions of the models by the name the specifications use.
var pureFns = map[string]pureFn{}

func mathAbs(e *Exec, ts []*Term) *Term {
	return e.c.Ite(e.c.Le(e.c.Real(0), ts[0]), ts[0], e.c.Neg(ts[0]))
}

func trimPrefix(e *Exec, ts []*Term) *Term { r, _ := foldExtern(e.c, "trimPrefix", ts); return r }
func trimSuffix(e *Exec, ts []*Term) *Term { r, _ := foldExtern(e.c, "trimSuffix", ts); return r }

func splitFn(e *Exec, ts []*Term) *Term {
	if ts[0].isLit() && ts[1].isLit() && ts[1].Str != "" {
		s := e.c.Empty(seqSort(SStr))
		for _, p := range strings.Split(ts[0].Str, ts[1].Str) {
			s = e.c.Snoc(s, e.c.Lit(p))
		}
		return s
	}
	return e.c.App("strings.Split", seqSort(SStr), ts...)
}

func cutFn(e *Exec, ts []*Term) (a, b, ok *Term) {
	c := e.c
	i := c.strFn("strings.Index", SInt, ts[0], ts[1])
	found := c.Le(c.Int(0), i)
	return c.Ite(found, c.ssub(ts[0], c.Int(0), i), ts[0]), c.Ite(found, c.ssub(ts[0], c.Add(i, c.slen(ts[1])), c.slen(ts[0])), c.Lit("")), found
}

func init() {
	for _, n := range []string{"Sin", "Cos", "Tan", "Sqrt", "Atan2", "Floor", "Ceil", "Hypot", "Round", "Atan", "Acos", "Asin"} {
		pureFns["math."+n] = pureFn{true, uf("math."+n, SReal), tf(tReal)}
	}
	pureFns["math.Abs"] = pureFn{true, mathAbs, tf(tReal)}
	pureFns["math.Max"] = pureFn{true, func(e *Exec, ts []*Term) *Term { return e.c.Ite(e.c.Le(ts[1], ts[0]), ts[0], ts[1]) }, tf(tReal)}
	pureFns["math.Min"] = pureFn{true, func(e *Exec, ts []*Term) *Term { return e.c.Ite(e.c.Le(ts[0], ts[1]), ts[0], ts[1]) }, tf(tReal)}
	for _, n := range []string{"TrimSpace", "ToLower", "ToUpper"} {
		pureFns["strings."+n] = pureFn{false, uf("strings."+n, SStr), tf(tStr)}
	}
	for _, n := range []string{"HasPrefix", "HasSuffix", "Contains", "EqualFold"} {
		pureFns["strings."+n] = pureFn{false, uf("strings."+n, SBool), tf(tBool)}
	}
	pureFns["strings.Index"] = pureFn{false, uf("strings.Index", SInt), tf(tInt)}
	pureFns["strings.IndexByte"] = pureFn{false, uf("strings.IndexByte", SInt), tf(tInt)}
	pureFns["strings.TrimPrefix"] = pureFn{false, trimPrefix, tf(tStr)}
	pureFns["strings.TrimSuffix"] = pureFn{false, trimSuffix, tf(tStr)}
	pureFns["strings.Split"] = pureFn{false, splitFn, tf(tStrs)}
	pureFns["strings.Join"] = pureFn{false, uf("strings.Join", SStr), tf(tStr)}
	pureFns["unicode.IsLetter"] = pureFn{false, uf("unicode.IsLetter", SBool), tf(tBool)}
	pureFns["unicode.IsNumber"] = pureFn{false, uf("unicode.IsNumber", SBool), tf(tBool)}
	pureFns["unicode.IsDigit"] = pureFn{false, uf("unicode.IsDigit", SBool), tf(tBool)}
	pureFns["unicode.IsSpace"] = pureFn{false, uf("unicode.IsSpace", SBool), tf(tBool)}
	// all pure functions are library functions
	for n, f := range pureFns {
		f := f
		externs[n] = func(e *Exec, cc *CallCtx) {
			var ts []*Term
			for i, a := range cc.args {
				pt := cc.fn.Signature.Params().At(i).Type()
				ts = append(ts, e.reify(cc.st, a, pt, false))
			}
			cc.ret(f.app(e, ts))
		}
	}
	// models for the specifications only
	pureFns["xml.Count"] = pureFn{false, uf("xml.Count", SInt), tf(tInt)}
	pureFns["xml.Tok"] = pureFn{false, uf("xml.Tok", SAny), tf(types.NewInterfaceType(nil, nil))}
	pureFns["xml.Ends"] = pureFn{false, uf("xml.Ends", SBool), tf(tBool)}
	pureFns["strconv.FloatOK"] = pureFn{false, uf("pfok", SBool), tf(tBool)}
	pureFns["strconv.Float"] = pureFn{false, uf("pf", SReal), tf(tReal)}
	pureFns["strconv.AtoiOK"] = pureFn{false, uf("aiok", SBool), tf(tBool)}
	pureFns["strconv.AtoiVal"] = pureFn{false, uf("ai", SInt), tf(tInt)}
	pureFns["strconv.HexOK"] = pureFn{false, uf("hexok", SBool), tf(tBool)}
	pureFns["strconv.HexVal"] = pureFn{false, uf("hex", SInt), tf(tInt)}
}

func freshErr(e *Exec, cc *CallCtx, what string, args ...*Term) *Term {
	// errors are boxed values that depend only on what they report
	tag, _ := e.ts.BoxTag(errType)
	return e.c.Box(tag, e.c.App("err:"+what, SInt, args...))
}

var errType types.Type = types.NewNamed(types.NewTypeName(0, types.NewPackage("liberr", "liberr"), "Error", nil), types.Typ[types.Int], nil)

var externs = map[string]extern{}

func init() {
	for k, f := range libModels() {
		externs[k] = f
	}
}

func libModels() map[string]extern {
	return map[string]extern{
		"strings.Cut": func(e *Exec, cc *CallCtx) {
			a, b, ok := cutFn(e, []*Term{cc.t(0), cc.t(1)})
			cc.ret(a, b, ok)
		},
		"xml.NewDecoder": func(e *Exec, cc *CallCtx) {
			et := cc.resType(0).Underlying().(*types.Pointer).Elem()
			sh := e.p.shadowOf(et)
			if sh == nil {
				unsup("xml.Decoder has no record")
			}
			e.nobj++
			e.objType[e.nobj], e.objName[e.nobj], e.localObj[e.nobj] = sh, "decoder", true
			cc.st.heap[e.nobj] = &StructV{F: []Val{cc.t(0), e.c.Int(0), e.c.True()}}
			cc.ret(&PtrV{Kind: 'o', Obj: e.nobj})
		},
		// the tokens of a stream: xml.Count of them, then an error, which is
		// io.EOF if xml.Ends
		"xml.(*Decoder).Token": func(e *Exec, cc *CallCtx) {
			c := e.c
			p, ok := cc.args[0].(*PtrV)
			if !ok || p.Kind != 'o' {
				unsup("unknown decoder")
			}
			d, ok := cc.st.heap[p.Obj].(*StructV)
			if !ok || !d.F[2].(*Term).isTrue() {
				unsup("a decoder that is not strict")
			}
			s, pos := d.F[0].(*Term), d.F[1].(*Term)
			n := c.strFn("xml.Count", SInt, s)
			more := c.Lt(pos, n)
			eof := c.Var("glob:io.EOF", SAny)
			bad := freshErr(e, cc, "xml", s)
			cc.st.assume(c, c.And(c.Le(c.Int(0), n), c.Not(c.Eq(eof, c.NilAny())), c.Not(c.Eq(eof, bad))))
			cc.st.heap[p.Obj] = &StructV{F: []Val{s, c.Ite(more, c.Add(pos, c.Int(1)), pos), d.F[2]}}
			cc.ret(c.Ite(more, c.strFn("xml.Tok", SAny, s, pos), c.NilAny()), c.Ite(more, c.NilAny(), c.Ite(c.strFn("xml.Ends", SBool, s), eof, bad)))
		},
		"strings.FieldsFunc": func(e *Exec, cc *CallCtx) {
			body := e.c.canonPred(e.predicate(cc, cc.args[1]))
			cc.ret(e.c.mk("fieldsfunc", seqSort(SStr), cc.t(0), body))
		},
		"strings.Fields": func(e *Exec, cc *CallCtx) {
			cc.ret(e.c.App("strings.Fields", seqSort(SStr), cc.t(0)))
		},
		"strconv.ParseFloat": func(e *Exec, cc *CallCtx) {
			s := cc.t(0)
			ok := e.c.strFn("pfok", SBool, s)
			v := e.c.strFn("pf", SReal, s)
			cc.ret(e.c.Ite(ok, v, e.c.App("pfbad", SReal, s)), e.c.Ite(ok, e.c.NilAny(), freshErr(e, cc, "ParseFloat", s)))
		},
		"strconv.Atoi": func(e *Exec, cc *CallCtx) {
			s := cc.t(0)
			ok := e.c.strFn("aiok", SBool, s)
			cc.ret(e.c.Ite(ok, e.c.strFn("ai", SInt, s), e.c.App("aibad", SInt, s)), e.c.Ite(ok, e.c.NilAny(), freshErr(e, cc, "Atoi", s)))
		},
		"strconv.ParseUint": func(e *Exec, cc *CallCtx) {
			s, base, bits := cc.t(0), cc.t(1), cc.t(2)
			c := e.c
			if b, ok := base.isInt64(); !ok || b != 16 {
				unsup("ParseUint with base %s", base)
			}
			if b, ok := bits.isInt64(); !ok || b != 8 {
				unsup("ParseUint with %s bits", bits)
			}
			ok := c.strFn("hexok", SBool, s)
			v := c.strFn("hex", SInt, s)
			cc.st.assume(c, c.Imp(ok, c.And(c.Le(c.Int(0), v), c.Lt(v, c.Int(256)))))
			cc.ret(c.Ite(ok, v, c.App("hexbad", SInt, s)), c.Ite(ok, c.NilAny(), freshErr(e, cc, "ParseUint", s)))
		},
		"errors.New": func(e *Exec, cc *CallCtx) {
			// every call gives a distinct error; only being non-nil matters
			cc.ret(freshErr(e, cc, "New", cc.t(0)))
		},
		"fmt.Errorf": func(e *Exec, cc *CallCtx) {
			cc.ret(freshErr(e, cc, "Errorf", cc.t(0), e.sliceSeq(cc.st, cc.args[1])))
		},
		"fmt.Sprintf": func(e *Exec, cc *CallCtx) { cc.ret(sprintf(e, cc)) },
		"fmt.Sprint": func(e *Exec, cc *CallCtx) {
			cc.ret(e.c.App("fmt.Sprint", SStr, e.sliceSeq(cc.st, cc.args[0])))
		},
		"log.Println": func(e *Exec, cc *CallCtx) { cc.ret() },
		"log.Printf":  func(e *Exec, cc *CallCtx) { cc.ret() },
		"color.RGBA.RGBA": func(e *Exec, cc *CallCtx) {
			v := cc.args[0]
			if t, ok := v.(*Term); ok {
				v = e.reflect(t, cc.fn.Signature.Recv().Type())
			}
			s := v.(*StructV)
			var out []Val
			for i := 0; i < 4; i++ {
				out = append(out, e.c.Mul(e.c.Int(257), s.F[i].(*Term)))
			}
			cc.ret(out...)
		},
		"color.Color.RGBA": func(e *Exec, cc *CallCtx) {
			// components of a colour of any type
			c := e.c
			recv := cc.t(0)
			e.oblig(cc.st, "nil", "RGBA of a nil colour", c.Not(c.Eq(recv, c.NilAny())), nil)
			var out []Val
			for i, n := range []string{"R", "G", "B", "A"} {
				_ = i
				v := colorComp(e, n, recv)
				cc.st.assume(c, c.And(c.Le(c.Int(0), v), c.Lt(v, c.Int(65536))))
				out = append(out, v)
			}
			cc.ret(out...)
		},
	}
}

func colorComp(e *Exec, n string, recv *Term) *Term { return e.c.App("color."+n, SInt, recv) }

// canonPred gives a predicate on runes that only compares with constants in one form.
func (c *Ctx) canonPred(body *Term) *Term {
	bv := c.BVar("rune!p", SInt)
	consts := map[string]*Term{}
	ok := true
	var walk func(t *Term)
	walk = func(t *Term) {
		switch {
		case t.Op == "and" || t.Op == "or" || t.Op == "not":
			for _, a := range t.Args {
				walk(a)
			}
		case t.isTrue() || t.isFalse():
		case t.Op == "=" && t.Args[0] == bv && t.Args[1].isNum():
			consts[t.Args[1].String()] = t.Args[1]
		case t.Op == "=" && t.Args[1] == bv && t.Args[0].isNum():
			consts[t.Args[0].String()] = t.Args[0]
		default:
			ok = false
		}
	}
	walk(body)
	if !ok {
		return body
	}
	other := c.Subst(body, map[*Term]*Term{bv: c.Int(-1)})
	var ks []string
	for k := range consts {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var ts []*Term
	for _, k := range ks {
		if v := c.Subst(body, map[*Term]*Term{bv: consts[k]}); v != other {
			ts = append(ts, c.Eq(bv, consts[k]))
		}
	}
	r := c.Or(ts...)
	if other.isTrue() {
		return c.Not(r)
	}
	return r
}

// predicate turns a function value of a rune into a boolean term over rune!p.
func (e *Exec) predicate(cc *CallCtx, f Val) *Term {
	c := e.c
	bv := c.BVar("rune!p", SInt)
	res := c.False()
	st := cc.st.clone()
	base := len(st.pc)
	e.dry++
	defer func() { e.dry-- }()
	if fv, ok := f.(*FuncV); ok && fv.Fn != nil {
		if _, ok := externs[extName(fv.Fn)]; ok {
			return c.App(extName(fv.Fn), SBool, bv)
		}
	}
	e.invokeVal(cc.fr, nil, f, []Val{bv}, st, func(s *State, r []Val) {
		p := c.And(s.pc[base:]...)
		res = c.Or(res, c.And(p, r[0].(*Term)))
	})
	return res
}

// sprintf expands a constant format into the concatenation of its pieces.
func sprintf(e *Exec, cc *CallCtx) *Term {
	c := e.c
	f := cc.t(0)
	args := e.sliceSeq(cc.st, cc.args[1])
	n, ok := c.SeqLen(args).isInt64()
	if !f.isLit() || !ok {
		return c.App("fmt.Sprintf", SStr, f, args)
	}
	out := c.Lit("")
	i := int64(0)
	s := f.Str
	for len(s) > 0 {
		j := strings.IndexByte(s, '%')
		if j < 0 {
			out = c.scat(out, c.Lit(s))
			break
		}
		out = c.scat(out, c.Lit(s[:j]))
		s = s[j+1:]
		k := 0
		for k < len(s) && strings.IndexByte("0123456789.+-# ", s[k]) >= 0 {
			k++
		}
		if k == len(s) {
			return c.App("fmt.Sprintf", SStr, f, args)
		}
		verb := s[:k+1]
		s = s[k+1:]
		if verb == "%" {
			out = c.scat(out, c.Lit("%"))
			continue
		}
		if i >= n {
			return c.App("fmt.Sprintf", SStr, f, args)
		}
		out = c.scat(out, fmtVerb(e, verb, c.SeqAt(args, c.Int(i))))
		i++
	}
	if i != n {
		return c.App("fmt.Sprintf", SStr, f, args)
	}
	return out
}

// fmtVerb formats one operand. A minimum width below the number of characters
// the precision already forces has no effect.
func fmtVerb(e *Exec, verb string, arg *Term) *Term {
	c := e.c
	if strings.HasPrefix(arg.Op, "box_") && len(arg.Args) == 1 {
		x := arg.Args[0]
		if x.Sort == SStr && (verb == "s" || verb == "v") {
			return x
		}
		if x.Sort == SReal && strings.HasSuffix(verb, "f") {
			w, p, ok := strings.Cut(strings.TrimSuffix(verb, "f"), ".")
			wn, pn := 0, 6
			if ok {
				fmt.Sscan(p, &pn)
			}
			if w != "" {
				if _, err := fmt.Sscan(w, &wn); err != nil || strings.ContainsAny(w, "+-# 0") && w[0] < '1' {
					wn = 1000
				}
			}
			if wn <= pn+2 {
				return c.App(fmt.Sprintf("fmt%%.%df", pn), SStr, x)
			}
		}
		return c.App("fmt%"+verb, SStr, x)
	}
	return c.App("fmt%"+verb, SStr, arg)
}

// inlineExtern lists library functions executed by their own code.
func inlineExtern(fn *ssa.Function) bool {
	n := extName(fn)
	switch {
	case strings.HasPrefix(n, "fixed."):
		return fn.Blocks != nil && fn.Name() != "String"
	case n == "color.RGBA64.RGBA", n == "image.Rectangle.Dx", n == "image.Rectangle.Dy", n == "image.Rect":
		return fn.Blocks != nil
	}
	return false
}
