package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/lafriks/go-svg"
	"github.com/lafriks/go-svg/renderer"
	"golang.org/x/image/math/fixed"
)

var props map[string]func(*R, *G)

var modes = []svg.ErrorMode{svg.IgnoreErrorMode, svg.WarnErrorMode, svg.StrictErrorMode}

const straight = "mlhvz"
const curves = "qtcs"

func docProp(o genOpts) func(*R, *G) {
	return func(r *R, g *G) {
		g.opts = o
		doc, root := g.document()
		checkDoc(r, g, doc, root)
	}
}

func checkDoc(r *R, g *G, doc string, root *node) {
	r.cur = doc
	e := evaluate(root)
	for _, m := range modes {
		if m == svg.WarnErrorMode && !g.p(.3) && e.strict == "" {
			continue
		}
		got, err := r.parse(doc, m)
		call := fmt.Sprintf("svg.Parse(input, %d)", m)
		if e.err != "" {
			if err == nil {
				r.fail(call, doc, "no error, expected one: %s", e.err)
			}
			continue
		}
		if m == svg.StrictErrorMode && e.strict != "" {
			if err == nil {
				r.fail(call, doc, "no error in strict mode, expected one: %s", e.strict)
			}
			continue
		}
		if err != nil {
			r.fail(call, doc, "error %q, expected none", err)
		}
		if s := cmpDoc(got, e.doc, g.vb); s != "" {
			r.fail(call, doc, "%s", s)
		}
	}
}

// simple wraps elements in a document with a fixed viewBox
func simple(body string) string {
	return `<svg xmlns="http://www.w3.org/2000/svg" viewBox="0 0 100 50">` + body + `</svg>`
}

func (r *R) mustFail(doc, why string) {
	r.cur = doc
	for _, m := range modes {
		if _, err := r.parse(doc, m); err == nil {
			r.fail(fmt.Sprintf("svg.Parse(input, %d)", m), doc, "no error, expected one: %s", why)
		}
	}
}

func (r *R) mustParse(doc string, m svg.ErrorMode) *svg.Svg {
	r.cur = doc
	s, err := r.parse(doc, m)
	if err != nil {
		r.fail(fmt.Sprintf("svg.Parse(input, %d)", m), doc, "error %q, expected none", err)
	}
	return s
}

func init() {
	all := genOpts{units: .2, styles: .5, transform: .3, cmds: straight + curves + "a", shapes: "rocelpgPP", groups: true, grads: true, defs: true, masks: true, titles: true, nested: true, nonpos: .05}
	props = map[string]func(*R, *G){
		"C01": c01,
		"C02": c02,
		"C03": c03,
		"C04": c04,
		"C05": c05,
		"C06": func(r *R, g *G) {
			docProp(genOpts{cmds: curves + curves + straight, shapes: "P"})(r, g)
			wrongCount(r, g, curves)
		},
		"C07": func(r *R, g *G) {
			docProp(genOpts{cmds: "aaaaaamzlc", shapes: "P"})(r, g)
			wrongCount(r, g, "a")
		},
		"C08": func(r *R, g *G) {
			docProp(genOpts{units: .3, shapes: "roocelpg", nonpos: .1, cmds: "l"})(r, g)
			if r.n%20 == 0 {
				r.mustFail(simple(`<`+g.pick("polyline", "polygon")+` points="`+g.list(g.nums(1+2*g.Intn(4)))+`"/>`), "odd number of coordinates")
				badLen(r, g)
			}
		},
		"C09": c09,
		"C10": docProp(genOpts{styles: .7, transform: .4, cmds: straight, shapes: "rlpP", groups: true, grads: true, masks: true, units: .1}),
		"C11": c11,
		"C12": c12,
		"C13": c13,
		"C14": c14,
		"C15": docProp(genOpts{styles: .5, shapes: "rlgP", cmds: straight, groups: true, masks: true, defs: true, units: .2, transform: .2}),
		"C16": c16,
		"C17": c17,
		"C18": c18,
		"C19": c19,
		"C20": c20,
		"C21": c21,
	}
	_ = all
	allOpts = all
}

var allOpts genOpts

// ---- C01 ----

var nasty = []string{"", " ", "#", "#1", "#12", "#1234", "#12345", "#1234567", "rgb(", "rgb()", "rgb(1)", "rgb(1,2)", "rgb(,,)", "rgb(%,%,%)", "url(", "url()", "url(#", "url(#)", "url(#a",
	"url", ")", "(", "()", "))((", "matrix(1)", "matrix()", "rotate(1,2)", "translate()", "scale", "scale(", "1e", "e", "E", ".", "-", "--", "1-", "-.e", "..", "1..2", "e5", "1e+", "NaN", "Inf", "-Inf", "1e309",
	"%", "px", "1 2 3", "none", "M", "M1", "M1,2,3", "MMM", "z", "zz", "l1 2", "A1 2 3 4 5 6", "a", "C1", "S", "T1", "Q 1 2", "h", "V", "é", "\u00e9M0 0", "M0 0é", "\uFFFD", "M0 0 L\u0661 1", ";", ":", "a:b:c", ";;:", "fill", "fill:", ":red",
	"fill:red;fill", "0", "-1", "1e400", "0x10", "1_000", "+", "++1", "m0 0zl1 1z", "Z1", "99999999999999999999", "\t", "\n", "٣", "²", "½", "Ⅷ", "M½ 2", "1²", "url(#a)b", "URL(#a)", "0 0 0", "0 0 0 0 0", "#ggg", "#\u00e9\u00e9", "#\u00e9a", "rgb(\u00e9)", "evenodd", "a"}

var attrNames = []string{"d", "points", "transform", "fill", "stroke", "style", "x", "y", "width", "height", "rx", "ry", "r", "cx", "cy", "x1", "y1", "x2", "y2", "viewBox", "id", "href", "xlink:href", "mask", "opacity", "fill-opacity", "stroke-width", "stroke-dasharray", "stroke-dashoffset", "stroke-miterlimit", "stroke-linecap", "fill-rule", "offset", "stop-color", "stop-opacity", "gradientTransform", "gradientUnits", "spreadMethod", "fx", "fy", "fr"}
var tagNames = []string{"svg", "g", "rect", "circle", "ellipse", "line", "polyline", "polygon", "path", "defs", "use", "mask", "linearGradient", "radialGradient", "stop", "title", "desc", "foo"}

func c01(r *R, g *G) {
	g.opts = allOpts
	var doc string
	switch g.Intn(5) {
	case 0: // arbitrary nesting and attributes
		var b strings.Builder
		ids := []string{"a", "b", "c", ""}
		var elem func(d int)
		elem = func(d int) {
			t := tagNames[g.Intn(len(tagNames))]
			b.WriteString("<" + t)
			seen := map[string]bool{}
			if g.p(.5) {
				seen["id"] = true
				fmt.Fprintf(&b, ` id="%s"`, ids[g.Intn(4)])
			}
			if t == "use" || g.p(.1) {
				seen["href"] = true
				fmt.Fprintf(&b, ` href="#%s"`, ids[g.Intn(4)])
			}
			for i := 0; i < g.Intn(4); i++ {
				a := attrNames[g.Intn(len(attrNames))]
				if seen[a] {
					continue
				}
				seen[a] = true
				v := nasty[g.Intn(len(nasty))]
				switch g.Intn(4) {
				case 0:
					v = g.num().s
				case 1:
					v = g.pick("0 0 10 10", "M0 0L1 1z", "url(#a)", "url(#b)", "rotate(3)", "red", "3", "fill:url(#a);mask:url(#b)")
				}
				fmt.Fprintf(&b, ` %s="%s"`, a, esc(v))
			}
			b.WriteString(">")
			if g.p(.2) {
				b.WriteString("text")
			}
			if d > 0 {
				for i := 0; i < g.Intn(4); i++ {
					elem(d - 1)
				}
			}
			b.WriteString("</" + t + ">")
		}
		b.WriteString(`<svg xmlns:xlink="x">`)
		for i := 0; i < 1+g.Intn(4); i++ {
			elem(4)
		}
		b.WriteString("</svg>")
		doc = b.String()
	case 1: // a good document with some attribute values replaced
		doc, _ = g.document()
		parts := strings.Split(doc, "=\"")
		for k := 0; k < 1+g.Intn(2); k++ {
			i := 1 + g.Intn(len(parts)-1)
			if j := strings.Index(parts[i], "\""); j >= 0 {
				parts[i] = esc(nasty[g.Intn(len(nasty))]) + parts[i][j:]
			}
		}
		doc = strings.Join(parts, "=\"")
	case 2: // damaged text
		doc, _ = g.document()
		b := []byte(doc)
		for k := 0; k < 1+g.Intn(5); k++ {
			i := g.Intn(len(b))
			switch g.Intn(3) {
			case 0:
				b[i] = "0123456789.eE-+#()%,; zZmMaA\"<>/&"[g.Intn(33)]
			case 1:
				b = append(b[:i], b[i+1:]...)
			default:
				b = append(b[:i:i], append([]byte{b[g.Intn(len(b))]}, b[i:]...)...)
			}
		}
		doc = string(b)
	case 3: // definitions that refer to each other
		n := 1 + g.Intn(4)
		var b strings.Builder
		b.WriteString("<defs>")
		for i := 0; i < n; i++ {
			fmt.Fprintf(&b, `<g id="d%d">`, i)
			for k := 0; k < g.Intn(3); k++ {
				fmt.Fprintf(&b, `<use href="#d%d"/><rect width="1" height="1" mask="url(#m)"/>`, g.Intn(n))
			}
			b.WriteString("</g>")
		}
		b.WriteString(`</defs><mask id="m"><use href="#d0"/></mask><use href="#d0"/>`)
		doc = simple(b.String())
	default: // one attribute with a nasty value
		t := tagNames[g.Intn(len(tagNames))]
		a := attrNames[g.Intn(len(attrNames))]
		v := nasty[g.Intn(len(nasty))]
		if g.p(.3) {
			v += nasty[g.Intn(len(nasty))]
		}
		body := fmt.Sprintf(`<%s %s="%s"/>`, t, a, esc(v))
		if g.p(.4) {
			body = fmt.Sprintf(`<%s id="a">%s</%s><rect width="1" height="2" fill="url(#a)"/>`, "linearGradient", body, "linearGradient")
		}
		if g.p(.2) {
			body = "<defs>" + body + "</defs>"
		}
		doc = simple(body)
		if g.p(.2) {
			doc = body
		}
	}
	r.cur = doc
	for _, m := range modes {
		s, err := r.parse(doc, m)
		if s == nil && err == nil {
			r.fail(fmt.Sprintf("svg.Parse(input, %d)", m), doc, "neither a document nor an error")
		}
	}
}

// ---- C02 ----

func c02(r *R, g *G) {
	rm := func() svg.Matrix2D {
		v := func() float64 { return math.Round((g.Float64()*8-4)*1000) / 1000 }
		m := svg.Matrix2D{A: v(), B: v(), C: v(), D: v(), E: v() * 10, F: v() * 10}
		switch g.Intn(8) {
		case 0:
			m.A, m.D = 0, 0
		case 1:
			m.B, m.C = 0, 0
		case 2:
			m.A = 0
		case 3:
			m.C = 0
		}
		return m
	}
	a, b := rm(), rm()
	x, y := g.Float64()*100-50, g.Float64()*100-50
	th := g.Float64()*8 - 4
	in := fmt.Sprintf("a=%+v b=%+v x=%v y=%v theta=%v", a, b, x, y, th)
	r.cur = in
	ma, mb := matOf(a), matOf(b)
	eq := func(call string, got svg.Matrix2D, want mat) {
		r.count["Matrix2D"]++
		if s := cmpMat(got, want); s != "" {
			r.fail(call, in, "%s", s)
		}
	}
	eq("a.Mult(b)", a.Mult(b), ma.mul(mb))
	eq("a.Translate(x,y)", a.Translate(x, y), ma.mul(mat{1, 0, 0, 1, x, y}))
	eq("a.Scale(x,y)", a.Scale(x, y), ma.mul(mat{x, 0, 0, y, 0, 0}))
	s, c := math.Sincos(th)
	eq("a.Rotate(theta)", a.Rotate(th), ma.mul(mat{c, s, -s, c, 0, 0}))
	t := math.Tan(th / 4)
	eq("a.SkewX(theta/4)", a.SkewX(th/4), ma.mul(mat{1, 0, t, 1, 0, 0}))
	eq("a.SkewY(theta/4)", a.SkewY(th/4), ma.mul(mat{1, t, 0, 1, 0, 0}))
	eq("a.Mult(Identity)", a.Mult(svg.Identity), ma)
	eq("Identity.Mult(a)", svg.Identity.Mult(a), ma)
	p := ma.apply(pt{x, y})
	if gx, gy := a.Transform(x, y); !near(gx, p.x) || !near(gy, p.y) {
		r.fail("a.Transform(x,y)", in, "%g %g, expected %v", gx, gy, p)
	}
	if gx, gy := a.TransformVector(x, y); !near2(gx, p.x-a.E) || !near2(gy, p.y-a.F) {
		r.fail("a.TransformVector(x,y)", in, "%g %g, expected %g %g", gx, gy, p.x-a.E, p.y-a.F)
	}
	if det := a.A*a.D - a.B*a.C; math.Abs(det) > .5 {
		inv := matOf(a.Invert())
		q := inv.apply(p)
		if math.Hypot(q.x-x, q.y-y) > 1e-6 {
			r.fail("a.Invert()", in, "inverse %v maps the image of the point to %v", inv, q)
		}
		q = ma.apply(inv.apply(pt{x, y}))
		if math.Hypot(q.x-x, q.y-y) > 1e-6 {
			r.fail("a.Invert()", in, "inverse %v does not undo the map on the right: %v", inv, q)
		}
	}
	rp := func() fixed.Point26_6 {
		return fixed.Point26_6{X: fixed.Int26_6(g.Intn(20000) - 10000), Y: fixed.Int26_6(g.Intn(20000) - 10000)}
	}
	f := [3]fixed.Point26_6{rp(), rp(), rp()}
	in += fmt.Sprintf(" points=%v (64ths)", f)
	ok := func(call string, got fixed.Point26_6, i int) {
		if w := ma.apply(fpt(f[i])); !ptOK(got, w) {
			r.fail(call, in, "point %d is (%d %d)/64, expected %v", i, got.X, got.Y, w)
		}
	}
	ok("a.TFixed", a.TFixed(f[0]), 0)
	ok("a.MoveTo", a.MoveTo(svg.OpMoveTo(f[0])), 0)
	ok("a.LineTo", a.LineTo(svg.OpLineTo(f[0])), 0)
	q0, q1 := a.QuadTo(svg.OpQuadTo{f[0], f[1]})
	ok("a.QuadTo", q0, 0)
	ok("a.QuadTo", q1, 1)
	c0, c1, c2 := a.CubicTo(svg.OpCubicTo(f))
	ok("a.CubicTo", c0, 0)
	ok("a.CubicTo", c1, 1)
	ok("a.CubicTo", c2, 2)
}

func near2(a, b float64) bool { return math.Abs(a-b) < 1e-6 }

// ---- C03 ----

func c03(r *R, g *G) {
	docProp(genOpts{transform: 1, shapes: "l", groups: true})(r, g)
	if r.n%4 == 0 {
		bad := g.pick("rotates(1)", "foo(1)", "matrix(1 2 3 4 5)", "matrix(1 2 3 4 5 6 7)", "translate(1 2 3)", "scale(1 2 3)", "rotate(1 2)", "rotate(1 2 3 4)", "skewX(1 2)", "skewY(1 2)", "skewX()", "translate()", "scale( )", "rotate", "rotate 3", "(3)", "rotate(1)(2)", "translate(1,e)")
		t, _ := g.transform()
		r.mustFail(simple(`<line x2="3" transform="`+esc(g.pick("", t+" ")+bad)+`"/>`), "transform "+bad)
	}
}

// ---- C04 ----

func c04(r *R, g *G) {
	ns := g.nums(2 * (1 + g.Intn(8)))
	txt := g.pick("", " ", "\n") + g.list(ns) + g.pick("", " ", "\n")
	check := func(what, doc string, extra int) {
		s := r.mustParse(doc, svg.StrictErrorMode)
		if len(s.SvgPaths) == 0 {
			r.fail("svg.Parse", doc, "%s: nothing was read", what)
		}
		var got []pt
		p := s.SvgPaths[len(s.SvgPaths)-1].Path
		for _, op := range p {
			_, ps := opPts(op)
			for _, q := range ps {
				got = append(got, fpt(q))
			}
		}
		if len(got) != len(ns)/2+extra {
			r.fail("svg.Parse", doc, "%s: %d points read, %d numbers written: %v", what, len(got), len(ns), p)
		}
		for i := 0; i < len(ns)/2; i++ {
			_, ps := opPts(p[i])
			if !ptOK(ps[0], pt{ns[2*i].v, ns[2*i+1].v}) {
				r.fail("svg.Parse", doc, "%s: point %d is %v, expected %s %s", what, i, ps[0], ns[2*i].s, ns[2*i+1].s)
			}
		}
	}
	pre := ""
	if g.p(.6) {
		pre = g.pick(`<polyline points="7 7 8 8 9 9 10 10 11 11 12 12 13 13 14 14"/>`, `<path d="M1 2L3 4 5 6 7 8 9 10 11 12z"/>`, `<g transform="matrix(9 9 9 9 9 9)"/>`)
	}
	if len(ns) >= 4 {
		check("points", simple(pre+`<polyline points="`+esc(txt)+`"/>`), 0)
	}
	check("path", simple(pre+`<path d="M`+esc(txt)+`"/>`), 0)
	six := g.nums(6)
	t := "matrix(" + g.list(six) + ")"
	doc := simple(pre + `<line x2="3" transform="` + esc(t) + `"/>`)
	s := r.mustParse(doc, svg.StrictErrorMode)
	var m mat
	copy(m[:], vals(six))
	if msg := cmpMat(s.SvgPaths[len(s.SvgPaths)-1].Style.Transform, m); msg != "" {
		r.fail("svg.Parse", doc, "%s", msg)
	}
	four := []num{g.num(), g.num(), g.size(), g.size()}
	doc = `<svg viewBox="` + esc(g.list(four)) + `"><line x2="1"/></svg>`
	s = r.mustParse(doc, svg.StrictErrorMode)
	if b := s.ViewBox; !near(b.X, four[0].v) || !near(b.Y, four[1].v) || !near(b.W, four[2].v) || !near(b.H, four[3].v) {
		r.fail("svg.Parse", doc, "viewBox %v, expected %v", b, vals(four))
	}
	if r.n%4 == 0 {
		bad := g.pick("1 -", "1 2 -", "e 1", "1 e", ".", "1 . 2", "- 3", "1--2", "1e", "1e+ 2", "1 .e3", "-.", "1 2 3 e4", "1-e 4")
		r.mustFail(simple(`<polyline points="`+g.pick("", "1 2 ")+bad+`"/>`), "not a number in "+bad)
		r.mustFail(simple(`<path d="M`+g.pick("", "1 2 ")+bad+`"/>`), "not a number in "+bad)
	}
}

// ---- C05 ----

func wrongCount(r *R, g *G, cmds string) {
	if r.n%3 != 0 {
		return
	}
	k := cmds[g.Intn(len(cmds))]
	n := g.Intn(15)
	if k == 'z' {
		n++
	} else if a := argc[k]; a == 1 {
		n = 0
	} else if n%a == 0 && n > 0 {
		n++
	}
	if g.p(.5) {
		k -= 32
	}
	pre := "M1 2"
	if lower(k) == 'm' && g.p(.5) {
		pre = ""
	}
	r.mustFail(simple(`<path d="`+pre+string(k)+esc(g.list(g.nums(n)))+g.pick("", "L3 4")+`"/>`), fmt.Sprintf("%c with %d numbers", k, n))
}

func c05(r *R, g *G) {
	docProp(genOpts{cmds: straight, shapes: "P"})(r, g)
	wrongCount(r, g, straight)
}

// ---- C09 ----

func badLen(r *R, g *G) {
	bad := g.pick("abc", "1 2", "1e", "3qx", "px", "%", "-", ".", "1..2", "5%%", "4 px px", "1.2.3", "12em", "0x", "1,5")
	type ta struct{ t, a string }
	x := []ta{{"rect", "x"}, {"rect", "y"}, {"rect", "width"}, {"rect", "height"}, {"rect", "rx"}, {"rect", "ry"}, {"circle", "cx"}, {"circle", "cy"}, {"circle", "r"}, {"ellipse", "rx"}, {"ellipse", "ry"},
		{"line", "x1"}, {"line", "x2"}, {"line", "y1"}, {"line", "y2"}, {"rect", "stroke-width"}, {"rect", "stroke-dashoffset"}, {"mask", "x"}, {"mask", "y"}, {"mask", "width"}, {"mask", "height"}}
	q := x[g.Intn(len(x))]
	r.mustFail(simple(fmt.Sprintf(`<%s %s="%s"/>`, q.t, q.a, esc(bad))), q.a+" is not a length")
}

func c09(r *R, g *G) {
	docProp(genOpts{units: .9, styles: .5, shapes: "roceel", defs: true, masks: true, cmds: "l"})(r, g)
	if r.n%3 == 0 {
		badLen(r, g)
	}
	// the opacity and offset fractions
	if r.n%3 == 1 {
		k := g.Intn(101)
		doc := simple(fmt.Sprintf(`<line x2="3" fill-opacity="%d%%"/>`, k))
		s := r.mustParse(doc, svg.StrictErrorMode)
		if got := s.SvgPaths[0].Style.FillOpacity; !near(got, float64(k)/100) {
			r.fail("svg.Parse", doc, "opacity %g", got)
		}
	}
}

// ---- C11 ----

func c11(r *R, g *G) {
	g.opts = genOpts{styles: 1, shapes: "l", units: .4, grads: true, unknown: .1, masks: true}
	doc, root := g.document()
	checkDoc(r, g, doc, root)
	if r.n%4 == 0 {
		p := [][2]string{{"stroke-miterlimit", "x"}, {"stroke-width", "wide"}, {"stroke-dasharray", "1 b 2"}, {"stroke-dashoffset", "q"}, {"opacity", "half"}, {"fill-opacity", "x"}, {"stroke-opacity", ""}, {"fill", "nocolour"}, {"stroke", "#12"}, {"stroke", "rgb(1,2)"}, {"fill", ""}, {"transform", "foo"}, {"mask", "m"}, {"mask", "url(m)"}, {"mask", "url(#m"}}
		q := p[g.Intn(len(p))]
		if g.p(.5) {
			r.mustFail(simple(fmt.Sprintf(`<line %s="%s"/>`, q[0], q[1])), q[0]+": "+q[1])
		} else {
			r.mustFail(simple(fmt.Sprintf(`<line style="%s:%s"/>`, q[0], q[1])), q[0]+": "+q[1])
		}
	}
}

// ---- C12 ----

func c12(r *R, g *G) {
	t, q := colorText(g)
	attr := g.pick("fill", "stroke")
	doc := simple(fmt.Sprintf(`<line x2="3" %s="%s"/>`, attr, t))
	if g.p(.3) {
		doc = simple(fmt.Sprintf(`<line x2="3" style="%s: %s"/>`, attr, t))
	}
	s := r.mustParse(doc, svg.StrictErrorMode)
	st := s.SvgPaths[0].Style
	got := st.FillerColor
	if attr == "stroke" {
		got = st.LinerColor
	}
	if msg := cmpPaint(got, q); msg != "" {
		r.fail("svg.Parse", doc, "%s", msg)
	}
	// the same colour in a stop
	doc = simple(fmt.Sprintf(`<linearGradient id="a"><stop stop-color="%s"/></linearGradient><line x2="3" fill="url(#a)"/>`, t))
	s = r.mustParse(doc, svg.StrictErrorMode)
	if gr, ok := s.SvgPaths[0].Style.FillerColor.(svg.Gradient); !ok || len(gr.Stops) != 1 || !sameColor(gr.Stops[0].StopColor, paintColor(q)) {
		r.fail("svg.Parse", doc, "stop colour %v, expected %v", s.SvgPaths[0].Style.FillerColor, q)
	}
	if r.n%2 == 0 {
		hex := "0123456789abcdefABCDEF"
		n := g.pickInt(0, 1, 2, 4, 5, 7, 8, 9)
		b := "#"
		for i := 0; i < n; i++ {
			b += string(hex[g.Intn(len(hex))])
		}
		bad := b
		switch g.Intn(6) {
		case 0:
			bad = g.pick("", "redd", "bluegreen", "12", "rgb", "rgb(", "rgb()", "rgb(1)", "rgb(1,2)", "rgb(1,2,3,4)", "rgb(a,b,c)", "rgb(1,,3)", "rgb(1,2,)", "rgb(1.5.2,2,3)", "rgb(%,1,2)", "rgb(1,2,%)", "#", "nothing", "grey1", "-", "rgb 1,2,3")
		case 1:
			x := []byte("#" + fmt.Sprintf("%06x", g.Intn(1<<24)))
			if g.p(.5) {
				x = x[:4]
			}
			x[1+g.Intn(len(x)-1)] = "gGzZ-+_x."[g.Intn(9)]
			bad = string(x)
		}
		r.mustFail(simple(fmt.Sprintf(`<line %s="%s"/>`, attr, bad)), "colour "+bad)
		r.mustFail(simple(fmt.Sprintf(`<linearGradient><stop stop-color="%s"/></linearGradient>`, bad)), "colour "+bad)
	}
}

// ---- C13 ----

func c13(r *R, g *G) {
	g.opts = genOpts{styles: .9, shapes: "lr", grads: true, groups: true, defs: g.p(.3)}
	doc, root := g.document()
	checkDoc(r, g, doc, root)
	// the bounding box
	s, _ := r.parse(doc, svg.IgnoreErrorMode)
	for _, p := range s.SvgPaths {
		gr, ok := p.Style.FillerColor.(svg.Gradient)
		if !ok {
			continue
		}
		before := gr
		ext := fixed.Rectangle26_6{Min: fixed.Point26_6{X: fixed.Int26_6(g.Intn(6400) - 3200), Y: fixed.Int26_6(g.Intn(6400) - 3200)}}
		ext.Max = ext.Min.Add(fixed.Point26_6{X: fixed.Int26_6(g.Intn(6400)), Y: fixed.Int26_6(g.Intn(6400))})
		m := gr.ApplyPathExtent(ext)
		call := fmt.Sprintf("%+v.ApplyPathExtent(%v)", before, ext)
		r.count["ApplyPathExtent"]++
		if before.Units == svg.UserSpaceOnUse {
			if gr.Bounds != before.Bounds {
				r.fail(call, doc, "bounds changed to %v in user space", gr.Bounds)
			}
			if msg := cmpMat(m, matOf(before.Matrix)); msg != "" {
				r.fail(call, doc, "%s", msg)
			}
			continue
		}
		w, h := float64(ext.Max.X-ext.Min.X)/64, float64(ext.Max.Y-ext.Min.Y)/64
		if b := gr.Bounds; !near(b.X, float64(ext.Min.X)/64) || !near(b.Y, float64(ext.Min.Y)/64) || !near(b.W, w) || !near(b.H, h) {
			r.fail(call, doc, "bounds %v", gr.Bounds)
		}
		if msg := cmpMat(m, mat{w, 0, 0, h, 0, 0}.mul(matOf(before.Matrix))); msg != "" {
			r.fail(call, doc, "%s", msg)
		}
		var dir []float64
		switch d := gr.Direction.(type) {
		case svg.Linear:
			dir = d[:]
		case svg.Radial:
			dir = d[:]
		}
		if fmt.Sprint(before.Direction) != fmt.Sprint(gr.Direction) || len(dir) == 0 {
			r.fail(call, doc, "direction changed to %v", gr.Direction)
		}
	}
	if r.n%10 == 0 {
		bad := g.pick(`<linearGradient x1="q"/>`, `<linearGradient y2="1 2"/>`, `<radialGradient r="x"/>`, `<radialGradient fy="%"/>`, `<radialGradient fr="z"/>`, `<linearGradient gradientTransform="foo(1)"/>`, `<linearGradient><stop offset="x"/></linearGradient>`, `<radialGradient><stop stop-opacity="y"/></radialGradient>`)
		r.mustFail(simple(bad), "malformed gradient")
	}
}

// ---- C14 ----

func c14(r *R, g *G) {
	docProp(genOpts{styles: .5, transform: .3, shapes: "rlgP", cmds: straight, groups: true, defs: true, units: .1, titles: g.p(.3), grads: g.p(.2), masks: g.p(.2)})(r, g)
	if r.n%4 == 0 {
		bad := g.pick(
			`<use/>`, `<use href=""/>`, `<use href="#nope"/>`, `<use href="nope"/>`, `<use xlink:href="#nope"/>`, `<use x="1" y="2"/>`,
			`<rect id="q" width="1" height="1"/><use href="#q"/>`,
			`<defs><rect id="q" width="1" height="1"/></defs><use href="q"/>`,
			`<defs><g id="q"><use href="#q"/></g></defs><use href="#q"/>`,
			`<defs><g id="q"><g><rect width="1" height="1"/><use href="#q"/></g></g></defs><use href="#q"/>`,
			`<defs><g id="q"><use href="#p"/></g><g id="p"><use href="#q"/></g></defs><use href="#p"/>`,
			`<defs><g id="q"><use href="#p"/></g></defs><use href="#q"/>`,
			`<defs><rect id="q" width="1" height="1"/></defs><use href="#Q"/>`,
			`<defs><rect id="q" width="1" height="1"/></defs><use href="#q" x="k"/>`)
		r.mustFail(`<svg xmlns:xlink="x" viewBox="0 0 9 9">`+bad+`</svg>`, "missing, unsupported or circular reference")
	}
}

// ---- C16 ----

func c16(r *R, g *G) {
	g.opts = genOpts{styles: .4, shapes: "rlgP", cmds: straight + curves, groups: true, defs: true, grads: true, masks: true, unknown: .5}
	doc, root := g.document()
	checkDoc(r, g, doc, root)
	// an unknown path command is skipped
	var segs []string
	kinds := straight + curves + "a"
	n := 1 + g.Intn(4)
	add := func() {
		k := kinds[g.Intn(len(kinds))]
		a := g.nums(argc[k])
		if k == 'a' {
			a = []num{g.size(), g.size(), mk("0"), mk("0"), mk("1"), g.num(), g.num()}
		}
		if g.p(.5) {
			k -= 32
		}
		segs = append(segs, string(k)+g.list(a))
	}
	for i := 0; i < n; i++ {
		add()
	}
	unknown := g.pick("B", "b", "x", "K", "p", "j", "ö") + g.list(g.nums(g.Intn(4)))
	at := g.Intn(len(segs) + 1)
	good := "M3 4" + strings.Join(segs, "")
	bad := "M3 4" + strings.Join(segs[:at], "") + unknown + strings.Join(segs[at:], "")
	gd, bd := simple(`<path d="`+esc(good)+`"/>`), simple(`<path d="`+esc(bad)+`"/>`)
	want := r.mustParse(gd, svg.StrictErrorMode)
	for _, m := range []svg.ErrorMode{svg.IgnoreErrorMode, svg.WarnErrorMode} {
		got := r.mustParse(bd, m)
		if fmt.Sprint(got.SvgPaths) != fmt.Sprint(want.SvgPaths) {
			r.fail(fmt.Sprintf("svg.Parse(input, %d)", m), bd, "paths %v, without the unknown command %v", got.SvgPaths, want.SvgPaths)
		}
	}
	r.cur = bd
	if _, err := r.parse(bd, svg.StrictErrorMode); err == nil {
		r.fail("svg.Parse(input, 2)", bd, "no error for an unknown command in strict mode")
	}
	// errors in every mode
	if r.n%5 == 0 {
		x := g.pick("", "   ", "<!-- nothing -->", "<?xml version=\"1.0\"?>", "<svg>", "<svg></g>", "<svg><rect></svg>", "<svg a=1/>", "<svg><rect x=\"1\" width=\"q\"/></svg>", "not xml <", "<svg>&nope;</svg>", "<svg/><", "<svg><g></svg></g>", "<svg><path d=\"M1\"/></svg>")
		r.mustFail(x, "malformed or empty document")
	}
}

// ---- C17 ----

func c17(r *R, g *G) {
	o := allOpts
	o.units, o.styles, o.transform = .1, .2, .1
	g.opts = o
	doc, root := g.document()
	checkDoc(r, g, doc, root)
	// viewBox, width and height in any combination
	var as []string
	var vb [4]float64
	var W, H string
	var w, h float64
	hasVB := g.p(.6)
	if hasVB {
		var ns []num
		for i := 0; i < 4; i++ {
			n := g.num()
			if i > 1 {
				n = g.size()
				if g.p(.15) {
					n = mk("0")
				}
			}
			vb[i] = n.v
			ns = append(ns, n)
		}
		as = append(as, `viewBox="`+esc(g.list(ns))+`"`)
	}
	u := func() (num, string) {
		n := g.size()
		k := g.Intn(len(unitNames))
		return num{n.v * unitPx[k], n.s + unitNames[k]}, n.s + unitNames[k]
	}
	if g.p(.6) {
		n, s := u()
		w, W = n.v, s
		as = append(as, `width="`+s+`"`)
	}
	if g.p(.6) {
		n, s := u()
		h, H = n.v, s
		as = append(as, `height="`+s+`"`)
	}
	if vb[2] == 0 {
		vb[2] = w
	}
	if vb[3] == 0 {
		vb[3] = h
	}
	g.Shuffle(len(as), func(i, j int) { as[i], as[j] = as[j], as[i] })
	inner := g.pick("", `<svg viewBox="1 2 3 4" width="5" height="6"/>`, `<g><svg width="5" height="6"><rect width="1" height="1"/></svg></g>`)
	doc2 := "<svg " + strings.Join(as, " ") + ">" + inner + "</svg>"
	s := r.mustParse(doc2, svg.StrictErrorMode)
	if b := s.ViewBox; !near(b.X, vb[0]) || !near(b.Y, vb[1]) || !near(b.W, vb[2]) || !near(b.H, vb[3]) {
		r.fail("svg.Parse", doc2, "viewBox %v, expected %v", b, vb)
	}
	if s.Width != W || s.Height != H {
		r.fail("svg.Parse", doc2, "width %q height %q, expected %q %q", s.Width, s.Height, W, H)
	}
	if r.n%10 == 0 {
		r.mustFail(`<svg viewBox="`+g.list(g.nums(g.pickInt(0, 1, 2, 3, 5, 6)))+`"/>`, "viewBox without four numbers")
	}
}

// ---- C18 ----

func c18(r *R, g *G) {
	s := &svg.Svg{ViewBox: svg.Bounds{X: g.Float64()*200 - 100, Y: g.Float64()*200 - 100, W: g.Float64()*300 + .1, H: g.Float64()*300 + .1}}
	op := math.Round(g.Float64()*1000) / 1000
	x, y, w, h := g.Float64()*200-100, g.Float64()*200-100, g.Float64()*300+.1, g.Float64()*300+.1
	if g.p(.2) {
		x, y = 0, 0
	}
	var opts []renderer.RenderOption
	desc := ""
	wantOp, target := 1.0, false
	for i := 0; i < g.Intn(4); i++ {
		if g.p(.5) {
			v := math.Round(g.Float64()*1000) / 1000
			if g.p(.2) {
				v = op
			}
			opts = append(opts, renderer.Opacity(v))
			wantOp = v
			desc += fmt.Sprintf("Opacity(%v) ", v)
		} else {
			if g.p(.5) {
				x, y, w, h = g.Float64()*200-100, g.Float64()*200-100, g.Float64()*300+.1, g.Float64()*300+.1
			}
			opts = append(opts, renderer.Target(x, y, w, h))
			target = true
			desc += fmt.Sprintf("Target(%v,%v,%v,%v) ", x, y, w, h)
		}
	}
	in := fmt.Sprintf("viewBox %+v options %s", s.ViewBox, desc)
	r.cur = in
	r.count["Options"]++
	o := renderer.Options(s, opts...)
	if o.Opacity != wantOp {
		r.fail("renderer.Options", in, "opacity %g, expected %g", o.Opacity, wantOp)
	}
	if !target {
		if msg := cmpMat(o.Target, ident); msg != "" {
			r.fail("renderer.Options", in, "%s", msg)
		}
		return
	}
	m := matOf(o.Target)
	vb := s.ViewBox
	for _, c := range [][2]float64{{0, 0}, {1, 0}, {0, 1}, {1, 1}} {
		got := m.apply(pt{vb.X + c[0]*vb.W, vb.Y + c[1]*vb.H})
		if math.Hypot(got.x-x-c[0]*w, got.y-y-c[1]*h) > 1e-5 {
			r.fail("renderer.Options", in, "corner %v goes to %v, expected (%g,%g); transform %v", c, got, x+c[0]*w, y+c[1]*h, m)
		}
	}
}

// ---- C21 ----

func c21(r *R, g *G) {
	var p svg.Path
	var want []string
	c := func() fixed.Int26_6 {
		switch g.Intn(4) {
		case 0:
			return fixed.Int26_6(g.Intn(64))
		case 1:
			return fixed.Int26_6(g.Intn(2001) - 1000)
		case 2:
			return fixed.Int26_6((g.Intn(200) - 100) * 64)
		}
		return fixed.Int26_6(g.Intn(2000000) - 1000000)
	}
	f := func(v fixed.Int26_6) string {
		// v/64 has at most six decimals; three, rounded half to even
		return strconv.FormatFloat(float64(v)/64, 'f', 3, 64)
	}
	q := func() fixed.Point26_6 { return fixed.Point26_6{X: c(), Y: c()} }
	for i := 0; i < g.Intn(6); i++ {
		a, b, d := q(), q(), q()
		switch g.Intn(5) {
		case 0:
			p.Start(a)
			want = append(want, "M"+f(a.X)+","+f(a.Y))
		case 1:
			p.Line(a)
			want = append(want, "L"+f(a.X)+","+f(a.Y))
		case 2:
			p.QuadBezier(a, b)
			want = append(want, "Q"+f(a.X)+","+f(a.Y)+","+f(b.X)+","+f(b.Y))
		case 3:
			p.CubeBezier(a, b, d)
			want = append(want, "C"+f(a.X)+","+f(a.Y)+","+f(b.X)+","+f(b.Y)+","+f(d.X)+","+f(d.Y))
		default:
			p.Stop(true)
			want = append(want, "Z")
		}
	}
	in := fmt.Sprintf("%#v", p)
	r.cur = in
	w := strings.Join(want, " ")
	r.count["Path.String"]++
	if len(p) != len(want) {
		r.fail("Path.Start/Line/...", in, "%d operations, expected %q", len(p), w)
	}
	if got := p.ToSVGPath(); got != w {
		r.fail("Path.ToSVGPath()", in, "%q, expected %q", got, w)
	}
	if got := p.String(); got != w {
		r.fail("Path.String()", in, "%q, expected %q", got, w)
	}
	for i, op := range p {
		if got := op.String(); got != want[i] {
			r.fail("String()", fmt.Sprintf("%#v", op), "%q, expected %q", got, want[i])
		}
	}
}
