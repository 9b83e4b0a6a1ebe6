package main

// Documents as trees with their meaning, and the evaluation of the meaning:
// what the parser has to deliver for the document.

import (
	"fmt"
	"image/color"
	"math"
	"sort"
	"strings"

	"github.com/lafriks/go-svg"
	"golang.org/x/image/colornames"
)

type genOpts struct {
	units     float64 // probability of a unit or percentage
	styles    float64 // probability that an element carries declarations
	transform float64
	cmds      string // path commands used
	shapes    string // r rect, o rounded, c circle, e ellipse, l line, p polyline, g polygon, P path
	groups    bool
	grads     bool
	defs      bool
	masks     bool
	titles    bool
	nested    bool // nested svg elements
	nonpos    float64
	unknown   float64
}

type mat [6]float64 // A B C D E F

var ident = mat{1, 0, 0, 1, 0, 0}

func (a mat) mul(b mat) mat {
	return mat{
		a[0]*b[0] + a[2]*b[1], a[1]*b[0] + a[3]*b[1],
		a[0]*b[2] + a[2]*b[3], a[1]*b[2] + a[3]*b[3],
		a[0]*b[4] + a[2]*b[5] + a[4], a[1]*b[4] + a[3]*b[5] + a[5],
	}
}

func (a mat) apply(p pt) pt {
	return pt{a[0]*p.x + a[2]*p.y + a[4], a[1]*p.x + a[3]*p.y + a[5]}
}

func matOf(m svg.Matrix2D) mat { return mat{m.A, m.B, m.C, m.D, m.E, m.F} }

type rgrad struct {
	radial bool
	dir    []float64
	user   bool
	spread svg.SpreadMethod
	m      mat
	stops  []rstop
	bounds [4]float64
}

type rstop struct {
	c       *color.NRGBA // nil: not given
	off, op float64
}

type paint struct {
	kind int // 0 none, 1 colour, 2 gradient
	c    color.NRGBA
	g    *rgrad
}

type rstyle struct {
	fillOp, lineOp, lw float64
	nonzero            bool
	miter              float64
	join               svg.JoinMode
	trail, lead        svg.CapMode
	gap                svg.GapMode
	dash               []float64
	dashOff            float64
	fill, line         paint
	masks              []string
	tr                 mat
}

func defStyle() rstyle {
	return rstyle{fillOp: 1, lineOp: 1, lw: 2, nonzero: true, miter: 4, join: svg.Bevel, trail: svg.ButtCap,
		fill: paint{kind: 1, c: color.NRGBA{0, 0, 0, 255}}, tr: ident}
}

type decl struct {
	name, val string
	apply     func(e *eval, s *rstyle)
	keyword   bool // an unsupported keyword: an error in strict mode
}

type node struct {
	tag       string
	id        string
	attrs     [][2]string // attributes other than declarations
	pres      []decl
	style     []decl
	kids      []*node
	text      string // for title and desc
	geom      []rop  // for shapes
	grad      *rgrad
	stop      *rstop
	href      string
	dx, dy    float64
	box       [4]float64 // of a mask
	unknown   bool
	textParts []string // raw XML pieces of the text
}

func esc(s string) string {
	return strings.NewReplacer("&", "&amp;", "<", "&lt;", "\"", "&quot;", "\n", "&#10;", "\t", "&#9;", "\r", "&#13;").Replace(s)
}

func (g *G) xml(n *node) string {
	var b strings.Builder
	g.write(&b, n)
	return b.String()
}

func (g *G) write(b *strings.Builder, n *node) {
	b.WriteString("<" + n.tag)
	var as []string
	if n.id != "" {
		as = append(as, fmt.Sprintf(` id="%s"`, n.id))
	}
	for _, a := range n.attrs {
		as = append(as, fmt.Sprintf(` %s="%s"`, a[0], esc(a[1])))
	}
	if g.p(.3) {
		g.Shuffle(len(as), func(i, j int) { as[i], as[j] = as[j], as[i] })
	}
	for _, d := range n.pres {
		as = append(as, fmt.Sprintf(` %s="%s"`, d.name, esc(d.val)))
	}
	if len(n.style) > 0 {
		var ds []string
		for _, d := range n.style {
			nm := d.name
			if g.p(.1) {
				nm = strings.ToUpper(nm)
			}
			ds = append(ds, g.pick("", " ")+nm+g.pick(":", ": ", " : ")+d.val+g.pick("", " "))
		}
		st := fmt.Sprintf(` style="%s"`, esc(strings.Join(ds, ";")+g.pick("", ";")))
		i := g.Intn(len(as) + 1)
		as = append(as[:i:i], append([]string{st}, as[i:]...)...)
	}
	b.WriteString(strings.Join(as, ""))
	if len(n.kids) == 0 && len(n.textParts) == 0 {
		b.WriteString("/>")
		return
	}
	b.WriteString(">")
	for _, t := range n.textParts {
		b.WriteString(t)
	}
	for _, k := range n.kids {
		g.write(b, k)
	}
	b.WriteString("</" + n.tag + ">")
}

// ---- meaning ----

type rpath struct {
	ops   []rop
	style rstyle
}

type rmask struct {
	box   [4]float64
	paths []rpath
}

type rdoc struct {
	paths  []rpath
	masks  map[string]*rmask
	titles []string
	descs  []string
}

type eval struct {
	doc    *rdoc
	grads  map[string]*rgrad
	defs   map[string]*node
	active []string
	err    string // expected error
	strict string // expected error in strict mode only
}

func evaluate(root *node) *eval {
	e := &eval{doc: &rdoc{masks: map[string]*rmask{}}, grads: map[string]*rgrad{}, defs: map[string]*node{}}
	e.elem(root, defStyle(), nil, false, false)
	return e
}

func (e *eval) collect(n *node) {
	// definitions are recorded when their element ends
	for _, k := range n.kids {
		if k.tag != "mask" && k.grad == nil {
			e.collect(k)
		}
	}
	if n.id != "" {
		e.defs[n.id] = n
	}
}

func (e *eval) elem(n *node, s rstyle, mask *rmask, inDefs, inst bool) {
	s.masks = append([]string{}, s.masks...)
	for _, d := range n.pres {
		if d.keyword {
			e.strict = d.name + "=" + d.val
		}
		d.apply(e, &s)
	}
	for _, d := range n.style {
		if d.keyword {
			e.strict = d.name + "=" + d.val
		}
		d.apply(e, &s)
	}
	if n.unknown && !inDefs {
		e.strict = "element " + n.tag
	}
	switch {
	case n.grad != nil:
		if !inst && n.id != "" {
			g := *n.grad
			e.grads[n.id] = &g
		}
		return
	case n.tag == "mask":
		if inst {
			return
		}
		m := &rmask{box: n.box}
		for _, k := range n.kids {
			e.elem(k, s, m, false, false)
		}
		e.doc.masks[n.id] = m
		return
	case n.tag == "defs":
		for _, k := range n.kids {
			e.elem(k, s, mask, true, inst)
			e.collect2(k)
		}
		return
	}
	if inDefs {
		for _, k := range n.kids {
			e.elem(k, s, mask, true, inst)
			e.collect2(k)
		}
		return
	}
	switch {
	case n.tag == "use":
		d, ok := e.defs[n.href]
		if !ok {
			e.err = "unknown definition " + n.href
			return
		}
		for _, a := range e.active {
			if a == n.href {
				e.err = "circular reference " + n.href
				return
			}
		}
		e.active = append(e.active, n.href)
		s.tr = s.tr.mul(mat{1, 0, 0, 1, n.dx, n.dy})
		e.elem(d, s, mask, false, true)
		e.active = e.active[:len(e.active)-1]
		return
	case (n.tag == "title" || n.tag == "desc") && inst:
		return
	case n.tag == "title":
		e.doc.titles = append(e.doc.titles, n.text)
		return
	case n.tag == "desc":
		e.doc.descs = append(e.doc.descs, n.text)
		return
	}
	if len(n.geom) > 0 {
		p := rpath{n.geom, s}
		if mask != nil {
			mask.paths = append(mask.paths, p)
		} else {
			e.doc.paths = append(e.doc.paths, p)
		}
	}
	for _, k := range n.kids {
		e.elem(k, s, mask, false, inst)
	}
}

func (e *eval) collect2(n *node) {
	if n.tag != "mask" && n.grad == nil && n.id != "" {
		e.defs[n.id] = n
	}
}

// ---- generation of declarations ----

func colorText(g *G) (string, paint) {
	switch g.Intn(6) {
	case 0:
		n := colornames.Names[g.Intn(len(colornames.Names))]
		c := colornames.Map[n]
		if g.p(.2) {
			n = strings.ToUpper(n)
		} else if g.p(.2) {
			n = strings.ToUpper(n[:1]) + n[1:]
		}
		return n, paint{kind: 1, c: color.NRGBA{c.R, c.G, c.B, 255}}
	case 1:
		r, gr, b := g.Intn(16), g.Intn(16), g.Intn(16)
		s := fmt.Sprintf("#%x%x%x", r, gr, b)
		if g.p(.5) {
			s = strings.ToUpper(s)
		}
		return s, paint{kind: 1, c: color.NRGBA{uint8(r * 17), uint8(gr * 17), uint8(b * 17), 255}}
	case 2:
		r, gr, b := g.Intn(256), g.Intn(256), g.Intn(256)
		s := fmt.Sprintf("#%02x%02x%02x", r, gr, b)
		if g.p(.5) {
			s = strings.ToUpper(s)
		}
		return s, paint{kind: 1, c: color.NRGBA{uint8(r), uint8(gr), uint8(b), 255}}
	case 3, 4:
		var c [3]uint8
		var ts []string
		pct := g.p(.5)
		for i := range c {
			lim := 255
			if pct {
				lim = 100
			}
			n := g.Intn(lim + 1)
			switch {
			case g.p(.1):
				n = lim + 1 + g.Intn(400)
			case g.p(.1):
				n = -1 - g.Intn(300)
			case g.p(.1):
				n = g.pickInt(0, lim)
			}
			m := n
			if m < 0 {
				m = 0
			}
			if m > lim {
				m = lim
			}
			t := fmt.Sprint(n)
			if pct {
				t += g.pick("%", " %")
				c[i] = uint8(m * 255 / 100)
			} else {
				c[i] = uint8(m)
			}
			ts = append(ts, g.pick("", " ")+t+g.pick("", " "))
		}
		return "rgb(" + strings.Join(ts, ",") + ")", paint{kind: 1, c: color.NRGBA{c[0], c[1], c[2], 255}}
	}
	return g.pick("none", "none", "NONE"), paint{}
}

func (g *G) pickInt(xs ...int) int { return xs[g.Intn(len(xs))] }

func paintColor(p paint) color.NRGBA {
	switch p.kind {
	case 1:
		return p.c
	case 2:
		for _, s := range p.g.stops {
			if s.c != nil {
				return *s.c
			}
		}
	}
	return color.NRGBA{0, 0, 0, 255}
}

func resolve(e *eval, id string, cur paint) (paint, bool) {
	gr, ok := e.grads[id]
	if !ok {
		return paint{}, false
	}
	c := *gr
	c.stops = append([]rstop{}, gr.stops...)
	for i := range c.stops {
		if c.stops[i].c == nil {
			k := paintColor(cur)
			c.stops[i].c = &k
		}
	}
	return paint{kind: 2, g: &c}, true
}

func opacityText(g *G) (string, float64) {
	var v float64
	var t string
	switch g.Intn(6) {
	case 0:
		v, t = 1.5+g.Float64(), ""
		t = fmt.Sprintf("%.2f", v)
		v = 1
	case 1:
		t, v = fmt.Sprintf("-%.2f", g.Float64()+.01), 0
	case 2:
		n := g.Intn(101)
		t, v = fmt.Sprintf("%d%%", n), float64(n)/100
	case 3:
		t, v = "140%", 1
	default:
		n := g.Intn(1001)
		t, v = fmt.Sprintf("%.3f", float64(n)/1000), float64(n)/1000
	}
	return t, v
}

var capWords = []string{"butt", "round", "square", "cubic", "quadratic"}
var capVals = []svg.CapMode{svg.ButtCap, svg.RoundCap, svg.SquareCap, svg.CubicCap, svg.QuadraticCap}
var joinWords = []string{"miter", "miter-clip", "arc-clip", "round", "arc", "bevel"}
var joinVals = []svg.JoinMode{svg.Miter, svg.MiterClip, svg.ArcClip, svg.Round, svg.Arc, svg.Bevel}
var gapWords = []string{"flat", "round", "cubic", "quadratic"}
var gapVals = []svg.GapMode{svg.FlatGap, svg.RoundGap, svg.CubicGap, svg.QuadraticGap}

var declNames = []string{"fill", "stroke", "fill-rule", "stroke-linegap", "stroke-leadlinecap", "stroke-linecap", "stroke-linejoin",
	"stroke-miterlimit", "stroke-width", "stroke-dashoffset", "stroke-dasharray", "opacity", "stroke-opacity", "fill-opacity", "mask", "x-unknown"}

func (g *G) decl(name string, d *docState) decl {
	out := decl{name: name, apply: func(*eval, *rstyle) {}}
	kw := func(words []string, set func(s *rstyle, i int)) {
		if g.opts.unknown > 0 && g.p(g.opts.unknown/2) {
			out.val, out.keyword = g.pick("weird", "inherit", "butts", "Round "+"x"), true
			return
		}
		i := g.Intn(len(words))
		out.val = words[i]
		out.apply = func(_ *eval, s *rstyle) { set(s, i) }
	}
	switch name {
	case "fill", "stroke":
		fill := name == "fill"
		if len(d.grads) > 0 && g.p(.4) {
			id := d.grads[g.Intn(len(d.grads))]
			out.val = g.pick("url(#"+id+")", "url(#"+id+")", "url( #"+id+" )")
			out.apply = func(e *eval, s *rstyle) {
				tgt := &s.line
				if fill {
					tgt = &s.fill
				}
				if q, ok := resolve(e, id, *tgt); ok {
					*tgt = q
				}
			}
			return out
		}
		t, q := colorText(g)
		out.val = t
		out.apply = func(_ *eval, s *rstyle) {
			if fill {
				s.fill = q
			} else {
				s.line = q
			}
		}
	case "fill-rule":
		kw([]string{"evenodd", "nonzero"}, func(s *rstyle, i int) { s.nonzero = i == 1 })
	case "stroke-linegap":
		kw(gapWords, func(s *rstyle, i int) { s.gap = gapVals[i] })
	case "stroke-leadlinecap":
		kw(capWords, func(s *rstyle, i int) { s.lead = capVals[i] })
	case "stroke-linecap":
		kw(capWords, func(s *rstyle, i int) { s.trail = capVals[i] })
	case "stroke-linejoin":
		kw(joinWords, func(s *rstyle, i int) { s.join = joinVals[i] })
	case "stroke-miterlimit":
		n := g.size()
		out.val = n.s
		out.apply = func(_ *eval, s *rstyle) { s.miter = n.v }
	case "stroke-width":
		n := g.length(g.size(), perD)
		out.val = n.s
		out.apply = func(_ *eval, s *rstyle) { s.lw = n.v }
	case "stroke-dashoffset":
		n := g.length(g.num(), perD)
		out.val = n.s
		out.apply = func(_ *eval, s *rstyle) { s.dashOff = n.v }
	case "stroke-dasharray":
		if g.p(.3) {
			out.val = "none"
			out.apply = func(_ *eval, s *rstyle) { s.dash = nil }
			break
		}
		var ns []num
		var ts []string
		for i, k := 0, 1+g.cnt(4); i < k; i++ {
			n := g.length(g.size(), perD)
			n.s = strings.ReplaceAll(n.s, " ", "")
			ns = append(ns, n)
			ts = append(ts, n.s)
		}
		out.val = strings.Join(ts, g.pick(" ", ",", ", "))
		out.apply = func(_ *eval, s *rstyle) { s.dash = vals(ns) }
	case "opacity", "stroke-opacity", "fill-opacity":
		t, v := opacityText(g)
		out.val = t
		out.apply = func(_ *eval, s *rstyle) {
			if name != "stroke-opacity" {
				s.fillOp *= v
			}
			if name != "fill-opacity" {
				s.lineOp *= v
			}
		}
	case "mask":
		id := fmt.Sprintf("k%d", g.Intn(4))
		if len(d.masks) > 0 && g.p(.7) {
			id = d.masks[g.Intn(len(d.masks))]
		}
		out.val = "url(#" + id + ")"
		out.apply = func(_ *eval, s *rstyle) { s.masks = append(s.masks[:len(s.masks):len(s.masks)], id) }
	case "x-unknown":
		out.name = g.pick("font-size", "clip-rule", "data-x", "display", "stroke-foo", "fillx")
		out.val = g.pick("12", "red", "none", "url(#a)", "")
	}
	return out
}

// transforms

func (g *G) transform() (string, mat) {
	m := ident
	var ts []string
	for i := 0; i < 1+g.Intn(3); i++ {
		t, x := g.transform1()
		ts = append(ts, t)
		m = m.mul(x)
	}
	return strings.Join(ts, g.pick("", " ", "  ", "\n")), m
}

func (g *G) smallNum() num {
	return mk(fmt.Sprintf("%.3f", g.Float64()*6-3))
}

func (g *G) transform1() (string, mat) {
	name := g.pick("matrix", "translate", "scale", "rotate", "skewX", "skewY")
	var ns []num
	var m mat
	switch name {
	case "matrix":
		for i := 0; i < 4; i++ {
			ns = append(ns, g.smallNum())
		}
		ns = append(ns, g.num(), g.num())
		v := vals(ns)
		copy(m[:], v)
	case "translate":
		ns = g.nums(1 + g.Intn(2))
		m = mat{1, 0, 0, 1, ns[0].v, 0}
		if len(ns) == 2 {
			m[5] = ns[1].v
		}
	case "scale":
		ns = append(ns, g.smallNum())
		m = mat{ns[0].v, 0, 0, ns[0].v, 0, 0}
		if g.p(.5) {
			ns = append(ns, g.smallNum())
			m[3] = ns[1].v
		}
	case "rotate":
		ns = append(ns, g.num())
		s, c := math.Sincos(ns[0].v * math.Pi / 180)
		m = mat{c, s, -s, c, 0, 0}
		if g.p(.5) {
			ns = append(ns, g.num(), g.num())
			x, y := ns[1].v, ns[2].v
			m = mat{1, 0, 0, 1, x, y}.mul(m).mul(mat{1, 0, 0, 1, -x, -y})
		}
	case "skewX", "skewY":
		n := mk(fmt.Sprintf("%.2f", g.Float64()*120-60))
		ns = append(ns, n)
		t := math.Tan(n.v * math.Pi / 180)
		if name == "skewX" {
			m = mat{1, 0, t, 1, 0, 0}
		} else {
			m = mat{1, t, 0, 1, 0, 0}
		}
	}
	if g.p(.15) {
		name = strings.ToUpper(name)
	} else if g.p(.15) {
		name = strings.ToLower(name)
	}
	return name + g.pick("", "", " ") + "(" + g.pick("", " ") + g.list(ns) + g.pick("", " ") + ")", m
}

// ---- generation of documents ----

type docState struct {
	grads  []string
	masks  []string
	defs   []string
	weight map[string]int // of each definition, expanded
	inDef  bool
}

func (g *G) decls(n *node, d *docState) {
	if !g.p(g.opts.styles) {
		return
	}
	names := append([]string{}, declNames...)
	g.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	k := 1 + g.Intn(4)
	if g.big {
		k = 1 + g.Intn(len(names))
	}
	for _, nm := range names[:k] {
		if nm == "mask" && !g.opts.masks {
			continue
		}
		dd := g.decl(nm, d)
		if g.p(.5) {
			n.pres = append(n.pres, dd)
		} else {
			n.style = append(n.style, dd)
		}
		// a property both as attribute and in the style attribute
		if len(n.pres) > 0 && g.p(.15) {
			q := n.pres[len(n.pres)-1]
			if q.name == "fill" || q.name == "stroke" || q.name == "stroke-width" || q.name == "stroke-linejoin" || q.name == "fill-rule" || q.name == "stroke-dasharray" {
				dup := false
				for _, x := range n.style {
					dup = dup || x.name == q.name
				}
				if !dup {
					n.style = append(n.style, g.decl(q.name, d))
				}
			}
		}
	}
	g.Shuffle(len(n.pres), func(i, j int) { n.pres[i], n.pres[j] = n.pres[j], n.pres[i] })
}

func (g *G) transformDecl(n *node) {
	if !g.p(g.opts.transform) {
		return
	}
	t, m := g.transform()
	d := decl{name: "transform", val: t, apply: func(_ *eval, s *rstyle) { s.tr = s.tr.mul(m) }}
	if g.p(.85) {
		n.pres = append(n.pres, d)
	} else {
		n.style = append(n.style, d)
	}
}

func (g *G) length1(n *node, name string, v num, ref int, skip float64) float64 {
	if g.p(skip) {
		return 0
	}
	l := g.length(v, ref)
	n.attrs = append(n.attrs, [2]string{name, l.s})
	return l.v
}

func (g *G) shape(d *docState) *node {
	n := &node{}
	k := g.opts.shapes[g.Intn(len(g.opts.shapes))]
	sz := func() num {
		if g.p(g.opts.nonpos) {
			return mk(g.pick("0", "-3", "-0.5"))
		}
		return g.size()
	}
	switch k {
	case 'r', 'o':
		n.tag = "rect"
		x := g.length1(n, "x", g.num(), perW, .15)
		y := g.length1(n, "y", g.num(), perH, .15)
		w := g.length1(n, "width", sz(), perW, g.opts.nonpos/2)
		h := g.length1(n, "height", sz(), perH, g.opts.nonpos/2)
		var rx, ry float64
		if k == 'o' {
			switch g.Intn(3) {
			case 0:
				rx = g.length1(n, "rx", g.size(), perW, 0)
				ry = rx
			case 1:
				ry = g.length1(n, "ry", g.size(), perH, 0)
				rx = ry
			default:
				rx = g.length1(n, "rx", g.size(), perW, 0)
				ry = g.length1(n, "ry", g.size(), perH, 0)
			}
		}
		if w > 0 && h > 0 {
			rx, ry = math.Min(rx, w/2), math.Min(ry, h/2)
			if k == 'o' {
				n.geom = []rop{{k: 'R', rr: [6]float64{x, y, w, h, rx, ry}}}
			} else {
				n.geom = []rop{{k: 'M', p: []pt{{x, y}}}, {k: 'L', p: []pt{{x + w, y}}}, {k: 'L', p: []pt{{x + w, y + h}}}, {k: 'L', p: []pt{{x, y + h}}}, {k: 'Z'}}
			}
		}
	case 'c', 'e':
		n.tag = "circle"
		if k == 'e' {
			n.tag = "ellipse"
		}
		cx := g.length1(n, "cx", g.num(), perW, .15)
		cy := g.length1(n, "cy", g.num(), perH, .15)
		var rx, ry float64
		if k == 'c' {
			rx = g.length1(n, "r", sz(), perD, g.opts.nonpos/2)
			ry = rx
		} else {
			rx = g.length1(n, "rx", sz(), perW, g.opts.nonpos/2)
			ry = g.length1(n, "ry", sz(), perH, g.opts.nonpos/2)
		}
		if rx > 0 && ry > 0 {
			s := pt{cx + rx, cy}
			n.geom = []rop{{k: 'M', p: []pt{s}}, {k: 'E', a: arcP{from: pt{cx, cy}, to: s, rx: rx, ry: ry}}, {k: 'Z'}}
		}
	case 'l':
		n.tag = "line"
		x1 := g.length1(n, "x1", g.num(), perW, .15)
		y1 := g.length1(n, "y1", g.num(), perH, .15)
		x2 := g.length1(n, "x2", g.num(), perW, .15)
		y2 := g.length1(n, "y2", g.num(), perH, .15)
		n.geom = []rop{{k: 'M', p: []pt{{x1, y1}}}, {k: 'L', p: []pt{{x2, y2}}}}
	case 'p', 'g':
		n.tag = "polyline"
		if k == 'g' {
			n.tag = "polygon"
		}
		ns := g.nums(2 * (2 + g.cnt(5)))
		if g.p(.08) {
			break // without points nothing is drawn
		}
		n.attrs = append(n.attrs, [2]string{"points", g.list(ns)})
		for i := 0; i < len(ns); i += 2 {
			c := byte('L')
			if i == 0 {
				c = 'M'
			}
			n.geom = append(n.geom, rop{k: c, p: []pt{{ns[i].v, ns[i+1].v}}})
		}
		if k == 'g' {
			n.geom = append(n.geom, rop{k: 'Z'})
		}
	default:
		n.tag = "path"
		s, ops := g.pathData(g.opts.cmds, 1+g.cnt(6))
		n.attrs = append(n.attrs, [2]string{"d", s})
		n.geom = ops
	}
	g.decls(n, d)
	g.transformDecl(n)
	return n
}

func (g *G) newID(p string) string {
	g.ids++
	return fmt.Sprintf("%s%d", p, g.ids)
}

func (g *G) gradient(d *docState) *node {
	n := &node{grad: &rgrad{m: ident, bounds: g.vb}}
	n.id = g.newID("g")
	r := n.grad
	r.user = g.p(.5)
	if r.user || g.p(.3) {
		n.attrs = append(n.attrs, [2]string{"gradientUnits", map[bool]string{true: "userSpaceOnUse", false: "objectBoundingBox"}[r.user]})
	}
	box := [4]float64{0, 0, 1, 1}
	if r.user {
		box = g.vb
	}
	coord := func(name string, def float64, ref int) float64 {
		if g.p(.3) {
			return percent(box, def, ref)
		}
		x := g.size()
		if g.p(.6) {
			n.attrs = append(n.attrs, [2]string{name, x.s + "%"})
			return percent(box, x.v, ref)
		}
		n.attrs = append(n.attrs, [2]string{name, x.s})
		return x.v
	}
	has := func(name string) bool {
		for _, a := range n.attrs {
			if a[0] == name {
				return true
			}
		}
		return false
	}
	if g.p(.5) {
		n.tag = "linearGradient"
		r.dir = []float64{coord("x1", 0, perW), coord("y1", 0, perH), coord("x2", 100, perW), coord("y2", 0, perH)}
	} else {
		n.tag = "radialGradient"
		r.radial = true
		cx, cy := coord("cx", 50, perW), coord("cy", 50, perH)
		fx, fy := coord("fx", 0, perW), coord("fy", 0, perH)
		if !has("fx") {
			fx = cx
		}
		if !has("fy") {
			fy = cy
		}
		r.dir = []float64{cx, cy, fx, fy, coord("r", 50, perD), coord("fr", 0, perD)}
	}
	if g.p(.5) {
		i := g.Intn(3)
		n.attrs = append(n.attrs, [2]string{"spreadMethod", []string{"pad", "reflect", "repeat"}[i]})
		r.spread = []svg.SpreadMethod{svg.PadSpread, svg.ReflectSpread, svg.RepeatSpread}[i]
	}
	if g.p(.4) {
		t, m := g.transform()
		n.attrs = append(n.attrs, [2]string{"gradientTransform", t})
		r.m = m
	}
	g.Shuffle(len(n.attrs), func(i, j int) { n.attrs[i], n.attrs[j] = n.attrs[j], n.attrs[i] })
	for i, k := 0, g.cnt(5); i < k; i++ {
		s := &node{tag: "stop", stop: &rstop{op: 1}}
		if g.p(.8) {
			k := g.Intn(101)
			if g.p(.5) {
				s.attrs = append(s.attrs, [2]string{"offset", fmt.Sprintf("%d%%", k)})
			} else {
				s.attrs = append(s.attrs, [2]string{"offset", fmt.Sprintf("%.2f", float64(k)/100)})
			}
			s.stop.off = float64(k) / 100
		}
		styled := ""
		for _, st := range []bool{false, true} {
			if !g.p(.5) {
				continue
			}
			if g.p(.8) {
				t, q := colorText(g)
				if q.kind == 1 {
					c := q.c
					s.stop.c = &c
				} else {
					s.stop.c = nil
				}
				if st {
					styled += "stop-color:" + t + ";"
				} else {
					s.attrs = append(s.attrs, [2]string{"stop-color", t})
				}
			}
			if g.p(.5) {
				t, v := opacityText(g)
				s.stop.op = v
				if st {
					styled += "stop-opacity: " + t
				} else {
					s.attrs = append(s.attrs, [2]string{"stop-opacity", t})
				}
			}
		}
		if styled != "" {
			s.attrs = append(s.attrs, [2]string{"style", styled})
		}
		r.stops = append(r.stops, *s.stop)
		n.kids = append(n.kids, s)
	}
	d.grads = append(d.grads, n.id)
	return n
}

// weigh counts the elements of n with all references expanded
func (d *docState) weigh(n *node) int {
	w := 1 + d.weight[n.href]
	for _, k := range n.kids {
		w += d.weigh(k)
	}
	return w
}

func (g *G) use(d *docState) *node {
	n := &node{tag: "use"}
	n.href = d.defs[g.Intn(len(d.defs))]
	if d.weight[n.href] > 30 {
		return g.shape(d)
	}
	n.attrs = append(n.attrs, [2]string{g.pick("href", "xlink:href"), "#" + n.href})
	n.dx = g.length1(n, "x", g.num(), perW, .3)
	n.dy = g.length1(n, "y", g.num(), perH, .3)
	g.decls(n, d)
	g.transformDecl(n)
	return n
}

func (g *G) group(d *docState, depth int) *node {
	n := &node{tag: "g"}
	g.decls(n, d)
	g.transformDecl(n)
	for i := 0; i < g.Intn(4); i++ {
		n.kids = append(n.kids, g.section(d, depth-1, .05))
	}
	return n
}

// section is content or, with probability p each, nested text, definitions or a mask
func (g *G) section(d *docState, depth int, p float64) *node {
	grads := g.opts.grads
	defer func() { g.opts.grads = grads }()
	g.opts.grads = false // nested gradients start from the inherited transform
	switch {
	case g.opts.titles && g.p(p):
		return g.textNode(g.pick("title", "desc"))
	case g.opts.defs && g.p(p):
		return g.defsNode(d)
	case g.opts.masks && g.p(p):
		return g.maskNode(d)
	}
	g.opts.grads = grads
	return g.content(d, depth)
}

// content is an element that may stand anywhere
func (g *G) content(d *docState, depth int) *node {
	x := g.Intn(10)
	switch {
	case x < 2 && g.opts.groups && depth > 0:
		return g.group(d, depth)
	case x == 2 && g.opts.defs && len(d.defs) > 0:
		return g.use(d)
	case x == 3 && g.p(g.opts.unknown):
		u := &node{tag: g.pick("foo", "text", "filter", "animate", "clipPath"), unknown: true}
		g.decls(u, &docState{})
		return u
	}
	return g.shape(d)
}

func (g *G) textNode(tag string) *node {
	n := &node{tag: tag}
	for i, k := 0, g.cnt(4); i < k; i++ {
		w := g.pick("hello", " ", "a b", "x < y", "ü & é", "12")
		n.text += w
		if g.p(.2) {
			n.textParts = append(n.textParts, "<![CDATA["+w+"]]>")
		} else {
			n.textParts = append(n.textParts, esc(w))
		}
		if g.p(.3) {
			n.textParts = append(n.textParts, "<!-- c -->")
		}
	}
	return n
}

func (g *G) maskNode(d *docState) *node {
	n := &node{tag: "mask", id: g.newID("m")}
	n.box[0] = g.length1(n, "x", g.num(), perW, .3)
	n.box[1] = g.length1(n, "y", g.num(), perH, .3)
	n.box[2] = g.length1(n, "width", g.size(), perW, .3)
	n.box[3] = g.length1(n, "height", g.size(), perH, .3)
	g.decls(n, d)
	for i, k := 0, g.cnt(4); i < k; i++ {
		n.kids = append(n.kids, g.section(d, 1, .1))
	}
	d.masks = append(d.masks, n.id)
	return n
}

func (g *G) setIDs(n *node, d *docState, p float64) {
	if n.grad == nil && n.tag != "mask" && !n.unknown && n.id == "" && g.p(p) {
		n.id = g.newID("d")
		d.defs = append(d.defs, n.id)
		if d.weight == nil {
			d.weight = map[string]int{}
		}
		d.weight[n.id] = d.weigh(n)
	}
	for _, k := range n.kids {
		if n.grad == nil && n.tag != "mask" {
			g.setIDs(k, d, .2)
		}
	}
}

func (g *G) defsNode(d *docState) *node {
	n := &node{tag: "defs"}
	for i := 0; i < 1+g.Intn(4); i++ {
		var k *node
		switch x := g.Intn(8); {
		case x == 0 && g.opts.grads:
			k = g.gradient(d)
		case x == 1 && g.opts.masks:
			k = g.maskNode(d)
		case x < 4 && g.opts.groups:
			k = g.group(d, 2)
		default:
			k = g.content(d, 1)
		}
		g.setIDs(k, d, .8)
		n.kids = append(n.kids, k)
	}
	return n
}

// document generates a whole document and its meaning.
func (g *G) document() (string, *node) {
	root := &node{tag: "svg"}
	switch g.Intn(4) {
	case 0:
		g.vb = [4]float64{0, 0, float64(1 + g.Intn(500)), float64(1 + g.Intn(500))}
	default:
		g.vb = [4]float64{float64(g.Intn(200) - 100), float64(g.Intn(200) - 100), float64(1+g.Intn(4000)) / 8, float64(1+g.Intn(4000)) / 8}
	}
	var ns []num
	for _, v := range g.vb {
		ns = append(ns, mk(fmt.Sprint(v)))
	}
	root.attrs = append(root.attrs, [2]string{"xmlns", "http://www.w3.org/2000/svg"}, [2]string{"xmlns:xlink", "http://www.w3.org/1999/xlink"})
	root.attrs = append(root.attrs, [2]string{"viewBox", g.list(ns)})
	d := &docState{}
	if g.p(.5) {
		saved := g.opts.units
		g.opts.units = 0
		g.decls(root, d)
		g.opts.units = saved
	}
	for i, c := 0, 1+g.cnt(6); i < c; i++ {
		var k *node
		switch x := g.Intn(12); {
		case x < 2 && g.opts.grads:
			k = g.gradient(d)
		case x < 4 && g.opts.defs:
			k = g.defsNode(d)
		case x < 6 && g.opts.masks:
			k = g.maskNode(d)
		case x == 6 && g.opts.titles:
			k = g.textNode(g.pick("title", "desc"))
		case x == 7 && g.opts.nested:
			k = &node{tag: "svg", attrs: [][2]string{{"viewBox", "1 2 3 4"}, {"width", "7"}}}
			k.kids = append(k.kids, g.content(d, 1))
		default:
			k = g.content(d, 3)
		}
		root.kids = append(root.kids, k)
	}
	return g.xml(root), root
}

func keys(m map[string]*rmask) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
