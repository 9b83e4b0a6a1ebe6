package main

import (
	"fmt"
	"image"
	"image/color"
	"math"
	"sort"
	"strings"

	gglib "github.com/fogleman/gg"
	"github.com/lafriks/go-svg"
	"github.com/lafriks/go-svg/renderer"
	rd2d "github.com/lafriks/go-svg/renderer/draw2d"
	rgg "github.com/lafriks/go-svg/renderer/gg"
	rrx "github.com/lafriks/go-svg/renderer/rasterx"
	"github.com/llgcode/draw2d"
	"github.com/srwiley/rasterx"
	"golang.org/x/image/math/fixed"
)

// ---- what a renderer has to do, stated over the document ----

type paintOp struct {
	stroke bool
	ops    []pop
	paint  svg.Pattern
	op     float64 // opacity
	rule   bool    // non-zero
	width  float64
	st     svg.PathStyle
	m      svg.Matrix2D
	path   svg.Path
	mask   string
}

type pop struct {
	k  byte
	ps []pt
}

type rcase struct {
	s     *svg.Svg
	opts  []renderer.RenderOption
	odesc string
	m     mat // target
	op    float64
}

func toM(m mat) svg.Matrix2D {
	return svg.Matrix2D{A: m[0], B: m[1], C: m[2], D: m[3], E: m[4], F: m[5]}
}

func (c *rcase) expected() []paintOp {
	var out []paintOp
	for _, p := range c.s.SvgPaths {
		m := c.m.mul(matOf(p.Style.Transform))
		var ops []pop
		for _, o := range p.Path {
			k, ps := opPts(o)
			q := pop{k: k}
			for _, x := range ps {
				t := m.apply(fpt(x))
				q.ps = append(q.ps, t)
			}
			ops = append(ops, q)
		}
		b := paintOp{ops: ops, st: p.Style, m: toM(m), path: p.Path, rule: p.Style.UseNonZeroWinding, width: p.Style.LineWidth * (m[0] + m[3]) / 2}
		if len(p.Style.Masks) > 0 {
			b.mask = p.Style.Masks[len(p.Style.Masks)-1]
		}
		if p.Style.FillerColor != nil {
			b.paint, b.op = p.Style.FillerColor, p.Style.FillOpacity*c.op
			out = append(out, b)
		}
		if p.Style.LinerColor != nil {
			b.stroke = true
			b.paint, b.op = p.Style.LinerColor, p.Style.LineOpacity*c.op
			out = append(out, b)
		}
	}
	return out
}

func (c *rcase) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "viewBox %+v, options [%s], global opacity %g\n", c.s.ViewBox, c.odesc, c.op)
	show := func(p svg.SvgPath) {
		fmt.Fprintf(&b, "  path %q style %+v\n", p.Path.ToSVGPath(), p.Style)
	}
	for _, p := range c.s.SvgPaths {
		show(p)
	}
	var ids []string
	for id := range c.s.SvgMasks {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		fmt.Fprintf(&b, " mask %q\n", id)
		for _, p := range c.s.SvgMasks[id].SvgPaths {
			show(p)
		}
	}
	return b.String()
}

func (c *rcase) snapshot() string {
	var b strings.Builder
	b.WriteString(c.String())
	show := func(p svg.SvgPath) { fmt.Fprintf(&b, "%#v %#v\n", p.Path, p.Style) }
	for _, p := range c.s.SvgPaths {
		show(p)
	}
	fmt.Fprintf(&b, "%#v %#v %#v %#v %#v %#v", c.s.ViewBox, c.s.Transform, c.s.Titles, c.s.Descriptions, c.s.Width, c.s.Height)
	return b.String()
}

// ---- generation: everything dyadic, so that products are exact ----

func (g *G) dy(n int, den float64) float64 { return float64(g.Intn(2*n+1)-n) / den }

func (g *G) drawPath() svg.Path {
	var p svg.Path
	var seen []fixed.Point26_6
	q1 := func() fixed.Point26_6 {
		if g.p(.2) {
			return fixed.Point26_6{X: fixed.Int26_6(g.Intn(4000)), Y: fixed.Int26_6(g.Intn(4000))}
		}
		return fixed.Point26_6{X: fixed.Int26_6(g.Intn(60) * 64), Y: fixed.Int26_6(g.Intn(60) * 64)}
	}
	// all points of a path differ: the libraries treat degenerate segments
	// each in their own way
	q := func() fixed.Point26_6 {
		for {
			x := q1()
			ok := true
			for _, y := range seen {
				ok = ok && (math.Abs(float64(x.X-y.X)) > 40 || math.Abs(float64(x.Y-y.Y)) > 40)
			}
			if ok || len(seen) > 100 {
				seen = append(seen, x)
				return x
			}
		}
	}
	for s := 0; s < 1+g.Intn(3); s++ {
		p.Start(q())
		for k := 0; k < 1+g.Intn(4); k++ {
			switch g.Intn(4) {
			case 0:
				p.QuadBezier(q(), q())
			case 1:
				p.CubeBezier(q(), q(), q())
			default:
				p.Line(q())
			}
		}
		if g.p(.5) {
			p.Stop(true)
		}
	}
	return p
}

func (g *G) plain() svg.Pattern {
	return svg.NewPlainColor(uint8(g.Intn(256)), uint8(g.Intn(256)), uint8(g.Intn(256)), 255)
}

func (g *G) grad() svg.Gradient {
	var gr svg.Gradient
	gr.Matrix = svg.Identity
	if g.p(.3) {
		gr.Matrix = toM(mat{1, 0, 0, 1, g.dy(8, 4), g.dy(8, 4)})
	}
	gr.Bounds = svg.Bounds{W: 64, H: 32}
	gr.Units = svg.GradientUnits(g.Intn(2))
	gr.Spread = svg.SpreadMethod(g.Intn(3))
	f := func() float64 { return float64(g.Intn(33)) / 32 }
	if gr.Units == svg.UserSpaceOnUse {
		f = func() float64 { return float64(g.Intn(64)) }
	}
	if g.p(.5) {
		gr.Direction = svg.Linear{f(), f(), f(), f()}
	} else {
		cx, cy, r := f(), f(), f()
		fr := 0.
		if g.p(.3) {
			fr = r / 4
		}
		gr.Direction = svg.Radial{cx, cy, cx, cy, r, fr}
	}
	for i := 0; i < 2+g.Intn(3); i++ {
		gr.Stops = append(gr.Stops, svg.GradStop{StopColor: g.plain().(svg.PlainColor), Offset: float64(g.Intn(9)) / 8, Opacity: float64(g.Intn(5)) / 4})
	}
	return gr
}

type rgen struct {
	paints, grads, masks, opacity bool
	free                          bool // any transform, not only exact ones
}

func (g *G) drawStyle(o rgen) svg.PathStyle {
	st := svg.DefaultStyle
	st.Masks = nil
	st.FillerColor, st.LinerColor = nil, nil
	if g.p(.75) {
		st.FillerColor = g.plain()
		if o.grads && g.p(.3) {
			st.FillerColor = g.grad()
		}
	}
	if g.p(.5) {
		st.LinerColor = g.plain()
		if o.grads && g.p(.3) {
			st.LinerColor = g.grad()
		}
	}
	st.LineWidth = float64(1+g.Intn(16)) / 2
	if o.opacity && g.p(.6) {
		st.FillOpacity = float64(g.Intn(9)) / 8
		st.LineOpacity = float64(g.Intn(9)) / 8
	}
	if o.paints {
		st.UseNonZeroWinding = g.p(.5)
		if g.p(.6) {
			st.Join.MiterLimit = fixed.Int26_6(g.Intn(10) * 64)
			st.Join.LineJoin = svg.JoinMode(g.Intn(6))
			st.Join.TrailLineCap = svg.CapMode(g.Intn(6))
			st.Join.LeadLineCap = svg.CapMode(g.Intn(6))
			st.Join.LineGap = svg.GapMode(g.Intn(5))
		}
		if g.p(.4) {
			for i := 0; i < 1+g.Intn(3); i++ {
				st.Dash.Dash = append(st.Dash.Dash, float64(1+g.Intn(8)))
			}
			st.Dash.DashOffset = float64(g.Intn(9))
		}
	}
	if g.p(.5) {
		q := []float64{.25, .5, 1, 1, 1, 1.5, 2}
		m := mat{q[g.Intn(7)], 0, 0, q[g.Intn(7)], g.dy(40, 4), g.dy(40, 4)}
		if g.p(.4) {
			m[1], m[2] = g.dy(4, 4), g.dy(4, 4)
		}
		if o.free && g.p(.5) {
			for i := range m {
				m[i] += g.Float64()
			}
		}
		st.Transform = toM(m)
	}
	return st
}

func (g *G) drawCase(o rgen) *rcase {
	s := &svg.Svg{SvgMasks: map[string]*svg.SvgMask{}, Transform: svg.Identity}
	s.ViewBox = svg.Bounds{X: g.dy(16, 2), Y: g.dy(16, 2), W: 64, H: 32}
	c := &rcase{s: s, m: ident, op: 1}
	for i := 0; i < 1+g.Intn(4); i++ {
		s.SvgPaths = append(s.SvgPaths, svg.SvgPath{Path: g.drawPath(), Style: g.drawStyle(o)})
	}
	if g.p(.2) {
		s.SvgPaths[g.Intn(len(s.SvgPaths))].Path = nil
	}
	if g.p(.5) {
		k := []float64{.5, 1, 2}
		x, y, w, h := g.dy(16, 2), g.dy(16, 2), 64*k[g.Intn(3)], 32*k[g.Intn(3)]
		c.opts = append(c.opts, renderer.Target(x, y, w, h))
		c.odesc += fmt.Sprintf("Target(%g,%g,%g,%g)", x, y, w, h)
		c.m = mat{w / 64, 0, 0, h / 32, x - s.ViewBox.X*w/64, y - s.ViewBox.Y*h/32}
	}
	if o.opacity && g.p(.5) {
		c.op = float64(g.Intn(9)) / 8
		c.opts = append(c.opts, renderer.Opacity(c.op))
		c.odesc += fmt.Sprintf("Opacity(%g)", c.op)
	}
	if o.masks {
		for i := 0; i < 1+g.Intn(2); i++ {
			id := fmt.Sprintf("m%d", i)
			mk := &svg.SvgMask{ID: id}
			for k := 0; k < g.Intn(3); k++ {
				p := svg.SvgPath{Path: g.drawPath(), Style: g.drawStyle(rgen{opacity: true})}
				p.Style.Transform = svg.Identity
				if g.p(.3) {
					p.Style.Masks = []string{fmt.Sprintf("m%d", g.Intn(3))}
				}
				mk.SvgPaths = append(mk.SvgPaths, p)
			}
			s.SvgMasks[id] = mk
		}
		for i := range s.SvgPaths {
			if g.p(.6) {
				s.SvgPaths[i].Style.Masks = []string{fmt.Sprintf("m%d", g.Intn(3))}
			}
		}
	}
	return c
}

// ---- draw2d: a graphic context that records ----

type d2state struct {
	fill, stroke color.Color
	rule         draw2d.FillRule
	width        float64
	cap          draw2d.LineCap
	join         draw2d.LineJoin
	dash         []float64
	off          float64
	tr           draw2d.Matrix
	path         draw2d.Path
}

type d2event struct {
	stroke bool
	path   draw2d.Path
	d2state
}

type d2rec struct {
	draw2d.GraphicContext
	d2state
	stack  []d2state
	events []d2event
}

func newD2() *d2rec {
	return &d2rec{d2state: d2state{fill: color.White, stroke: color.Black, width: 1, tr: draw2d.NewIdentityMatrix()}}
}

func (d *d2rec) LastPoint() (float64, float64)          { return d.path.LastPoint() }
func (d *d2rec) MoveTo(x, y float64)                    { d.path.MoveTo(x, y) }
func (d *d2rec) LineTo(x, y float64)                    { d.path.LineTo(x, y) }
func (d *d2rec) QuadCurveTo(a, b, x, y float64)         { d.path.QuadCurveTo(a, b, x, y) }
func (d *d2rec) CubicCurveTo(a, b, c, e, x, y float64)  { d.path.CubicCurveTo(a, b, c, e, x, y) }
func (d *d2rec) ArcTo(cx, cy, rx, ry, s, a float64)     { d.path.ArcTo(cx, cy, rx, ry, s, a) }
func (d *d2rec) Close()                                 { d.path.Close() }
func (d *d2rec) BeginPath()                             { d.path = draw2d.Path{} }
func (d *d2rec) GetPath() draw2d.Path                   { return *d.path.Copy() }
func (d *d2rec) GetMatrixTransform() draw2d.Matrix      { return d.tr }
func (d *d2rec) SetMatrixTransform(t draw2d.Matrix)     { d.tr = t }
func (d *d2rec) ComposeMatrixTransform(t draw2d.Matrix) { d.tr.Compose(t) }
func (d *d2rec) Rotate(a float64)                       { d.tr.Rotate(a) }
func (d *d2rec) Translate(x, y float64)                 { d.tr.Translate(x, y) }
func (d *d2rec) Scale(x, y float64)                     { d.tr.Scale(x, y) }
func (d *d2rec) SetStrokeColor(c color.Color)           { d.d2state.stroke = c }
func (d *d2rec) SetFillColor(c color.Color)             { d.fill = c }
func (d *d2rec) SetFillRule(f draw2d.FillRule)          { d.rule = f }
func (d *d2rec) SetLineWidth(w float64)                 { d.width = w }
func (d *d2rec) SetLineCap(c draw2d.LineCap)            { d.cap = c }
func (d *d2rec) SetLineJoin(j draw2d.LineJoin)          { d.join = j }
func (d *d2rec) SetLineDash(x []float64, o float64)     { d.dash, d.off = append([]float64(nil), x...), o }
func (d *d2rec) Save() {
	s := d.d2state
	s.path = *d.path.Copy()
	d.stack = append(d.stack, s)
}
func (d *d2rec) Restore() {
	if n := len(d.stack); n > 0 {
		d.d2state = d.stack[n-1]
		d.stack = d.stack[:n-1]
	}
}
func (d *d2rec) emit(stroke bool, ps []*draw2d.Path) {
	e := d2event{stroke: stroke, d2state: d.d2state}
	for _, p := range append(ps, &d.path) {
		e.path.Components = append(e.path.Components, p.Components...)
		for i, v := range p.Points {
			_ = i
			e.path.Points = append(e.path.Points, v)
		}
	}
	e.dash = append([]float64(nil), d.dash...)
	d.events = append(d.events, e)
}
func (d *d2rec) Stroke(ps ...*draw2d.Path) { d.emit(true, ps); d.path = draw2d.Path{} }
func (d *d2rec) Fill(ps ...*draw2d.Path)   { d.emit(false, ps); d.path = draw2d.Path{} }
func (d *d2rec) FillStroke(ps ...*draw2d.Path) {
	d.emit(false, ps)
	d.emit(true, ps)
	d.path = draw2d.Path{}
}

func (e d2event) ops() []pop {
	var out []pop
	i := 0
	take := func(n int) []pt {
		var r []pt
		for k := 0; k < n; k++ {
			x, y := e.tr.TransformPoint(e.path.Points[i], e.path.Points[i+1])
			r = append(r, pt{x, y})
			i += 2
		}
		return r
	}
	for _, c := range e.path.Components {
		switch c {
		case draw2d.MoveToCmp:
			out = append(out, pop{'M', take(1)})
		case draw2d.LineToCmp:
			out = append(out, pop{'L', take(1)})
		case draw2d.QuadCurveToCmp:
			out = append(out, pop{'Q', take(2)})
		case draw2d.CubicCurveToCmp:
			out = append(out, pop{'C', take(3)})
		case draw2d.ArcToCmp:
			i += 6
			out = append(out, pop{'A', nil})
		case draw2d.CloseCmp:
			out = append(out, pop{'Z', nil})
		}
	}
	return out
}

func fmtPops(ps []pop) string {
	s := ""
	for _, p := range ps {
		s += string(p.k)
		for _, q := range p.ps {
			s += fmt.Sprintf("%.4g,%.4g ", q.x, q.y)
		}
		s += " "
	}
	return s
}

func samePops(a, b []pop) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].k != b[i].k || len(a[i].ps) != len(b[i].ps) {
			return false
		}
		for j := range a[i].ps {
			if math.Abs(a[i].ps[j].x-b[i].ps[j].x) > 1.2/64 || math.Abs(a[i].ps[j].y-b[i].ps[j].y) > 1.2/64 {
				return false
			}
		}
	}
	return true
}

// alphaColor: the colour with the opacity as its alpha, one step of rounding
func colorOK(got color.Color, p svg.PlainColor, op float64) bool {
	n := color.NRGBAModel.Convert(got).(color.NRGBA)
	if x, ok := got.(color.NRGBA); ok {
		n = x
	}
	if math.Abs(float64(n.A)-op*255) > 1.01 {
		return false
	}
	if n.A < 16 {
		return true
	}
	d := func(a, b uint8) bool { return math.Abs(float64(a)-float64(b)) <= 255/float64(n.A)+.01 }
	if n.A == 255 {
		return n.R == p.R && n.G == p.G && n.B == p.B
	}
	return d(n.R, p.R) && d(n.G, p.G) && d(n.B, p.B)
}

func onePaint(p svg.Pattern) svg.PlainColor {
	switch p := p.(type) {
	case svg.PlainColor:
		return p
	case svg.Gradient:
		if c, ok := svg.GetColor(p).(svg.PlainColor); ok {
			return c
		}
	}
	return svg.PlainColor{}
}

var d2caps = map[svg.CapMode]draw2d.LineCap{svg.RoundCap: draw2d.RoundCap, svg.SquareCap: draw2d.SquareCap}
var d2joins = map[svg.JoinMode]draw2d.LineJoin{svg.Round: draw2d.RoundJoin, svg.Bevel: draw2d.BevelJoin}

func floatsEq(a, b []float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !near(a[i], b[i]) {
			return false
		}
	}
	return true
}

func checkDraw2d(r *R, c *rcase, paint bool) {
	in := c.String()
	r.cur = "draw2d " + in
	r.count["draw2d.Draw"]++
	call := "renderer/draw2d.Draw"
	before := c.snapshot()
	rec := newD2()
	rd2d.Draw(rec, c.s, c.opts...)
	if c.snapshot() != before {
		r.fail(call, before, "the document was modified: %s", c.snapshot())
	}
	want := c.expected()
	if len(rec.events) != len(want) {
		r.fail(call, in, "%d fills and strokes, expected %d", len(rec.events), len(want))
	}
	for i, w := range want {
		e := rec.events[i]
		if e.stroke != w.stroke {
			r.fail(call, in, "painting operation %d: stroke=%v, expected %v", i, e.stroke, w.stroke)
		}
		if got := e.ops(); !samePops(got, w.ops) {
			r.fail(call, in, "painting operation %d draws %s, expected %s", i, fmtPops(got), fmtPops(w.ops))
		}
		if !paint {
			continue
		}
		if !w.stroke {
			if !colorOK(e.fill, onePaint(w.paint), w.op) {
				r.fail(call, in, "painting operation %d: fill colour %v, expected %v with opacity %g", i, e.fill, onePaint(w.paint), w.op)
			}
			if (e.rule == draw2d.FillRuleWinding) != w.rule {
				r.fail(call, in, "painting operation %d: fill rule %v, expected nonzero=%v", i, e.rule, w.rule)
			}
			continue
		}
		if !colorOK(e.d2state.stroke, onePaint(w.paint), w.op) {
			r.fail(call, in, "painting operation %d: stroke colour %v, expected %v with opacity %g", i, e.d2state.stroke, onePaint(w.paint), w.op)
		}
		if !near(e.width, w.width) {
			r.fail(call, in, "painting operation %d: width %g, expected %g", i, e.width, w.width)
		}
		cp, ok := d2caps[w.st.Join.TrailLineCap]
		if !ok {
			cp = draw2d.ButtCap
		}
		jn, ok := d2joins[w.st.Join.LineJoin]
		if !ok {
			jn = draw2d.MiterJoin
		}
		if e.cap != cp || e.join != jn {
			r.fail(call, in, "painting operation %d: cap %v join %v, expected %v %v", i, e.cap, e.join, cp, jn)
		}
		if !floatsEq(e.dash, w.st.Dash.Dash) || len(e.dash) > 0 && !near(e.off, w.st.Dash.DashOffset) {
			r.fail(call, in, "painting operation %d: dashes %v offset %g, expected %v", i, e.dash, e.off, w.st.Dash)
		}
	}
}

// ---- rasterx: a scanner that records ----

type rxEvent struct {
	lines []fixed.Point26_6
	brk   []bool
	col   interface{}
	rule  bool
}

type rxScan struct {
	cur    rxEvent
	events []rxEvent
}

func (s *rxScan) Start(a fixed.Point26_6) {
	s.cur.lines = append(s.cur.lines, a)
	s.cur.brk = append(s.cur.brk, true)
}
func (s *rxScan) Line(b fixed.Point26_6) {
	s.cur.lines = append(s.cur.lines, b)
	s.cur.brk = append(s.cur.brk, false)
}
func (s *rxScan) Draw() {
	e := s.cur
	e.lines = append([]fixed.Point26_6(nil), e.lines...)
	e.brk = append([]bool(nil), e.brk...)
	s.events = append(s.events, e)
}
func (s *rxScan) GetPathExtent() fixed.Rectangle26_6 {
	if len(s.cur.lines) == 0 {
		return fixed.Rectangle26_6{}
	}
	r := fixed.Rectangle26_6{Min: s.cur.lines[0], Max: s.cur.lines[0]}
	for _, p := range s.cur.lines {
		if p.X < r.Min.X {
			r.Min.X = p.X
		}
		if p.Y < r.Min.Y {
			r.Min.Y = p.Y
		}
		if p.X > r.Max.X {
			r.Max.X = p.X
		}
		if p.Y > r.Max.Y {
			r.Max.Y = p.Y
		}
	}
	return r
}
func (s *rxScan) SetBounds(w, h int)         {}
func (s *rxScan) SetColor(c interface{})     { s.cur.col = c }
func (s *rxScan) SetWinding(n bool)          { s.cur.rule = n }
func (s *rxScan) Clear()                     { s.cur.lines, s.cur.brk = nil, nil }
func (s *rxScan) SetClip(rc image.Rectangle) {}

func rxReference(c *rcase) []rxEvent {
	var out []rxEvent
	for _, w := range c.expected() {
		sc := &rxScan{}
		d := rasterx.NewDasher(64, 64, sc)
		var ad rasterx.Adder
		if w.stroke {
			st := &d.Stroker
			j := w.st.Join
			caps := map[svg.CapMode]rasterx.CapFunc{svg.ButtCap: rasterx.ButtCap, svg.CubicCap: rasterx.CubicCap, svg.QuadraticCap: rasterx.QuadraticCap, svg.RoundCap: rasterx.RoundCap, svg.SquareCap: rasterx.SquareCap}
			trail := caps[j.TrailLineCap]
			if trail == nil {
				trail = rasterx.ButtCap
			}
			lead := caps[j.LeadLineCap]
			if lead == nil {
				lead = trail
			}
			gap := map[svg.GapMode]rasterx.GapFunc{svg.FlatGap: rasterx.FlatGap, svg.RoundGap: rasterx.RoundGap, svg.CubicGap: rasterx.CubicGap, svg.QuadraticGap: rasterx.QuadraticGap}[j.LineGap]
			if gap == nil {
				gap = rasterx.FlatGap
			}
			jn := map[svg.JoinMode]rasterx.JoinMode{svg.Arc: rasterx.Arc, svg.ArcClip: rasterx.ArcClip, svg.Miter: rasterx.Miter, svg.MiterClip: rasterx.MiterClip, svg.Round: rasterx.Round, svg.Bevel: rasterx.Bevel}[j.LineJoin]
			st.SetStroke(fixed.Int26_6(w.width*64), j.MiterLimit, lead, trail, gap, jn)
			st.SetWinding(true)
			ad = st
		} else {
			d.Filler.SetWinding(w.rule)
			ad = &d.Filler
		}
		for _, op := range w.path {
			k, ps := opPts(op)
			f := make([]fixed.Point26_6, len(ps))
			for i, q := range ps {
				f[i] = w.m.TFixed(q)
			}
			switch k {
			case 'M':
				ad.Stop(false)
				ad.Start(f[0])
			case 'L':
				ad.Line(f[0])
			case 'Q':
				ad.QuadBezier(f[0], f[1])
			case 'C':
				ad.CubeBezier(f[0], f[1], f[2])
			case 'Z':
				ad.Stop(true)
			}
		}
		ad.Stop(false)
		switch p := w.paint.(type) {
		case svg.PlainColor:
			sc.SetColor(rasterx.ApplyOpacity(p, w.op))
		case svg.Gradient:
			rg := rasterx.Gradient{Matrix: rasterx.Matrix2D(p.Matrix), Spread: rasterx.SpreadMethod(p.Spread), Units: rasterx.GradientUnits(p.Units), Bounds: p.Bounds}
			if p.Units == svg.ObjectBoundingBox {
				x := sc.GetPathExtent()
				a, b := fpt(x.Min), fpt(x.Max)
				rg.Bounds = svg.Bounds{X: a.x, Y: a.y, W: b.x - a.x, H: b.y - a.y}
			}
			switch dr := p.Direction.(type) {
			case svg.Linear:
				copy(rg.Points[:], dr[:])
			case svg.Radial:
				copy(rg.Points[:], dr[:5])
				rg.IsRadial = true
			}
			for _, s := range p.Stops {
				rg.Stops = append(rg.Stops, rasterx.GradStop{StopColor: s.StopColor, Offset: s.Offset, Opacity: s.Opacity})
			}
			sc.SetColor(rg.GetColorFunction(w.op))
		}
		sc.Draw()
		out = append(out, sc.events[0])
	}
	return out
}

func rxTry(c *rcase) (e []rxEvent, ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	return rxReference(c), true
}

func sampleCol(c interface{}, x, y int) (color.NRGBA, bool) {
	switch c := c.(type) {
	case color.NRGBA:
		return c, true
	case rasterx.ColorFunc:
		v := c(x, y)
		if n, ok := v.(color.NRGBA); ok {
			return n, true
		}
		return color.NRGBAModel.Convert(v).(color.NRGBA), true
	case color.Color:
		return color.NRGBAModel.Convert(c).(color.NRGBA), true
	}
	return color.NRGBA{}, false
}

func nrgbaNear(a, b color.NRGBA) bool {
	d := func(x, y uint8) bool { return x == y || x+1 == y || y+1 == x }
	return d(a.A, b.A) && (a.A < 16 || d(a.R, b.R) && d(a.G, b.G) && d(a.B, b.B))
}

func (e rxEvent) trimmed() ([]fixed.Point26_6, []bool) { return e.lines, e.brk }

func checkRasterx(r *R, c *rcase, paint bool) {
	in := c.String()
	r.cur = "rasterx " + in
	r.count["rasterx.Draw"]++
	call := "renderer/rasterx.Draw"
	want, ok := rxTry(c)
	if !ok {
		return // the library itself cannot draw this
	}
	before := c.snapshot()
	sc := &rxScan{}
	d := rasterx.NewDasher(64, 64, sc)
	rrx.Draw(d, c.s, c.opts...)
	if c.snapshot() != before {
		r.fail(call, before, "the document was modified: %s", c.snapshot())
	}
	if len(sc.events) != len(want) {
		r.fail(call, in, "%d fills and strokes, expected %d", len(sc.events), len(want))
	}
	for i, w := range want {
		e := sc.events[i]
		if !paint {
			if len(e.lines) != len(w.lines) {
				r.fail(call, in, "painting operation %d: %d segments reach the scanner, expected %d", i, len(e.lines), len(w.lines))
			}
			for k := range w.lines {
				if e.lines[k] != w.lines[k] || e.brk[k] != w.brk[k] {
					r.fail(call, in, "painting operation %d: segment %d at %v (new subpath %v), expected %v (%v)", i, k, e.lines[k], e.brk[k], w.lines[k], w.brk[k])
				}
			}
			continue
		}
		if fmt.Sprint(e.lines, e.brk) != fmt.Sprint(w.lines, w.brk) {
			r.fail(call, in, "painting operation %d has another outline: width, cap, join, miter limit or geometry is not the path's own", i)
		}
		if e.rule != w.rule {
			r.fail(call, in, "painting operation %d: nonzero rule %v, expected %v", i, e.rule, w.rule)
		}
		for k := 0; k < 40; k++ {
			x, y := (k*7)%64, (k*13)%64
			a, ok1 := sampleCol(e.col, x, y)
			b, ok2 := sampleCol(w.col, x, y)
			if !ok1 || !ok2 || !nrgbaNear(a, b) {
				r.fail(call, in, "painting operation %d: colour %v at (%d,%d), expected %v", i, a, x, y, b)
			}
		}
	}
}

// ---- gg: pixels, against a renderer with a fresh context for every path ----

const ggW, ggH = 64, 48

func ggColor(c svg.PlainColor, op float64) color.Color {
	// the same rounding as a 16 bit alpha cut to 8 bits
	return color.NRGBA{c.R, c.G, c.B, uint8(uint32(65535*op) >> 8)}
}

func ggOne(im *image.RGBA, s *svg.Svg, p svg.SvgPath, m svg.Matrix2D, op float64, active []string) {
	gc := gglib.NewContextForRGBA(im)
	if n := len(p.Style.Masks); n > 0 {
		id := p.Style.Masks[n-1]
		skip := s.SvgMasks[id] == nil
		for _, a := range active {
			skip = skip || a == id
		}
		if !skip {
			mi := image.NewRGBA(im.Bounds())
			for _, q := range s.SvgMasks[id].SvgPaths {
				ggOne(mi, s, q, m, 1, append(append([]string(nil), active...), id))
			}
			al := image.NewAlpha(im.Bounds())
			for y := 0; y < ggH; y++ {
				for x := 0; x < ggW; x++ {
					al.SetAlpha(x, y, color.Alpha{A: mi.RGBAAt(x, y).A})
				}
			}
			gc.SetMask(al)
		}
	}
	path := func() {
		for _, o := range p.Path {
			k, ps := opPts(o)
			v := make([]float64, 0, 6)
			for _, q := range ps {
				t := m.TFixed(q)
				v = append(v, float64(t.X)/64, float64(t.Y)/64)
			}
			switch k {
			case 'M':
				gc.NewSubPath()
				gc.MoveTo(v[0], v[1])
			case 'L':
				gc.LineTo(v[0], v[1])
			case 'Q':
				gc.QuadraticTo(v[0], v[1], v[2], v[3])
			case 'C':
				gc.CubicTo(v[0], v[1], v[2], v[3], v[4], v[5])
			case 'Z':
				gc.ClosePath()
			}
		}
	}
	st := p.Style
	if st.FillerColor != nil {
		gc.SetFillRule(gglib.FillRuleEvenOdd)
		if st.UseNonZeroWinding {
			gc.SetFillRule(gglib.FillRuleWinding)
		}
		switch c := st.FillerColor.(type) {
		case svg.PlainColor:
			gc.SetFillStyle(gglib.NewSolidPattern(ggColor(c, st.FillOpacity*op)))
		case svg.Gradient:
			var gr gglib.Gradient
			switch d := c.Direction.(type) {
			case svg.Linear:
				gr = gglib.NewLinearGradient(d[0], d[1], d[2], d[3])
			case svg.Radial:
				gr = gglib.NewRadialGradient(d[0], d[1], d[4], d[2], d[3], d[5])
			}
			for _, s := range c.Stops {
				gr.AddColorStop(s.Offset, ggColor(s.StopColor.(svg.PlainColor), s.Opacity*st.FillOpacity*op))
			}
			gc.SetFillStyle(gr)
		}
		path()
		gc.Fill()
	}
	if st.LinerColor != nil {
		gc.SetStrokeStyle(gglib.NewSolidPattern(ggColor(onePaint(st.LinerColor), st.LineOpacity*op)))
		gc.SetLineWidth(st.LineWidth * (m.A + m.D) / 2)
		switch st.Join.TrailLineCap {
		case svg.RoundCap:
			gc.SetLineCap(gglib.LineCapRound)
		case svg.SquareCap:
			gc.SetLineCap(gglib.LineCapSquare)
		default:
			gc.SetLineCap(gglib.LineCapButt)
		}
		gc.SetLineJoin(gglib.LineJoinBevel)
		if st.Join.LineJoin == svg.Round {
			gc.SetLineJoin(gglib.LineJoinRound)
		}
		gc.SetDash(st.Dash.Dash...)
		gc.SetDashOffset(st.Dash.DashOffset)
		path()
		gc.Stroke()
	}
}

func checkGG(r *R, c *rcase) {
	in := c.String()
	r.cur = "gg " + in
	r.count["gg.Draw"]++
	call := "renderer/gg.Draw"
	want := image.NewRGBA(image.Rect(0, 0, ggW, ggH))
	for _, p := range c.s.SvgPaths {
		ggOne(want, c.s, p, toM(c.m.mul(matOf(p.Style.Transform))), c.op, nil)
	}
	before := c.snapshot()
	got := image.NewRGBA(image.Rect(0, 0, ggW, ggH))
	gc := gglib.NewContextForRGBA(got)
	if err := rgg.Draw(gc, c.s, c.opts...); err != nil {
		r.fail(call, in, "error %v", err)
	}
	if c.snapshot() != before {
		r.fail(call, before, "the document was modified: %s", c.snapshot())
	}
	for y := 0; y < ggH; y++ {
		for x := 0; x < ggW; x++ {
			a, b := got.RGBAAt(x, y), want.RGBAAt(x, y)
			d := func(x, y uint8) bool { return math.Abs(float64(x)-float64(y)) <= 3 }
			if !d(a.R, b.R) || !d(a.G, b.G) || !d(a.B, b.B) || !d(a.A, b.A) {
				r.fail(call, in, "pixel (%d,%d) is %v, expected %v", x, y, a, b)
			}
		}
	}
}

func c19(r *R, g *G) {
	o := rgen{}
	c := g.drawCase(rgen{free: true})
	checkDraw2d(r, c, false)
	checkRasterx(r, g.drawCase(o), false)
	if r.n%2 == 0 {
		checkGG(r, g.drawCase(o))
	}
}

func c20(r *R, g *G) {
	c := g.drawCase(rgen{paints: true, grads: true, opacity: true, free: true})
	checkDraw2d(r, c, true)
	checkRasterx(r, g.drawCase(rgen{paints: true, grads: true, opacity: true}), true)
	if r.n%2 == 0 {
		o := rgen{paints: true, opacity: true, masks: g.p(.4), grads: g.p(.4)}
		c := g.drawCase(o)
		if o.grads {
			// gradients of gg are in device space: compare where both agree
			c.opts, c.odesc, c.m, c.op = nil, "", ident, 1
			for i := range c.s.SvgPaths {
				c.s.SvgPaths[i].Style.Transform = svg.Identity
			}
		}
		checkGG(r, c)
	}
}
