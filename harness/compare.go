package main

import (
	"fmt"
	"image/color"
	"math"

	"github.com/lafriks/go-svg"
	"golang.org/x/image/math/fixed"
)

// fixOK: got is the 26.6 value of v (truncated), allowing for float rounding.
func fixOK(got fixed.Int26_6, v float64) bool {
	e := 1e-6 + math.Abs(v)*1e-9
	return got == fixed.Int26_6(v*64-e) || got == fixed.Int26_6(v*64+e) || got == fixed.Int26_6(v*64)
}

func ptOK(got fixed.Point26_6, p pt) bool { return fixOK(got.X, p.x) && fixOK(got.Y, p.y) }

func near(a, b float64) bool {
	return math.Abs(a-b) <= 1e-9+1e-7*math.Max(math.Abs(a), math.Abs(b))
}

func fpt(p fixed.Point26_6) pt { return pt{float64(p.X) / 64, float64(p.Y) / 64} }

func opPts(op svg.Operation) (byte, []fixed.Point26_6) {
	switch o := op.(type) {
	case svg.OpMoveTo:
		return 'M', []fixed.Point26_6{fixed.Point26_6(o)}
	case svg.OpLineTo:
		return 'L', []fixed.Point26_6{fixed.Point26_6(o)}
	case svg.OpQuadTo:
		return 'Q', o[:]
	case svg.OpCubicTo:
		return 'C', o[:]
	case svg.OpClose:
		return 'Z', nil
	}
	return '?', nil
}

// cmpOps compares a path with its expected operations.
func cmpOps(got svg.Path, want []rop) string {
	i := 0
	for wi, w := range want {
		switch w.k {
		case 'A', 'E':
			n, msg := cmpArc(got[i:], w, i > 0, prevPt(got, i))
			if msg != "" {
				return fmt.Sprintf("operation %d: %s", i, msg)
			}
			i += n
			continue
		case 'R':
			n, msg := cmpRound(got[i:], w.rr)
			if msg != "" {
				return msg
			}
			i += n
			continue
		}
		if i >= len(got) {
			return fmt.Sprintf("path ends after %d operations, expected %c next (expected operation %d)", i, w.k, wi)
		}
		k, ps := opPts(got[i])
		if k != w.k {
			return fmt.Sprintf("operation %d is %v, expected %s", i, got[i], fmtRops(want[wi:wi+1]))
		}
		for j, p := range ps {
			if !ptOK(p, w.p[j]) {
				return fmt.Sprintf("operation %d is %v (%v in 64ths), expected %s", i, got[i], ps, fmtRops(want[wi:wi+1]))
			}
		}
		i++
	}
	if i != len(got) {
		return fmt.Sprintf("%d extra operations: %v", len(got)-i, got[i:])
	}
	return ""
}

func prevPt(got svg.Path, i int) pt {
	for j := i - 1; j >= 0; j-- {
		_, ps := opPts(got[j])
		if len(ps) > 0 {
			return fpt(ps[len(ps)-1])
		}
	}
	return pt{}
}

func bez(a, b, c, d pt, t float64) pt {
	u := 1 - t
	f := func(a, b, c, d float64) float64 { return u*u*u*a + 3*u*u*t*b + 3*u*t*t*c + t*t*t*d }
	return pt{f(a.x, b.x, c.x, d.x), f(a.y, b.y, c.y, d.y)}
}

// cmpArc checks the cubic segments of an elliptical arc (implementation notes
// of the SVG specification, F.6) or of a whole ellipse.
func cmpArc(got svg.Path, w rop, _ bool, prev pt) (int, string) {
	a := w.a
	rx, ry := a.rx, a.ry
	var c pt
	sinR, cosR := math.Sincos(a.rot * math.Pi / 180)
	var total float64
	var th1 float64
	loose := false
	if w.k == 'E' {
		c = a.from
		th1, total = 0, 2*math.Pi
		loose = math.Min(rx, ry) < .5 || math.Max(rx, ry)/math.Min(rx, ry) > 300
	} else {
		dx, dy := (a.from.x-a.to.x)/2, (a.from.y-a.to.y)/2
		x1, y1 := cosR*dx+sinR*dy, -sinR*dx+cosR*dy
		l := x1*x1/(rx*rx) + y1*y1/(ry*ry)
		if l > 1 {
			rx, ry = rx*math.Sqrt(l), ry*math.Sqrt(l)
		}
		if math.Abs(l-1) < 1e-6 || math.Hypot(dx, dy) < .2 || math.Min(rx, ry) < .5 || math.Max(rx, ry)/math.Min(rx, ry) > 300 {
			loose = true // the answer depends on rounding
		}
		q := rx*rx*ry*ry - rx*rx*y1*y1 - ry*ry*x1*x1
		if q < 0 {
			q = 0
		}
		co := math.Sqrt(q / (rx*rx*y1*y1 + ry*ry*x1*x1))
		if a.large == a.sweep {
			co = -co
		}
		cx1, cy1 := co*rx*y1/ry, -co*ry*x1/rx
		c = pt{cosR*cx1 - sinR*cy1 + (a.from.x+a.to.x)/2, sinR*cx1 + cosR*cy1 + (a.from.y+a.to.y)/2}
		th1 = math.Atan2((y1-cy1)/ry, (x1-cx1)/rx)
		th2 := math.Atan2((-y1-cy1)/ry, (-x1-cx1)/rx)
		total = th2 - th1
		if a.sweep && total < 0 {
			total += 2 * math.Pi
		}
		if !a.sweep && total > 0 {
			total -= 2 * math.Pi
		}
	}
	// the cubic segments up to the end point
	n := 0
	for n < len(got) {
		op, ok := got[n].(svg.OpCubicTo)
		if !ok {
			return 0, fmt.Sprintf("arc to %v does not end there: %v", a.to, got[n])
		}
		n++
		if w.k == 'A' && ptOK(op[2], a.to) {
			break
		}
		if w.k == 'E' && n < len(got) {
			if _, ok := got[n].(svg.OpCubicTo); !ok {
				break
			}
		}
	}
	if n == 0 {
		return 0, fmt.Sprintf("arc to %v missing", a.to)
	}
	last := got[n-1].(svg.OpCubicTo)
	if !ptOK(last[2], a.to) {
		return 0, fmt.Sprintf("arc ends at %v, expected %v", fpt(last[2]), a.to)
	}
	if loose {
		return n, ""
	}
	param := func(p pt) (float64, float64) { // angle and distance from the ellipse
		x, y := p.x-c.x, p.y-c.y
		u, v := cosR*x+sinR*y, -sinR*x+cosR*y
		eta := math.Atan2(v/ry, u/rx)
		f := u*u/(rx*rx) + v*v/(ry*ry) - 1
		return eta, math.Abs(f) / (2 * math.Hypot(u/(rx*rx), v/(ry*ry)))
	}
	tol := .06 + 2e-5*math.Max(rx, ry)
	angTol := .05/math.Min(rx, ry) + 1e-4
	dir := 1.0
	if total < 0 {
		dir = -1
	}
	eta := th1
	sum := 0.0
	p0 := prev
	for i := 0; i < n; i++ {
		op := got[i].(svg.OpCubicTo)
		q := [3]pt{fpt(op[0]), fpt(op[1]), fpt(op[2])}
		for _, t := range []float64{.25, .5, .75, 1} {
			if _, d := param(bez(p0, q[0], q[1], q[2], t)); d > tol {
				return 0, fmt.Sprintf("segment %d of the arc %+v is %.3f off the ellipse with centre %v radii %g %g", i, a, d, c, rx, ry)
			}
		}
		e2, _ := param(q[2])
		d := e2 - eta
		if i == 0 && w.k == 'E' && d*dir < 0 && math.Abs(math.Remainder(d, 2*math.Pi)) < math.Pi/2 && math.Remainder(d, 2*math.Pi) < 0 {
			dir = -1 // either direction will do for a closed ellipse
		}
		for d*dir < -angTol*4 {
			d += dir * 2 * math.Pi
		}
		for d*dir > 2*math.Pi-angTol*4 {
			d -= dir * 2 * math.Pi
		}
		if math.Abs(d) > math.Pi/8+2*angTol {
			return 0, fmt.Sprintf("segment %d of the arc %+v spans %.4f", i, a, d)
		}
		sum += d
		eta = e2
		p0 = q[2]
	}
	if math.Abs(math.Abs(sum)-math.Abs(total)) > 4*angTol+.02 {
		return 0, fmt.Sprintf("the arc %+v spans %.4f, expected %.4f", a, sum, total)
	}
	return n, ""
}

// cmpRound checks a rounded rectangle.
func cmpRound(got svg.Path, r [6]float64) (int, string) {
	x, y, w, h, rx, ry := r[0], r[1], r[2], r[3], r[4], r[5]
	if len(got) < 10 {
		return 0, fmt.Sprintf("rounded rectangle of %d operations", len(got))
	}
	if (math.Abs(y)+h)*math.Max(1, rx/ry)+math.Abs(x)+w > 1<<23 || math.Min(rx, ry) < .1 {
		// the intermediate coordinates leave the range or the resolution of fixed.Int26_6
		for i, op := range got {
			if k, _ := opPts(op); k == 'Z' {
				return i + 1, ""
			}
		}
	}
	tol := .06 + .12*(1+ry/rx+rx/ry)/2 + .004*(rx+ry)
	mid := tol + .02*math.Max(rx, ry)
	// distance from the outline
	dist := func(p pt) float64 {
		// fold into the first quadrant relative to the centre
		cx, cy := x+w/2, y+h/2
		u, v := math.Abs(p.x-cx), math.Abs(p.y-cy)
		ex, ey := w/2-rx, h/2-ry
		if u <= ex+1e-9 {
			return math.Abs(v - h/2)
		}
		if v <= ey+1e-9 {
			return math.Abs(u - w/2)
		}
		eta := math.Atan2((v-ey)/ry, (u-ex)/rx)
		s, c := math.Sincos(eta)
		return math.Hypot(u-ex-rx*c, v-ey-ry*s)
	}
	must := []pt{{x + rx, y}, {x + w - rx, y}, {x + w, y + ry}, {x + w, y + h - ry}, {x + w - rx, y + h}, {x + rx, y + h}, {x, y + h - ry}, {x, y + ry}, {x + rx, y}}
	next := 0
	var cur pt
	n := 0
	for _, op := range got {
		n++
		k, ps := opPts(op)
		if k == 'Z' {
			if next != len(must) {
				return 0, fmt.Sprintf("rounded rectangle %v does not pass %v", r, must[next])
			}
			return n, ""
		}
		if (n == 1) != (k == 'M') || k == '?' {
			return 0, fmt.Sprintf("rounded rectangle has operation %v at %d", op, n)
		}
		var q []pt
		for _, p := range ps {
			q = append(q, fpt(p))
		}
		e := q[len(q)-1]
		if d := dist(e); d > tol {
			return 0, fmt.Sprintf("rounded rectangle %v: point %v is %.3f off the outline", r, e, d)
		}
		if k == 'C' {
			if d := dist(bez(cur, q[0], q[1], q[2], .5)); d > mid {
				return 0, fmt.Sprintf("rounded rectangle %v: curve to %v is %.3f off the outline", r, e, d)
			}
		}
		if k == 'L' {
			if d := dist(pt{(cur.x + e.x) / 2, (cur.y + e.y) / 2}); d > mid {
				return 0, fmt.Sprintf("rounded rectangle %v: line to %v is %.3f off the outline", r, e, d)
			}
		}
		cur = e
		for next < len(must) && math.Hypot(e.x-must[next].x, e.y-must[next].y) < tol+.02 {
			next++
		}
	}
	return 0, "rounded rectangle is not closed"
}

func sameColor(c color.Color, w color.NRGBA) bool {
	if c == nil {
		return false
	}
	r, g, b, a := c.RGBA()
	r2, g2, b2, a2 := w.RGBA()
	return r == r2 && g == g2 && b == b2 && a == a2
}

func cmpPaint(got svg.Pattern, w paint) string {
	switch w.kind {
	case 0:
		if got != nil {
			return fmt.Sprintf("paint %v, expected none", got)
		}
	case 1:
		p, ok := got.(svg.PlainColor)
		if !ok || p.NRGBA != w.c {
			return fmt.Sprintf("paint %v, expected colour %v", got, w.c)
		}
	case 2:
		g, ok := got.(svg.Gradient)
		if !ok {
			return fmt.Sprintf("paint %v, expected a gradient", got)
		}
		return cmpGrad(g, w.g)
	}
	return ""
}

func cmpGrad(g svg.Gradient, w *rgrad) string {
	var dir []float64
	radial := false
	switch d := g.Direction.(type) {
	case svg.Linear:
		dir = d[:]
	case svg.Radial:
		dir, radial = d[:], true
	}
	if radial != w.radial || len(dir) != len(w.dir) {
		return fmt.Sprintf("gradient direction %v, expected %v", g.Direction, w.dir)
	}
	for i := range dir {
		if !near(dir[i], w.dir[i]) {
			return fmt.Sprintf("gradient direction %v, expected %v", dir, w.dir)
		}
	}
	if (g.Units == svg.UserSpaceOnUse) != w.user {
		return fmt.Sprintf("gradient units %v, expected user space: %v", g.Units, w.user)
	}
	if g.Spread != w.spread {
		return fmt.Sprintf("gradient spread %v, expected %v", g.Spread, w.spread)
	}
	if s := cmpMat(g.Matrix, w.m); s != "" {
		return "gradient " + s
	}
	if len(g.Stops) != len(w.stops) {
		return fmt.Sprintf("gradient has %d stops, expected %d", len(g.Stops), len(w.stops))
	}
	for i, s := range g.Stops {
		x := w.stops[i]
		if !near(s.Offset, x.off) || !near(s.Opacity, x.op) {
			return fmt.Sprintf("stop %d is %v, expected offset %g opacity %g", i, s, x.off, x.op)
		}
		if x.c != nil && !sameColor(s.StopColor, *x.c) || x.c == nil && s.StopColor != nil {
			return fmt.Sprintf("stop %d has colour %v, expected %v", i, s.StopColor, x.c)
		}
	}
	return ""
}

func cmpMat(got svg.Matrix2D, w mat) string {
	m := matOf(got)
	mx := 1.0
	for i := range m {
		mx = math.Max(mx, math.Abs(w[i]))
	}
	for i := range m {
		if !(math.Abs(m[i]-w[i]) <= 1e-8*mx) {
			return fmt.Sprintf("transform %v, expected %v", m, w)
		}
	}
	return ""
}

func cmpStyle(got svg.PathStyle, w rstyle) string {
	if !near(got.FillOpacity, w.fillOp) || !near(got.LineOpacity, w.lineOp) {
		return fmt.Sprintf("opacities %g %g, expected %g %g", got.FillOpacity, got.LineOpacity, w.fillOp, w.lineOp)
	}
	if !near(got.LineWidth, w.lw) {
		return fmt.Sprintf("line width %g, expected %g", got.LineWidth, w.lw)
	}
	if got.UseNonZeroWinding != w.nonzero {
		return fmt.Sprintf("non-zero winding %v", got.UseNonZeroWinding)
	}
	if !fixOK(got.Join.MiterLimit, w.miter) {
		return fmt.Sprintf("miter limit %v, expected %g", got.Join.MiterLimit, w.miter)
	}
	if got.Join.LineJoin != w.join || got.Join.TrailLineCap != w.trail || got.Join.LeadLineCap != w.lead || got.Join.LineGap != w.gap {
		return fmt.Sprintf("join, caps and gap %v, expected %v %v %v %v", got.Join, w.join, w.trail, w.lead, w.gap)
	}
	if len(got.Dash.Dash) != len(w.dash) || !near(got.Dash.DashOffset, w.dashOff) {
		return fmt.Sprintf("dashes %v, expected %v offset %g", got.Dash, w.dash, w.dashOff)
	}
	for i := range w.dash {
		if !near(got.Dash.Dash[i], w.dash[i]) {
			return fmt.Sprintf("dashes %v, expected %v", got.Dash.Dash, w.dash)
		}
	}
	if s := cmpPaint(got.FillerColor, w.fill); s != "" {
		return "fill: " + s
	}
	if s := cmpPaint(got.LinerColor, w.line); s != "" {
		return "stroke: " + s
	}
	if fmt.Sprint(got.Masks) != fmt.Sprint(w.masks) {
		return fmt.Sprintf("masks %v, expected %v", got.Masks, w.masks)
	}
	return cmpMat(got.Transform, w.tr)
}

func cmpPaths(got []svg.SvgPath, want []rpath) string {
	for i := range want {
		if i >= len(got) {
			return fmt.Sprintf("%d paths, expected %d; missing %s", len(got), len(want), fmtRops(want[i].ops))
		}
		if s := cmpOps(got[i].Path, want[i].ops); s != "" {
			return fmt.Sprintf("path %d: %s", i, s)
		}
		if s := cmpStyle(got[i].Style, want[i].style); s != "" {
			return fmt.Sprintf("path %d: %s", i, s)
		}
	}
	if len(got) > len(want) {
		return fmt.Sprintf("%d paths, expected %d; extra %v", len(got), len(want), got[len(want)].Path)
	}
	return ""
}

func cmpStrings(what string, a, b []string) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%s %q, expected %q", what, a, b)
	}
	for i := range a {
		if a[i] != b[i] {
			return fmt.Sprintf("%s %q, expected %q", what, a, b)
		}
	}
	return ""
}

func cmpDoc(got *svg.Svg, want *rdoc, vb [4]float64) string {
	if s := cmpPaths(got.SvgPaths, want.paths); s != "" {
		return s
	}
	for _, id := range keys(want.masks) {
		m, ok := got.SvgMasks[id]
		if !ok || m == nil {
			return "mask " + id + " is missing"
		}
		w := want.masks[id]
		if m.ID != id || !near(m.X, w.box[0]) || !near(m.Y, w.box[1]) || !near(m.W, w.box[2]) || !near(m.H, w.box[3]) {
			return fmt.Sprintf("mask %s has id %q box %g %g %g %g, expected %v", id, m.ID, m.X, m.Y, m.W, m.H, w.box)
		}
		if s := cmpPaths(m.SvgPaths, w.paths); s != "" {
			return "mask " + id + ": " + s
		}
	}
	if len(got.SvgMasks) != len(want.masks) {
		return fmt.Sprintf("%d masks, expected %d", len(got.SvgMasks), len(want.masks))
	}
	if s := cmpStrings("titles", got.Titles, want.titles); s != "" {
		return s
	}
	if s := cmpStrings("descriptions", got.Descriptions, want.descs); s != "" {
		return s
	}
	b := got.ViewBox
	if !near(b.X, vb[0]) || !near(b.Y, vb[1]) || !near(b.W, vb[2]) || !near(b.H, vb[3]) {
		return fmt.Sprintf("viewBox %v, expected %v", b, vb)
	}
	return ""
}
