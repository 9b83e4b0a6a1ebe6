// The rasterx renderer (C19, C20). Dasher, Stroker, Filler and Scanner are parts
// of one object with one record: what has been added since the last Clear, the
// settings, and what has been drawn so far. fillOpen and lineOpen: the subpath of
// the fill or of the stroke has a segment and was not stopped.

type RXStroke struct { width, miter fixed.Int26_6; capL, capT rasterx.CapFunc; gap rasterx.GapFunc; join rasterx.JoinMode }
// a segment of a fill (kind 0 start, 1 line, 2 quadratic, 3 cubic, 4 back to the start) or of a stroke (20 on; 24 ends open, 25 closed), drawn with its settings
type RXSeg struct { kind int; p, q, r fixed.Point26_6; stroke RXStroke }
type RXPaint struct { path []RXSeg; color any; nonZero bool }
type Sh_rasterx_Dasher struct { path []RXSeg; fillOpen, lineOpen bool; stroke RXStroke; nonZero bool; color any; out []RXPaint }
type Sh_rasterx_Stroker struct { path []RXSeg; fillOpen, lineOpen bool; stroke RXStroke; nonZero bool; color any; out []RXPaint }
type Sh_rasterx_Filler struct { path []RXSeg; fillOpen, lineOpen bool; stroke RXStroke; nonZero bool; color any; out []RXPaint }
type Sh_rasterx_Scanner struct { path []RXSeg; fillOpen, lineOpen bool; stroke RXStroke; nonZero bool; color any; out []RXPaint }

spec noPt() fixed.Point26_6 = fixed.Point26_6{X: 0, Y: 0}
spec noStroke() RXStroke = RXStroke{width: 0, miter: 0, capL: nil, capT: nil, gap: nil, join: 0}
spec fseg(k int, p, q, r fixed.Point26_6) RXSeg = RXSeg{kind: k, p: p, q: q, r: r, stroke: noStroke()}
spec sseg(k int, p, q, r fixed.Point26_6, s RXStroke) RXSeg = RXSeg{kind: 20 + k, p: p, q: q, r: r, stroke: s}

func rasterx.(*Filler).Clear(f)
  trusted rasterx
  modifies f.path, f.fillOpen
  ensures f.path == []RXSeg{} && !f.fillOpen
func rasterx.(*Filler).Start(f, a)
  trusted rasterx
  modifies f.path, f.fillOpen
  ensures f.path == snoc(old(f.path), fseg(0, a, noPt(), noPt())) && !f.fillOpen
func rasterx.(*Filler).Line(f, a)
  trusted rasterx
  modifies f.path, f.fillOpen
  ensures f.path == snoc(old(f.path), fseg(1, a, noPt(), noPt())) && f.fillOpen
func rasterx.(*Filler).QuadBezier(f, a, b)
  trusted rasterx
  modifies f.path, f.fillOpen
  ensures f.path == snoc(old(f.path), fseg(2, a, b, noPt())) && f.fillOpen
func rasterx.(*Filler).CubeBezier(f, a, b, c)
  trusted rasterx
  modifies f.path, f.fillOpen
  ensures f.path == snoc(old(f.path), fseg(3, a, b, c)) && f.fillOpen
func rasterx.(*Filler).Stop(f, closed)
  trusted rasterx
  modifies f.path, f.fillOpen
  ensures f.path == ite(old(f.fillOpen), snoc(old(f.path), fseg(4, noPt(), noPt(), noPt())), old(f.path)) && !f.fillOpen
func rasterx.(*Stroker).SetStroke(s, width, miter, capL, capT, gap, join)
  trusted rasterx
  modifies s.stroke
  ensures s.stroke == RXStroke{width: width, miter: miter, capL: capL, capT: capT, gap: gap, join: join}
func rasterx.(*Stroker).Start(s, a)
  trusted rasterx
  modifies s.path, s.fillOpen, s.lineOpen
  ensures s.path == snoc(old(s.path), sseg(0, a, noPt(), noPt(), s.stroke)) && !s.lineOpen && !s.fillOpen
func rasterx.(*Stroker).Line(s, a)
  trusted rasterx
  modifies s.path, s.fillOpen, s.lineOpen
  ensures s.path == snoc(old(s.path), sseg(1, a, noPt(), noPt(), s.stroke)) && s.lineOpen
func rasterx.(*Stroker).QuadBezier(s, a, b)
  trusted rasterx
  modifies s.path, s.fillOpen, s.lineOpen
  ensures s.path == snoc(old(s.path), sseg(2, a, b, noPt(), s.stroke)) && s.lineOpen
func rasterx.(*Stroker).CubeBezier(s, a, b, c)
  trusted rasterx
  modifies s.path, s.fillOpen, s.lineOpen
  ensures s.path == snoc(old(s.path), sseg(3, a, b, c, s.stroke)) && s.lineOpen
func rasterx.(*Stroker).Stop(s, closed)
  trusted rasterx
  modifies s.path, s.fillOpen, s.lineOpen
  ensures s.path == ite(old(s.lineOpen), snoc(old(s.path), sseg(ite(closed, 5, 4), noPt(), noPt(), noPt(), s.stroke)), old(s.path)) && !s.lineOpen
func rasterx.Scanner.SetWinding(s, nz)
  trusted rasterx
  modifies s.nonZero
  ensures s.nonZero == nz
func rasterx.Scanner.SetColor(s, c)
  trusted rasterx
  modifies s.color
  ensures s.color == c
func rasterx.Scanner.Draw(s)
  trusted rasterx
  modifies s.out
  ensures s.out == snoc(old(s.out), RXPaint{path: s.path, color: s.color, nonZero: s.nonZero})
spec rxExtent(p []RXSeg) fixed.Rectangle26_6 = app("rasterx.extent", fixed.Rectangle26_6, p)
func rasterx.Scanner.GetPathExtent(s) (r)
  trusted rasterx
  ensures r == rxExtent(s.path)
spec rxPlain(c color.Color, o float64) color.NRGBA = app("rasterx.ApplyOpacity", color.NRGBA, c, o)
func rasterx.ApplyOpacity(c, o) (r)
  trusted rasterx
  ensures r == rxPlain(c, o)
type RXGrad struct { p0, p1, p2, p3, p4 float64; stops []rasterx.GradStop; bounds svg.Bounds; matrix svg.Matrix2D; spread rasterx.SpreadMethod; units rasterx.GradientUnits; radial bool }
spec rxFunc(g RXGrad, o float64) any = app("rasterx.colorFunction", any, g, o)
spec rxRec(g rasterx.Gradient) RXGrad = RXGrad{p0: g.Points[0], p1: g.Points[1], p2: g.Points[2], p3: g.Points[3], p4: g.Points[4], stops: g.Stops, bounds: svg.Bounds{X: g.Bounds.X, Y: g.Bounds.Y, W: g.Bounds.W, H: g.Bounds.H},
  matrix: Matrix2D{A: g.Matrix.A, B: g.Matrix.B, C: g.Matrix.C, D: g.Matrix.D, E: g.Matrix.E, F: g.Matrix.F}, spread: g.Spread, units: g.Units, radial: g.IsRadial}
func rasterx.(*Gradient).GetColorFunction(g, o) (r)
  trusted rasterx
  ensures r == rxFunc(rxRec(*g), o)

// ---- the renderer ----

type RXPath struct { path []RXSeg; open bool }
spec rxStopF(g RXPath) RXPath = RXPath{path: ite(g.open, snoc(g.path, fseg(4, noPt(), noPt(), noPt())), g.path), open: false}
spec rxAddF(g RXPath, k int, p, q, r fixed.Point26_6) RXPath = RXPath{path: snoc(g.path, fseg(k, p, q, r)), open: k > 0}
// an operation of a fill: every subpath is closed before the next one starts
def rxFillStep(g RXPath, op svg.Operation, m Matrix2D) RXPath =
  ite(is(op, svg.OpMoveTo), rxAddF(rxStopF(g), 0, tfix(m, fixed.Point26_6(as(op, svg.OpMoveTo))), noPt(), noPt()),
  ite(is(op, svg.OpLineTo), rxAddF(g, 1, tfix(m, fixed.Point26_6(as(op, svg.OpLineTo))), noPt(), noPt()),
  ite(is(op, svg.OpQuadTo), rxAddF(g, 2, tfix(m, as(op, svg.OpQuadTo)[0]), tfix(m, as(op, svg.OpQuadTo)[1]), noPt()),
  ite(is(op, svg.OpCubicTo), rxAddF(g, 3, tfix(m, as(op, svg.OpCubicTo)[0]), tfix(m, as(op, svg.OpCubicTo)[1]), tfix(m, as(op, svg.OpCubicTo)[2])), rxStopF(g)))))
rec rxFills(p svg.Path, n int, m Matrix2D) RXPath = ite(n <= 0, RXPath{path: []RXSeg{}, open: false}, rxFillStep(rxFills(p, n-1, m), p[n-1], m))
spec rxStopS(g RXPath, closed bool, s RXStroke) RXPath = RXPath{path: ite(g.open, snoc(g.path, sseg(ite(closed, 5, 4), noPt(), noPt(), noPt(), s)), g.path), open: false}
spec rxAddS(g RXPath, k int, p, q, r fixed.Point26_6, s RXStroke) RXPath = RXPath{path: snoc(g.path, sseg(k, p, q, r, s)), open: k > 0}
// an operation of a stroke: only a close joins the ends
def rxLineStep(g RXPath, op svg.Operation, m Matrix2D, s RXStroke) RXPath =
  ite(is(op, svg.OpMoveTo), rxAddS(rxStopS(g, false, s), 0, tfix(m, fixed.Point26_6(as(op, svg.OpMoveTo))), noPt(), noPt(), s),
  ite(is(op, svg.OpLineTo), rxAddS(g, 1, tfix(m, fixed.Point26_6(as(op, svg.OpLineTo))), noPt(), noPt(), s),
  ite(is(op, svg.OpQuadTo), rxAddS(g, 2, tfix(m, as(op, svg.OpQuadTo)[0]), tfix(m, as(op, svg.OpQuadTo)[1]), noPt(), s),
  ite(is(op, svg.OpCubicTo), rxAddS(g, 3, tfix(m, as(op, svg.OpCubicTo)[0]), tfix(m, as(op, svg.OpCubicTo)[1]), tfix(m, as(op, svg.OpCubicTo)[2]), s), rxStopS(g, true, s)))))
rec rxLines(p svg.Path, n int, m Matrix2D, s RXStroke) RXPath = ite(n <= 0, RXPath{path: []RXSeg{}, open: false}, rxLineStep(rxLines(p, n-1, m, s), p[n-1], m, s))

func rasterx.drawToFiller(gc, op, m)
  safety C20
  requires knownOp(op)
  modifies gc.path, gc.fillOpen
  reveal rxFillStep
  ensures [C19 rasterx fill operation] RXPath{path: gc.path, open: gc.fillOpen} == rxFillStep(RXPath{path: old(gc.path), open: old(gc.fillOpen)}, op, m)
func rasterx.drawToStroker(gc, op, m)
  safety C20
  requires knownOp(op)
  modifies gc.path, gc.fillOpen, gc.lineOpen
  reveal rxLineStep
  ensures [C19 rasterx stroke operation] RXPath{path: gc.path, open: gc.lineOpen} == rxLineStep(RXPath{path: old(gc.path), open: old(gc.lineOpen)}, op, m, gc.stroke)

spec rxCap(c svg.CapMode, d rasterx.CapFunc) rasterx.CapFunc = ite(c == svg.NilCap, d, ite(c == svg.CubicCap, rasterx.CubicCap, ite(c == svg.QuadraticCap, rasterx.QuadraticCap, ite(c == svg.RoundCap, rasterx.RoundCap, ite(c == svg.SquareCap, rasterx.SquareCap, rasterx.ButtCap)))))
spec rxGap(g svg.GapMode) rasterx.GapFunc = ite(g == svg.RoundGap, rasterx.RoundGap, ite(g == svg.CubicGap, rasterx.CubicGap, ite(g == svg.QuadraticGap, rasterx.QuadraticGap, rasterx.FlatGap)))
spec rxJoin(j svg.JoinMode) rasterx.JoinMode = ite(j == svg.Arc, rasterx.Arc, ite(j == svg.ArcClip, rasterx.ArcClip, ite(j == svg.MiterClip, rasterx.MiterClip, ite(j == svg.Round, rasterx.Round, ite(j == svg.Bevel, rasterx.Bevel, rasterx.Miter)))))
func rasterx.toLineCap(cap, d) (r)
  safety C20
  ensures [C20 rasterx cap] r == rxCap(cap, d)
func rasterx.toLineGap(gap) (r)
  safety C20
  ensures [C20 rasterx gap] r == rxGap(gap)
func rasterx.toLineJoin(join) (r)
  safety C20
  ensures [C20 rasterx join] r == rxJoin(join)

spec rxStop(s svg.GradStop) rasterx.GradStop = rasterx.GradStop{StopColor: s.StopColor, Offset: s.Offset, Opacity: s.Opacity}
spec rxStops(s []svg.GradStop) []rasterx.GradStop = seqof(i, len(s), rxStop(s[i]))
spec rxGrad(g svg.Gradient) RXGrad = RXGrad{p0: ite(is(g.Direction, svg.Linear), as(g.Direction, svg.Linear)[0], as(g.Direction, svg.Radial)[0]), p1: ite(is(g.Direction, svg.Linear), as(g.Direction, svg.Linear)[1], as(g.Direction, svg.Radial)[1]),
  p2: ite(is(g.Direction, svg.Linear), as(g.Direction, svg.Linear)[2], as(g.Direction, svg.Radial)[2]), p3: ite(is(g.Direction, svg.Linear), as(g.Direction, svg.Linear)[3], as(g.Direction, svg.Radial)[3]), p4: ite(is(g.Direction, svg.Linear), 0.0, as(g.Direction, svg.Radial)[4]),
  stops: rxStops(g.Stops), bounds: g.Bounds, matrix: g.Matrix, spread: rasterx.SpreadMethod(g.Spread), units: rasterx.GradientUnits(g.Units), radial: is(g.Direction, svg.Radial)}
func rasterx.toRasterxGradient(grad) (r)
  safety C20
  requires is(grad.Direction, svg.Linear) || is(grad.Direction, svg.Radial)
  ensures [C20 rasterx gradient] rxRec(r) == rxGrad(grad)
  invariant V_s == seqof(i, len(grad.Stops), ite(i < K, rxStop(grad.Stops[i]), rasterx.GradStop{StopColor: nil, Offset: 0, Opacity: 0}))
  invariant V_t == seqof(i, K, rxStop(grad.Stops[i]))

// the box of the path counts for gradients in its units
spec rxBoxed(g svg.Gradient, e fixed.Rectangle26_6) svg.Gradient = put(g, Bounds, ite(g.Units == svg.ObjectBoundingBox, svg.Bounds{X: fx64(e.Min.X), Y: fx64(e.Min.Y), W: fx64(e.Max.X) - fx64(e.Min.X), H: fx64(e.Max.Y) - fx64(e.Min.Y)}, g.Bounds))
spec rxColor(p svg.Pattern, path []RXSeg, o float64) any = ite(is(p, svg.Gradient), rxFunc(rxGrad(rxBoxed(as(p, svg.Gradient), rxExtent(path))), o), any(rxPlain(color.Color(as(p, svg.PlainColor)), o)))
spec rxStrokeOf(p svg.SvgPath, m Matrix2D) RXStroke = RXStroke{width: fixed.Int26_6(p.Style.LineWidth * 64 * ((m.A + m.D)/2)), miter: p.Style.Join.MiterLimit, capL: rxCap(p.Style.Join.LeadLineCap, rxCap(p.Style.Join.TrailLineCap, rasterx.ButtCap)), capT: rxCap(p.Style.Join.TrailLineCap, rasterx.ButtCap), gap: rxGap(p.Style.Join.LineGap), join: rxJoin(p.Style.Join.LineJoin)}
spec rxFillPath(p svg.SvgPath, m Matrix2D) []RXSeg = rxStopF(rxFills(p.Path, len(p.Path), m)).path
spec rxLinePath(p svg.SvgPath, m Matrix2D) []RXSeg = rxStopS(rxLines(p.Path, len(p.Path), m, rxStrokeOf(p, m)), false, rxStrokeOf(p, m)).path
// what a path adds: its fill, then its stroke
def rxDraw(out []RXPaint, p svg.SvgPath, m Matrix2D, o float64) []RXPaint =
  let(a, ite(painted(p.Style.FillerColor), snoc(out, RXPaint{path: rxFillPath(p, m), color: rxColor(p.Style.FillerColor, rxFillPath(p, m), p.Style.FillOpacity * o), nonZero: p.Style.UseNonZeroWinding}), out),
  ite(painted(p.Style.LinerColor), snoc(a, RXPaint{path: rxLinePath(p, m), color: rxColor(p.Style.LinerColor, rxLinePath(p, m), p.Style.LineOpacity * o), nonZero: true}), a))
rec rxAll(out []RXPaint, ps []svg.SvgPath, n int, t Matrix2D, o float64) []RXPaint = ite(n <= 0, out, rxDraw(rxAll(out, ps, n-1, t, o), ps[n-1], mmul(t, ps[n-1].Style.Transform), o))

func rasterx.drawTransformed(gc, svgp, opt)
  safety C20
  requires fullPath(svgp)
  requires !gc.lineOpen
  modifies gc.path, gc.fillOpen, gc.lineOpen, gc.stroke, gc.nonZero, gc.color, gc.out, heap(svg.Gradient)
  reveal rxDraw
  ensures [C19 C20 rasterx path] gc.out == rxDraw(old(gc.out), svgp, mmul(opt.Target, svgp.Style.Transform), opt.Opacity)
  ensures [C20 rasterx stroke ended] !gc.lineOpen
  invariant RXPath{path: gc.path, open: gc.fillOpen} == rxFills(svgp.Path, K, mmul(opt.Target, svgp.Style.Transform))
  invariant RXPath{path: gc.path, open: gc.lineOpen} == rxLines(svgp.Path, K, mmul(opt.Target, svgp.Style.Transform), rxStrokeOf(svgp, mmul(opt.Target, svgp.Style.Transform)))

func rasterx.Draw(gc, s, opts)
  safety C20
  requires forall(i, 0, len(opts), opts[i] != nil)
  requires forall(i, 0, len(s.SvgPaths), fullPath(s.SvgPaths[i]))
  // no stroke was left unfinished
  requires !gc.lineOpen
  modifies gc.path, gc.fillOpen, gc.lineOpen, gc.stroke, gc.nonZero, gc.color, gc.out, heap(svg.Gradient)
  ensures [C19 C20 rasterx document] gc.out == rxAll(old(gc.out), s.SvgPaths, len(s.SvgPaths), optsTarget(s.ViewBox, opts, len(opts)), optsOpacity(opts, len(opts)))
  invariant gc.out == rxAll(old(gc.out), s.SvgPaths, K, optsTarget(s.ViewBox, opts, len(opts)), optsOpacity(opts, len(opts)))
  invariant !gc.lineOpen
