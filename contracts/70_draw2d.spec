// The draw2d renderer (C19, C20). The graphic context is known by its record:
// the current path, the settings, and what has been painted so far.

type Seg struct { kind int; x1, y1, x2, y2, x3, y3 float64 }
// one fill or stroke as the library gets it
type D2Paint struct { stroke bool; path []Seg; color color.Color; rule draw2d.FillRule; cap draw2d.LineCap; join draw2d.LineJoin; width float64; dash []float64; offset float64 }
type Sh_draw2d_GraphicContext struct { path []Seg; rule draw2d.FillRule; fill color.Color; line color.Color; cap draw2d.LineCap; join draw2d.LineJoin; width float64; dash []float64; offset float64; out []D2Paint }

spec pt64(v fixed.Int26_6) float64 = float64(v) / 64
spec segMove(p fixed.Point26_6) Seg = Seg{kind: 0, x1: pt64(p.X), y1: pt64(p.Y), x2: 0, y2: 0, x3: 0, y3: 0}
spec segLine(p fixed.Point26_6) Seg = Seg{kind: 1, x1: pt64(p.X), y1: pt64(p.Y), x2: 0, y2: 0, x3: 0, y3: 0}
spec segQuad(p, q fixed.Point26_6) Seg = Seg{kind: 2, x1: pt64(p.X), y1: pt64(p.Y), x2: pt64(q.X), y2: pt64(q.Y), x3: 0, y3: 0}
spec segCubic(p, q, r fixed.Point26_6) Seg = Seg{kind: 3, x1: pt64(p.X), y1: pt64(p.Y), x2: pt64(q.X), y2: pt64(q.Y), x3: pt64(r.X), y3: pt64(r.Y)}
spec segClose() Seg = Seg{kind: 4, x1: 0, y1: 0, x2: 0, y2: 0, x3: 0, y3: 0}
// an operation of a path, every point mapped by m
def segOf(op svg.Operation, m Matrix2D) Seg =
  ite(is(op, svg.OpMoveTo), segMove(tfix(m, fixed.Point26_6(as(op, svg.OpMoveTo)))),
  ite(is(op, svg.OpLineTo), segLine(tfix(m, fixed.Point26_6(as(op, svg.OpLineTo)))),
  ite(is(op, svg.OpQuadTo), segQuad(tfix(m, as(op, svg.OpQuadTo)[0]), tfix(m, as(op, svg.OpQuadTo)[1])),
  ite(is(op, svg.OpCubicTo), segCubic(tfix(m, as(op, svg.OpCubicTo)[0]), tfix(m, as(op, svg.OpCubicTo)[1]), tfix(m, as(op, svg.OpCubicTo)[2])), segClose()))))
rec segs(p svg.Path, n int, m Matrix2D) []Seg = ite(n <= 0, []Seg{}, snoc(segs(p, n-1, m), segOf(p[n-1], m)))
spec knownOp(op svg.Operation) bool = is(op, svg.OpMoveTo) || is(op, svg.OpLineTo) || is(op, svg.OpQuadTo) || is(op, svg.OpCubicTo) || is(op, svg.OpClose)

// a colour at an opacity
spec tint(c color.Color, o float64) color.Color = color.Color(color.NRGBA{R: uint8(app("color.R", int, c) >> 8), G: uint8(app("color.G", int, c) >> 8), B: uint8(app("color.B", int, c) >> 8), A: uint8(int(float64(app("color.A", int, c)) * o) >> 8)})

func draw2d.GraphicContext.BeginPath(gc)
  trusted draw2d
  modifies gc.path
  ensures gc.path == []Seg{}
func draw2d.GraphicContext.MoveTo(gc, x, y)
  trusted draw2d
  modifies gc.path
  ensures gc.path == snoc(old(gc.path), Seg{kind: 0, x1: x, y1: y, x2: 0, y2: 0, x3: 0, y3: 0})
func draw2d.GraphicContext.LineTo(gc, x, y)
  trusted draw2d
  modifies gc.path
  ensures gc.path == snoc(old(gc.path), Seg{kind: 1, x1: x, y1: y, x2: 0, y2: 0, x3: 0, y3: 0})
func draw2d.GraphicContext.QuadCurveTo(gc, x1, y1, x2, y2)
  trusted draw2d
  modifies gc.path
  ensures gc.path == snoc(old(gc.path), Seg{kind: 2, x1: x1, y1: y1, x2: x2, y2: y2, x3: 0, y3: 0})
func draw2d.GraphicContext.CubicCurveTo(gc, x1, y1, x2, y2, x3, y3)
  trusted draw2d
  modifies gc.path
  ensures gc.path == snoc(old(gc.path), Seg{kind: 3, x1: x1, y1: y1, x2: x2, y2: y2, x3: x3, y3: y3})
func draw2d.GraphicContext.Close(gc)
  trusted draw2d
  modifies gc.path
  ensures gc.path == snoc(old(gc.path), segClose())
func draw2d.GraphicContext.SetFillRule(gc, f)
  trusted draw2d
  modifies gc.rule
  ensures gc.rule == f
func draw2d.GraphicContext.SetFillColor(gc, c)
  trusted draw2d
  modifies gc.fill
  ensures gc.fill == c
func draw2d.GraphicContext.SetStrokeColor(gc, c)
  trusted draw2d
  modifies gc.line
  ensures gc.line == c
func draw2d.GraphicContext.SetLineCap(gc, c)
  trusted draw2d
  modifies gc.cap
  ensures gc.cap == c
func draw2d.GraphicContext.SetLineJoin(gc, c)
  trusted draw2d
  modifies gc.join
  ensures gc.join == c
func draw2d.GraphicContext.SetLineWidth(gc, c)
  trusted draw2d
  modifies gc.width
  ensures gc.width == c
func draw2d.GraphicContext.SetLineDash(gc, d, o)
  trusted draw2d
  modifies gc.dash, gc.offset
  ensures gc.dash == d && gc.offset == o
// painting uses the settings as they are then, and ends the path
spec d2Fill(p []Seg, c color.Color, r draw2d.FillRule) D2Paint = D2Paint{stroke: false, path: p, color: c, rule: r, cap: 0, join: 0, width: 0, dash: nil, offset: 0}
spec d2Line(p []Seg, c color.Color, cap draw2d.LineCap, join draw2d.LineJoin, w float64, d []float64, o float64) D2Paint = D2Paint{stroke: true, path: p, color: c, rule: 0, cap: cap, join: join, width: w, dash: d, offset: o}
func draw2d.GraphicContext.Fill(gc, paths)
  trusted draw2d
  requires len(paths) == 0
  modifies gc.path, gc.out
  ensures gc.path == []Seg{} && gc.out == snoc(old(gc.out), d2Fill(old(gc.path), gc.fill, gc.rule))
func draw2d.GraphicContext.Stroke(gc, paths)
  trusted draw2d
  requires len(paths) == 0
  modifies gc.path, gc.out
  ensures gc.path == []Seg{} && gc.out == snoc(old(gc.out), d2Line(old(gc.path), gc.line, gc.cap, gc.join, gc.width, gc.dash, gc.offset))
func draw2d.GraphicContext.FillStroke(gc, paths)
  trusted draw2d
  requires len(paths) == 0
  modifies gc.path, gc.out
  ensures gc.path == []Seg{} && gc.out == snoc(snoc(old(gc.out), d2Fill(old(gc.path), gc.fill, gc.rule)), d2Line(old(gc.path), gc.line, gc.cap, gc.join, gc.width, gc.dash, gc.offset))

func draw2d.drawTo(gc, op, m)
  safety C20
  requires knownOp(op)
  modifies gc.path
  reveal segOf
  ensures [C19 draw2d operation] gc.path == snoc(old(gc.path), segOf(op, m))

spec d2Cap(c svg.CapMode) draw2d.LineCap = ite(c == svg.RoundCap, draw2d.RoundCap, ite(c == svg.SquareCap, draw2d.SquareCap, draw2d.ButtCap))
spec d2Join(j svg.JoinMode) draw2d.LineJoin = ite(j == svg.Round, draw2d.RoundJoin, ite(j == svg.Bevel, draw2d.BevelJoin, draw2d.MiterJoin))
func draw2d.toLineCap(cap) (r)
  safety C20
  ensures [C20 draw2d cap] r == d2Cap(cap)
func draw2d.toLineJoin(join) (r)
  safety C20
  ensures [C20 draw2d join] r == d2Join(join)
func draw2d.toColor(c, opacity) (r)
  safety C20
  requires c != nil
  ensures [C20 draw2d colour] r == tint(c, opacity)
func draw2d.toGradient(g, opacity) (r)
  safety C20
  ensures [C20 draw2d gradient] r == tint(stopClr(g.Stops, 0), opacity)

spec knownPaint(p svg.Pattern) bool = p == nil || is(p, svg.PlainColor) || is(p, svg.Gradient)
spec painted(p svg.Pattern) bool = p != nil
spec d2Color(p svg.Pattern, o float64) color.Color = tint(paintClr(p), o)
// what a path adds: its fill, then its stroke
def d2Draw(out []D2Paint, p svg.SvgPath, m Matrix2D, o float64) []D2Paint =
  let(a, ite(painted(p.Style.FillerColor), snoc(out, d2Fill(segs(p.Path, len(p.Path), m), d2Color(p.Style.FillerColor, p.Style.FillOpacity * o), ite(p.Style.UseNonZeroWinding, draw2d.FillRuleWinding, draw2d.FillRuleEvenOdd))), out),
  ite(painted(p.Style.LinerColor), snoc(a, d2Line(segs(p.Path, len(p.Path), m), d2Color(p.Style.LinerColor, p.Style.LineOpacity * o), d2Cap(p.Style.Join.TrailLineCap), d2Join(p.Style.Join.LineJoin), p.Style.LineWidth * (m.A + m.D)/2, p.Style.Dash.Dash, p.Style.Dash.DashOffset)), a))
rec d2All(out []D2Paint, ps []svg.SvgPath, n int, t Matrix2D, o float64) []D2Paint = ite(n <= 0, out, d2Draw(d2All(out, ps, n-1, t, o), ps[n-1], mmul(t, ps[n-1].Style.Transform), o))

spec knownOps(p svg.Path) bool = forall(i, 0, len(p), knownOp(p[i]))
// the two interfaces are sealed: nothing else can be in a document
spec knownPath(p svg.SvgPath) bool = knownOps(p.Path) && knownPaint(p.Style.FillerColor) && knownPaint(p.Style.LinerColor)
func draw2d.drawTransformed(gc, svgp, opt)
  safety C20
  requires knownPath(svgp)
  modifies gc.path, gc.rule, gc.fill, gc.line, gc.cap, gc.join, gc.width, gc.dash, gc.offset, gc.out
  reveal d2Draw
  ensures [C19 C20 draw2d path] gc.out == d2Draw(old(gc.out), svgp, mmul(opt.Target, svgp.Style.Transform), opt.Opacity)
  invariant gc.path == segs(svgp.Path, K, mmul(opt.Target, svgp.Style.Transform))

func draw2d.Draw(gc, s, opts)
  safety C20
  requires forall(i, 0, len(opts), opts[i] != nil)
  requires forall(i, 0, len(s.SvgPaths), knownPath(s.SvgPaths[i]))
  modifies gc.path, gc.rule, gc.fill, gc.line, gc.cap, gc.join, gc.width, gc.dash, gc.offset, gc.out
  ensures [C19 C20 draw2d document] gc.out == d2All(old(gc.out), s.SvgPaths, len(s.SvgPaths), optsTarget(s.ViewBox, opts, len(opts)), optsOpacity(opts, len(opts)))
  invariant gc.out == d2All(old(gc.out), s.SvgPaths, K, optsTarget(s.ViewBox, opts, len(opts)), optsOpacity(opts, len(opts)))
