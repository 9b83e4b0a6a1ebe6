// The gg renderer (C19, C20). The context is known by its record: size, current
// path (cur: it has a current point), settings, and what has been painted so far.

type GGStop struct { pos float64; color color.Color }
type Sh_gg_Gradient struct { radial bool; x0, y0, r0, x1, y1, r1 float64; stops []GGStop }
type GGPaint struct { stroke bool; path []Seg; paint gg.Pattern; nonZero bool; cap gg.LineCap; join gg.LineJoin; width float64; dash []float64; offset float64; mask *image.Alpha }
type Sh_gg_Context struct { w, h int; path []Seg; cur bool; nonZero bool; fill gg.Pattern; line gg.Pattern; cap gg.LineCap; join gg.LineJoin; width float64; dash []float64; offset float64; mask *image.Alpha; out []GGPaint }
type Sh_image_Image struct { w, h int }
spec seg(k int, x1, y1, x2, y2, x3, y3 float64) Seg = Seg{kind: k, x1: x1, y1: y1, x2: x2, y2: y2, x3: x3, y3: y3}

func gg.NewContext(w, h) (r)
  trusted gg
  ensures r.w == w && r.h == h && r.path == []Seg{} && !r.cur && r.nonZero && r.mask == nil && r.out == []GGPaint{}
func gg.(*Context).Image(gc) (r)
  trusted gg
  ensures r.w == gc.w && r.h == gc.h
func image.Image.Bounds(i) (r)
  trusted image
  ensures r.Max.X == r.Min.X + i.w && r.Max.Y == r.Min.Y + i.h
func gg.(*Context).Width(gc) (r)
  trusted gg
  ensures r == gc.w
func gg.(*Context).Height(gc) (r)
  trusted gg
  ensures r == gc.h
// a new subpath is only a matter of where the next operation starts
func gg.(*Context).NewSubPath(gc)
  trusted gg
  modifies gc.cur
  ensures !gc.cur
func gg.(*Context).ClearPath(gc)
  trusted gg
  modifies gc.path, gc.cur
  ensures gc.path == []Seg{} && !gc.cur
func gg.(*Context).MoveTo(gc, x, y)
  trusted gg
  modifies gc.path, gc.cur
  ensures gc.cur && gc.path == snoc(old(gc.path), seg(0, x, y, 0, 0, 0, 0))
func gg.(*Context).LineTo(gc, x, y)
  trusted gg
  modifies gc.path, gc.cur
  ensures gc.cur && gc.path == snoc(old(gc.path), seg(ite(old(gc.cur), 1, 0), x, y, 0, 0, 0, 0))
// without a current point a curve starts at its first control point
func gg.(*Context).QuadraticTo(gc, x1, y1, x2, y2)
  trusted gg
  modifies gc.path, gc.cur
  ensures gc.cur && gc.path == snoc(old(gc.path), seg(ite(old(gc.cur), 2, 12), x1, y1, x2, y2, 0, 0))
func gg.(*Context).CubicTo(gc, x1, y1, x2, y2, x3, y3)
  trusted gg
  modifies gc.path, gc.cur
  ensures gc.cur && gc.path == snoc(old(gc.path), seg(ite(old(gc.cur), 3, 13), x1, y1, x2, y2, x3, y3))
func gg.(*Context).ClosePath(gc)
  trusted gg
  modifies gc.path
  ensures gc.path == ite(gc.cur, snoc(old(gc.path), seg(4, 0, 0, 0, 0, 0, 0)), old(gc.path))
func gg.(*Context).SetFillRuleWinding(gc)
  trusted gg
  modifies gc.nonZero
  ensures gc.nonZero
func gg.(*Context).SetFillRuleEvenOdd(gc)
  trusted gg
  modifies gc.nonZero
  ensures !gc.nonZero
func gg.(*Context).SetFillStyle(gc, p)
  trusted gg
  modifies gc.fill
  ensures gc.fill == p
func gg.(*Context).SetStrokeStyle(gc, p)
  trusted gg
  modifies gc.line
  ensures gc.line == p
func gg.(*Context).SetLineCap(gc, c)
  trusted gg
  modifies gc.cap
  ensures gc.cap == c
func gg.(*Context).SetLineJoin(gc, c)
  trusted gg
  modifies gc.join
  ensures gc.join == c
func gg.(*Context).SetLineWidth(gc, c)
  trusted gg
  modifies gc.width
  ensures gc.width == c
func gg.(*Context).SetDash(gc, d)
  trusted gg
  modifies gc.dash
  ensures gc.dash == d
func gg.(*Context).SetDashOffset(gc, c)
  trusted gg
  modifies gc.offset
  ensures gc.offset == c
spec alphaFits(a *image.Alpha, w, h int) bool = app("gg.alphaW", int, a) == w && app("gg.alphaH", int, a) == h
func gg.(*Context).SetMask(gc, mask) (err)
  trusted gg
  requires alphaFits(mask, gc.w, gc.h)
  modifies gc.mask
  ensures err == nil && gc.mask == mask
func gg.(*Context).ResetClip(gc)
  trusted gg
  modifies gc.mask
  ensures gc.mask == nil
// the mask image is made of what was painted
spec alphaOf(out []GGPaint, w, h int) *image.Alpha = app("gg.alpha", *image.Alpha, out, w, h)
func gg.(*Context).AsMask(gc) (r)
  trusted gg
  ensures r == alphaOf(gc.out, gc.w, gc.h) && r != nil && alphaFits(r, gc.w, gc.h)
func gg.NewSolidPattern(c) (r)
  trusted gg
  ensures r == app("gg.solid", gg.Pattern, c)
func gg.NewLinearGradient(x0, y0, x1, y1) (r)
  trusted gg
  ensures !r.radial && r.x0 == x0 && r.y0 == y0 && r.r0 == 0 && r.x1 == x1 && r.y1 == y1 && r.r1 == 0 && r.stops == []GGStop{}
func gg.NewRadialGradient(x0, y0, r0, x1, y1, r1) (r)
  trusted gg
  ensures r.radial && r.x0 == x0 && r.y0 == y0 && r.r0 == r0 && r.x1 == x1 && r.y1 == y1 && r.r1 == r1 && r.stops == []GGStop{}
func gg.Gradient.AddColorStop(g, pos, c)
  trusted gg
  modifies g.stops
  ensures g.stops == snoc(old(g.stops), GGStop{pos: pos, color: c})
// painting uses the settings as they are then
spec ggFillOf(p []Seg, c gg.Pattern, nz bool, mask *image.Alpha) GGPaint = GGPaint{stroke: false, path: p, paint: c, nonZero: nz, cap: 0, join: 0, width: 0, dash: nil, offset: 0, mask: mask}
spec ggLineOf(p []Seg, c gg.Pattern, cap gg.LineCap, join gg.LineJoin, w float64, d []float64, o float64, mask *image.Alpha) GGPaint = GGPaint{stroke: true, path: p, paint: c, nonZero: false, cap: cap, join: join, width: w, dash: d, offset: o, mask: mask}
func gg.(*Context).FillPreserve(gc)
  trusted gg
  modifies gc.out
  ensures gc.out == snoc(old(gc.out), ggFillOf(gc.path, gc.fill, gc.nonZero, gc.mask))
func gg.(*Context).Fill(gc)
  trusted gg
  modifies gc.out, gc.path, gc.cur
  ensures gc.out == snoc(old(gc.out), ggFillOf(old(gc.path), gc.fill, gc.nonZero, gc.mask)) && gc.path == []Seg{} && !gc.cur
func gg.(*Context).StrokePreserve(gc)
  trusted gg
  modifies gc.out
  ensures gc.out == snoc(old(gc.out), ggLineOf(gc.path, gc.line, gc.cap, gc.join, gc.width, gc.dash, gc.offset, gc.mask))
func gg.(*Context).Stroke(gc)
  trusted gg
  modifies gc.out, gc.path, gc.cur
  ensures gc.out == snoc(old(gc.out), ggLineOf(old(gc.path), gc.line, gc.cap, gc.join, gc.width, gc.dash, gc.offset, gc.mask)) && gc.path == []Seg{} && !gc.cur

// ---- the renderer ----

type GGPath struct { path []Seg; cur bool }
// an operation of a path with every point mapped by m
spec ggSeg(s Seg, cur bool) Seg = ite(cur || s.kind == 0 || s.kind == 4, s, put(s, kind, ite(s.kind == 1, 0, s.kind + 10)))
def ggStep(g GGPath, op svg.Operation, m Matrix2D) GGPath = ite(is(op, svg.OpClose), ite(g.cur, GGPath{path: snoc(g.path, segClose()), cur: true}, g), GGPath{path: snoc(g.path, ggSeg(segOf(op, m), g.cur)), cur: true})
rec ggSegs(p svg.Path, n int, m Matrix2D) GGPath = ite(n <= 0, GGPath{path: []Seg{}, cur: false}, ggStep(ggSegs(p, n-1, m), p[n-1], m))
spec ggPathOf(p svg.Path, m Matrix2D) []Seg = ggSegs(p, len(p), m).path

func gg.drawTo(gc, op, m)
  safety C20
  requires knownOp(op)
  modifies gc.path, gc.cur
  reveal segOf ggStep
  ensures [C19 gg operation] GGPath{path: gc.path, cur: gc.cur} == ggStep(GGPath{path: old(gc.path), cur: old(gc.cur)}, op, m)

spec ggCap(c svg.CapMode) gg.LineCap = ite(c == svg.RoundCap, gg.LineCapRound, ite(c == svg.SquareCap, gg.LineCapSquare, gg.LineCapButt))
spec ggJoin(j svg.JoinMode) gg.LineJoin = ite(j == svg.Round, gg.LineJoinRound, gg.LineJoinBevel)
func gg.toLineCap(cap) (r)
  safety C20
  ensures [C20 gg cap] r == ggCap(cap)
func gg.toLineJoin(join) (r)
  safety C20
  ensures [C20 gg join] r == ggJoin(join)
func gg.toColor(c, opacity) (r)
  safety C20
  requires c != nil
  ensures [C20 gg colour] r == tint(c, opacity)

// gradients as the parser makes them: with a direction and a colour at every stop
spec fullGrad(g svg.Gradient) bool = (is(g.Direction, svg.Linear) || is(g.Direction, svg.Radial)) && forall(i, 0, len(g.Stops), g.Stops[i].StopColor != nil)
rec ggStops(s []svg.GradStop, n int, o float64) []GGStop = ite(n <= 0, []GGStop{}, snoc(ggStops(s, n-1, o), GGStop{pos: s[n-1].Offset, color: tint(s[n-1].StopColor, s[n-1].Opacity * o)}))
def ggGrad(g svg.Gradient, o float64) Sh_gg_Gradient = ite(is(g.Direction, svg.Linear),
  let(d, as(g.Direction, svg.Linear), Sh_gg_Gradient{radial: false, x0: d[0], y0: d[1], r0: 0, x1: d[2], y1: d[3], r1: 0, stops: ggStops(g.Stops, len(g.Stops), o)}),
  let(d, as(g.Direction, svg.Radial), Sh_gg_Gradient{radial: true, x0: d[0], y0: d[1], r0: d[4], x1: d[2], y1: d[3], r1: d[5], stops: ggStops(g.Stops, len(g.Stops), o)}))
func gg.toGradient(g, opacity) (r)
  safety C20
  requires fullGrad(g)
  reveal ggGrad
  ensures [C20 gg gradient] r.radial == ggGrad(g, opacity).radial && r.x0 == ggGrad(g, opacity).x0 && r.y0 == ggGrad(g, opacity).y0 && r.r0 == ggGrad(g, opacity).r0 && r.x1 == ggGrad(g, opacity).x1 && r.y1 == ggGrad(g, opacity).y1 && r.r1 == ggGrad(g, opacity).r1
  ensures [C20 gg stops] r.stops == ggStops(g.Stops, len(g.Stops), opacity)
  invariant VP_g.stops == ggStops(g.Stops, K, opacity)

// ---- paths and masks ----

type GGDoc struct { has chan bool; ref chan *svg.SvgMask; cell <-chan svg.SvgMask; w, h int }
spec ggDocOf(s *svg.Svg, w, h int) GGDoc = GGDoc{has: mapkeys(s.SvgMasks), ref: mapvals(s.SvgMasks), cell: cells(svg.SvgMask), w: w, h: h}
spec fullPaint(p svg.Pattern) bool = imp(is(p, svg.Gradient), fullGrad(as(p, svg.Gradient)))
spec fullPath(p svg.SvgPath) bool = knownPath(p) && fullPaint(p.Style.FillerColor) && fullPaint(p.Style.LinerColor)
spec ggFillPaint(p svg.Pattern, o float64) gg.Pattern = ite(is(p, svg.Gradient), gg.Pattern(ggGrad(as(p, svg.Gradient), o)), app("gg.solid", gg.Pattern, tint(color.Color(as(p, svg.PlainColor)), o)))
spec ggLinePaint(p svg.Pattern, o float64) gg.Pattern = app("gg.solid", gg.Pattern, tint(paintClr(p), o))
// what a path adds: its fill, then its stroke, both under its mask
def ggDraw(D GGDoc, out []GGPaint, p svg.SvgPath, m Matrix2D, o float64, active []string) []GGPaint = let(mask, ggClip(D, p.Style.Masks, m, active),
  let(a, ite(painted(p.Style.FillerColor), snoc(out, ggFillOf(ggPathOf(p.Path, m), ggFillPaint(p.Style.FillerColor, p.Style.FillOpacity * o), p.Style.UseNonZeroWinding, mask)), out),
  ite(painted(p.Style.LinerColor), snoc(a, ggLineOf(ggPathOf(p.Path, m), ggLinePaint(p.Style.LinerColor, p.Style.LineOpacity * o), ggCap(p.Style.Join.TrailLineCap), ggJoin(p.Style.Join.LineJoin), p.Style.LineWidth * (m.A + m.D)/2, p.Style.Dash.Dash, p.Style.Dash.DashOffset, mask)), a)))
// the last mask counts; one that is missing or being drawn is left out
spec ggMaskId(ids []string) string = last(ids)
def ggClip(D GGDoc, ids []string, m Matrix2D, active []string) *image.Alpha = ite(len(ids) == 0 || isName(active, 0, ggMaskId(ids)) || !D.has[ggMaskId(ids)], nil,
  let(ps, D.cell[D.ref[ggMaskId(ids)]].SvgPaths, alphaOf(ggPaths(D, ps, len(ps), m, snoc(active, ggMaskId(ids))), D.w, D.h)))
rec ggPaths(D GGDoc, ps []svg.SvgPath, n int, m Matrix2D, active []string) []GGPaint = ite(n <= 0, []GGPaint{}, ggDraw(D, ggPaths(D, ps, n-1, m, active), ps[n-1], m, 1, active))
rec ggAll(D GGDoc, out []GGPaint, ps []svg.SvgPath, n int, t Matrix2D, o float64) []GGPaint = ite(n <= 0, out, ggDraw(D, ggAll(D, out, ps, n-1, t, o), ps[n-1], mmul(t, ps[n-1].Style.Transform), o, []string{}))

func gg.drawTransformed(gc, s, svgp, m, opacity, activeMasks) (err)
  safety C20
  requires fullPath(svgp)
  modifies gc.path, gc.cur, gc.nonZero, gc.fill, gc.line, gc.cap, gc.join, gc.width, gc.dash, gc.offset, gc.mask, gc.out
  reveal ggDraw ggClip ggGrad
  ensures [C20 gg no error] err == nil
  ensures [C19 C20 gg path] gc.out == ggDraw(ggDocOf(s, gc.w, gc.h), old(gc.out), svgp, m, opacity, activeMasks)
  invariant GGPath{path: gc.path, cur: gc.cur} == ggSegs(svgp.Path, K, m)

func gg.getMask(s, masks, rectangle, m, activeMasks) (r, err)
  safety C20
  requires len(masks) > 0
  // documents as the parser makes them
  assume imp(mapkeys(s.SvgMasks)[last(masks)], mapvals(s.SvgMasks)[last(masks)] != nil && let(ps, cells(svg.SvgMask)[mapvals(s.SvgMasks)[last(masks)]].SvgPaths, forall(i, 0, len(ps), fullPath(ps[i]))))
  reveal ggClip
  ensures [C20 gg mask] err == nil && r == ggClip(ggDocOf(s, rectangle.Max.X - rectangle.Min.X, rectangle.Max.Y - rectangle.Min.Y), masks, m, activeMasks)
  ensures [C20 gg mask size] r == nil || alphaFits(r, rectangle.Max.X - rectangle.Min.X, rectangle.Max.Y - rectangle.Min.Y)
  invariant isName(activeMasks, K, last(masks)) == isName(activeMasks, 0, last(masks))
  invariant VP_g.out == ggPaths(ggDocOf(s, rectangle.Max.X - rectangle.Min.X, rectangle.Max.Y - rectangle.Min.Y), cells(svg.SvgMask)[mapvals(s.SvgMasks)[last(masks)]].SvgPaths, K, m, snoc(activeMasks, last(masks)))

func gg.Draw(gc, s, opts) (err)
  safety C20
  requires forall(i, 0, len(opts), opts[i] != nil)
  requires forall(i, 0, len(s.SvgPaths), fullPath(s.SvgPaths[i]))
  modifies gc.path, gc.cur, gc.nonZero, gc.fill, gc.line, gc.cap, gc.join, gc.width, gc.dash, gc.offset, gc.mask, gc.out
  ensures [C20 gg drawn without error] err == nil
  ensures [C19 C20 gg document] gc.out == ggAll(ggDocOf(s, gc.w, gc.h), old(gc.out), s.SvgPaths, len(s.SvgPaths), optsTarget(s.ViewBox, opts, len(opts)), optsOpacity(opts, len(opts)))
  invariant gc.out == ggAll(ggDocOf(s, gc.w, gc.h), old(gc.out), s.SvgPaths, K, optsTarget(s.ViewBox, opts, len(opts)), optsOpacity(opts, len(opts)))
