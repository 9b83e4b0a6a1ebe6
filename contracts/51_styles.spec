// Styles (C10, C11).

// the gradients that can be referenced: their ids, and what each refers to
type Paints struct { has chan bool; ref chan *svg.Gradient; cell <-chan svg.Gradient }
// what the meaning of a declaration depends on besides the style it changes
type Env struct { vb svg.Bounds; strict bool; top svg.Matrix2D; paints Paints }
spec paintsOf(s *svg.Svg) Paints = Paints{has: mapkeys(s.grads), ref: mapvals(s.grads), cell: cells(svg.Gradient)}
spec envOf(c *svg.svgCursor) Env = Env{vb: c.svg.ViewBox, strict: c.errorMode == svg.StrictErrorMode, top: last(c.styleStack).Transform, paints: paintsOf(c.svg)}

func svg.(*svgCursor).handleError(c, f, args) (err)
  ensures [C16 C11 errors by mode] (err != nil) == (c.errorMode == svg.StrictErrorMode)

// colour of a paint: itself, the first stop colour of a gradient, or black
rec stopClr(s []svg.GradStop, i int) color.Color = ite(i >= len(s), color.Color(colornames.Black), ite(s[i].StopColor != nil, s[i].StopColor, stopClr(s, i+1)))
spec paintClr(p svg.Pattern) color.Color = ite(is(p, svg.Gradient), stopClr(as(p, svg.Gradient).Stops, 0), ite(is(p, svg.PlainColor), color.Color(as(p, svg.PlainColor)), color.Color(colornames.Black)))

func svg.GetColor(p) (r)
  ensures [C11 C13 colour of a paint] r == paintClr(p)
  ensures [C20 a colour] r != nil
  invariant stopClr(as(p, svg.Gradient).Stops, K) == stopClr(as(p, svg.Gradient).Stops, 0)

// a referenced gradient: stops without a colour take the inherited one
spec localStop(s svg.GradStop, clr color.Color) svg.GradStop = ite(s.StopColor == nil, put(s, StopColor, clr), s)
spec localStops(s []svg.GradStop, clr color.Color) []svg.GradStop = seqof(i, len(s), localStop(s[i], clr))
spec localGrad(g svg.Gradient, p svg.Pattern) svg.Gradient = put(g, Stops, localStops(g.Stops, paintClr(p)))

func svg.localizeGradIfStopClrNil(g, p) (r)
  ensures [C11 C13 localized gradient] r == localGrad(*g, p)
  invariant forall(i, 0, K, g.Stops[i].StopColor != nil)
  invariant V_t == seqof(i, K, localStop(g.Stops[i], paintClr(p)))
  invariant V_t == seqof(i, len(g.Stops), ite(i < K, localStop(g.Stops[i], paintClr(p)), g.Stops[i]))

// a paint that references a gradient: url(#id)
spec isUrl(v string) bool = strings.HasPrefix(v, "url(") && strings.HasSuffix(v, ")")
spec urlIn(v string) string = strings.TrimSpace(v[4:len(v)-1])
spec urlId(v string) string = urlIn(v)[1:]
def urlFound(p Paints, v string) bool = isUrl(v) && strings.HasPrefix(urlIn(v), "#") && p.has[urlId(v)]
def urlGrad(p Paints, v string) svg.Gradient = p.cell[p.ref[urlId(v)]]

func svg.(*svgCursor).readGradURL(c, v, p) (grad, ok)
  reveal urlFound urlGrad
  ensures [C11 C13 C10 gradient found] ok == urlFound(paintsOf(c.svg), v)
  ensures [C11 C13 C10 gradient referenced] imp(ok, grad == localGrad(urlGrad(paintsOf(c.svg), v), p))

// the paint a value denotes, p being the inherited one
spec plainOf(o svg.optionnalColor) svg.Pattern = ite(o.valid, svg.Pattern(o.color), nil)
def paintOf(ps Paints, v string, p svg.Pattern) svg.Pattern = ite(urlFound(ps, v), svg.Pattern(localGrad(urlGrad(ps, v), p)), plainOf(colorVal(v)))
def paintOK(ps Paints, v string) bool = urlFound(ps, v) || colorOK(v)

// a mask reference: empty or none for no mask, otherwise url(#id)
spec selNone(v string) bool = len(v) == 0 || v == "none"
spec selIn(v string) string = v[4:strings.Index(v, ")")]
def selOK(v string) bool = selNone(v) || (strings.HasPrefix(v, "url(") && strings.Index(v, ")") >= 0 && strings.HasPrefix(selIn(v), "#"))
def selId(v string) string = ite(selNone(v), "", selIn(v)[1:])

func svg.(*svgCursor).parseSelector(c, v) (id, err)
  reveal selOK selId
  ensures [C11 C15 C10 selector accepted] (err == nil) == selOK(v)
  ensures [C11 C15 C10 selector] imp(err == nil, id == selId(v))

// dashes: lengths separated by commas or spaces
def dashParts(v string) []string = fields(v, r, r == ',' || r == ' ')
rec dashesOK(p []string, i int) bool = i >= len(p) || (lenOK(strings.TrimSpace(p[i])) && dashesOK(p, i+1))
def dashOK(v string) bool = v == "none" || dashesOK(dashParts(v), 0)
def dashVal(vb svg.Bounds, v string) []float64 = ite(v == "none", []float64{}, seqof(i, len(dashParts(v)), lenPx(vb, strings.TrimSpace(dashParts(v)[i]), 2)))

spec capOf(v string, d svg.CapMode) svg.CapMode =
  ite(v == "butt", svg.ButtCap, ite(v == "round", svg.RoundCap, ite(v == "square", svg.SquareCap, ite(v == "cubic", svg.CubicCap, ite(v == "quadratic", svg.QuadraticCap, d)))))
spec isCap(v string) bool = v == "butt" || v == "round" || v == "square" || v == "cubic" || v == "quadratic"
spec joinOf(v string, d svg.JoinMode) svg.JoinMode =
  ite(v == "miter", svg.Miter, ite(v == "miter-clip", svg.MiterClip, ite(v == "arc-clip", svg.ArcClip, ite(v == "round", svg.Round, ite(v == "arc", svg.Arc, ite(v == "bevel", svg.Bevel, d))))))
spec isJoin(v string) bool = v == "miter" || v == "miter-clip" || v == "arc-clip" || v == "round" || v == "arc" || v == "bevel"
spec gapOf(v string, d svg.GapMode) svg.GapMode = ite(v == "flat", svg.FlatGap, ite(v == "round", svg.RoundGap, ite(v == "cubic", svg.CubicGap, ite(v == "quadratic", svg.QuadraticGap, d))))
spec isGap(v string) bool = v == "flat" || v == "round" || v == "cubic" || v == "quadratic"

// one declaration: what it does to a style and when it is an error
def styleSet(e Env, s svg.PathStyle, k, v string) svg.PathStyle =
  ite(k == "fill", put(s, FillerColor, paintOf(e.paints, v, s.FillerColor)),
  ite(k == "stroke", put(s, LinerColor, paintOf(e.paints, v, s.LinerColor)),
  ite(k == "fill-rule", put(s, UseNonZeroWinding, ite(v == "evenodd", false, ite(v == "nonzero", true, s.UseNonZeroWinding))),
  ite(k == "stroke-linegap", put(s, Join.LineGap, gapOf(v, s.Join.LineGap)),
  ite(k == "stroke-leadlinecap", put(s, Join.LeadLineCap, capOf(v, s.Join.LeadLineCap)),
  ite(k == "stroke-linecap", put(s, Join.TrailLineCap, capOf(v, s.Join.TrailLineCap)),
  ite(k == "stroke-linejoin", put(s, Join.LineJoin, joinOf(v, s.Join.LineJoin)),
  ite(k == "stroke-miterlimit", put(s, Join.MiterLimit, fixed.Int26_6(lenVal(v)*64)),
  ite(k == "stroke-width", put(s, LineWidth, lenPx(e.vb, v, 2)),
  ite(k == "stroke-dashoffset", put(s, Dash.DashOffset, lenPx(e.vb, v, 2)),
  ite(k == "stroke-dasharray", put(s, Dash.Dash, dashVal(e.vb, v)),
  ite(k == "opacity", put(put(s, FillOpacity, s.FillOpacity * unitClamp(fracVal(v))), LineOpacity, s.LineOpacity * unitClamp(fracVal(v))),
  ite(k == "fill-opacity", put(s, FillOpacity, s.FillOpacity * unitClamp(fracVal(v))),
  ite(k == "stroke-opacity", put(s, LineOpacity, s.LineOpacity * unitClamp(fracVal(v))),
  ite(k == "transform", put(s, Transform, tfMul(e.top, v)),
  ite(k == "mask", put(s, Masks, snoc(s.Masks, selId(v))), s))))))))))))))))
def styleOK(e Env, k, v string) bool =
  ite(k == "fill" || k == "stroke", paintOK(e.paints, v),
  ite(k == "fill-rule", !e.strict || v == "evenodd" || v == "nonzero",
  ite(k == "stroke-linegap", !e.strict || isGap(v),
  ite(k == "stroke-leadlinecap" || k == "stroke-linecap", !e.strict || isCap(v),
  ite(k == "stroke-linejoin", !e.strict || isJoin(v),
  ite(k == "stroke-miterlimit" || k == "stroke-width" || k == "stroke-dashoffset", lenOK(v),
  ite(k == "stroke-dasharray", dashOK(v),
  ite(k == "opacity" || k == "fill-opacity" || k == "stroke-opacity", fracOK(v),
  ite(k == "transform", tfOK(v), imp(k == "mask", selOK(v)))))))))))

func svg.(*svgCursor).readStyleAttr(c, s, k, v) (err)
  requires len(c.styleStack) >= 1
  modifies *s, c.points
  reveal styleSet styleOK paintOf paintOK dashParts dashOK dashVal
  ensures [C11 C10 C16 declaration accepted] (err == nil) == styleOK(envOf(c), k, v)
  ensures [C11 C10 C16 declaration] imp(err == nil, *s == styleSet(envOf(c), old(*s), k, v))
  invariant dashesOK(dashParts(v), K) == dashesOK(dashParts(v), 0)
  invariant V_d == seqof(i, K, lenPx(c.svg.ViewBox, strings.TrimSpace(dashParts(v)[i]), 2))
  invariant V_d == seqof(i, len(dashParts(v)), ite(i < K, lenPx(c.svg.ViewBox, strings.TrimSpace(dashParts(v)[i]), 2), 0.0))

// the declarations of an element in the order in which they apply: presentation attributes, then the style attribute
rec ownDecls(a []xml.Attr, n int) []string = ite(n <= 0, []string{}, ite(strings.ToLower(aname(a, n-1)) == "style", ownDecls(a, n-1), snoc(ownDecls(a, n-1), aname(a, n-1) + ":" + a[n-1].Value)))
rec styleDecls(a []xml.Attr, n int) []string = ite(n <= 0, []string{}, ite(strings.ToLower(aname(a, n-1)) == "style", cat(styleDecls(a, n-1), strings.Split(a[n-1].Value, ";")), styleDecls(a, n-1)))
def decls(a []xml.Attr) []string = cat(ownDecls(a, len(a)), styleDecls(a, len(a)))
spec declKV(d string) []string = strings.Split(d, ":")
spec declKey(d string) string = strings.TrimSpace(strings.ToLower(declKV(d)[0]))
spec declVal(d string) string = strings.TrimSpace(declKV(d)[1])
spec declOK(e Env, d string) bool = len(declKV(d)) < 2 || styleOK(e, declKey(d), declVal(d))
spec declSet(e Env, s svg.PathStyle, d string) svg.PathStyle = ite(len(declKV(d)) < 2, s, styleSet(e, s, declKey(d), declVal(d)))
rec declsOK(e Env, ds []string, i int) bool = i >= len(ds) || (declOK(e, ds[i]) && declsOK(e, ds, i+1))
rec declsSet(e Env, s svg.PathStyle, ds []string, i int) svg.PathStyle = ite(i >= len(ds), s, declsSet(e, declSet(e, s, ds[i]), ds, i+1))
// the style of an element
def elemOK(e Env, a []xml.Attr) bool = declsOK(e, decls(a), 0)
def elemStyle(e Env, s svg.PathStyle, a []xml.Attr) svg.PathStyle = declsSet(e, s, decls(a), 0)

func svg.(*svgCursor).pushStyle(c, attrs) (err)
  requires len(c.styleStack) >= 1
  modifies c.styleStack, c.points
  reveal decls elemOK elemStyle
  ensures [C10 C11 C14 C15 C16 C17 declarations accepted] (err == nil) == elemOK(old(envOf(c)), attrs)
  ensures [C10 C11 C14 C15 C16 C17 style of the element] c.styleStack == ite(err == nil, snoc(old(c.styleStack), elemStyle(old(envOf(c)), last(old(c.styleStack)), attrs)), old(c.styleStack))
  invariant V_p == ownDecls(attrs, K)
  invariant V_p == styleDecls(attrs, K)
  invariant declsOK(envOf(c), decls(attrs), K) == declsOK(envOf(c), decls(attrs), 0)
  invariant declsSet(envOf(c), V_s, decls(attrs), K) == declsSet(envOf(c), init(V_s), decls(attrs), 0)
