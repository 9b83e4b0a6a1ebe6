// Gradients (C13).

// what declarations of a style attribute add to the attributes: those with one of the names (all without names)
rec firstStyle(a []xml.Attr, i int) string = ite(i >= len(a), "", ite(aname(a, i) == "style", a[i].Value, firstStyle(a, i+1)))
rec isName(names []string, i int, k string) bool = i < len(names) && (names[i] == k || isName(names, i+1, k))
spec cutAt(s string) int = strings.Index(s, ":")
spec cutKey(s string) string = strings.ToLower(strings.TrimSpace(s[:cutAt(s)]))
spec cutVal(s string) string = strings.TrimSpace(s[cutAt(s)+1:])
spec taken(s string, names []string) bool = cutAt(s) >= 0 && (len(names) == 0 || isName(names, 0, cutKey(s)))
rec styleAttrs(p []string, n int, names []string) []xml.Attr =
  ite(n <= 0, []xml.Attr{}, ite(taken(p[n-1], names), snoc(styleAttrs(p, n-1, names), xml.Attr{Name: xml.Name{Space: "", Local: cutKey(p[n-1])}, Value: cutVal(p[n-1])}), styleAttrs(p, n-1, names)))
def withStyle(a []xml.Attr, names []string) []xml.Attr = ite(firstStyle(a, 0) == "", a, cat(a, styleAttrs(strings.Split(firstStyle(a, 0), ";"), len(strings.Split(firstStyle(a, 0), ";")), names)))

func svg.appendStyleAttrs(attrs, names) (r, err)
  reveal withStyle
  ensures [C13 no error] err == nil
  ensures [C13 style declarations appended] r == withStyle(attrs, names)
  invariant firstStyle(attrs, K) == firstStyle(attrs, 0)
  invariant isName(names, K, VS_k) == isName(names, 0, VS_k)
  invariant V_a == ite(len(names) == 0, attrs, cat(attrs, styleAttrs(strings.Split(firstStyle(attrs, 0), ";"), K, names)))
  invariant V_a == ite(len(names) == 0, styleAttrs(strings.Split(firstStyle(attrs, 0), ";"), K, names), []xml.Attr{})

// stops
spec stopClrOf(o svg.optionnalColor) color.Color = ite(o.valid, color.Color(o.color), nil)
spec stopSet(s svg.GradStop, k, v string) svg.GradStop =
  ite(k == "offset", put(s, Offset, fracVal(v)), ite(k == "stop-color", put(s, StopColor, stopClrOf(colorVal(v))), ite(k == "stop-opacity", put(s, Opacity, unitClamp(fracVal(v))), s)))
spec stopAttrOK(k, v string) bool = ite(k == "offset" || k == "stop-opacity", fracOK(v), imp(k == "stop-color", colorOK(v)))
rec stopOK(a []xml.Attr, i int) bool = i >= len(a) || (stopAttrOK(aname(a, i), a[i].Value) && stopOK(a, i+1))
rec stopOf(a []xml.Attr, n int) svg.GradStop = ite(n <= 0, svg.GradStop{StopColor: nil, Offset: 0.0, Opacity: 1.0}, stopSet(stopOf(a, n-1), aname(a, n-1), a[n-1].Value))
spec stopAttrs(a []xml.Attr) []xml.Attr = withStyle(a, []string{"stop-color", "stop-opacity"})

func svg.stopF(c, attrs) (err)
  requires imp(c.inGrad, c.grad != nil)
  modifies c.grad.Stops
  ensures [C13 C16 stop accepted] (err == nil) == (!c.inGrad || stopOK(stopAttrs(attrs), 0))
  ensures [C13 stop appended] imp(err == nil, imp(c.inGrad, c.grad.Stops == snoc(old(c.grad.Stops), stopOf(stopAttrs(attrs), len(stopAttrs(attrs))))))
  ensures [C13 stop outside a gradient] imp(!c.inGrad, cells(svg.Gradient) == old(cells(svg.Gradient)))
  invariant stopOK(stopAttrs(attrs), K) == stopOK(stopAttrs(attrs), 0)
  invariant V_s == stopOf(stopAttrs(attrs), K)

// attributes common to both kinds; m is the inherited transform
spec gradAttrOK(k, v string) bool = imp(k == "gradientTransform", tfOK(v))
spec unitsOf(v string, d svg.GradientUnits) svg.GradientUnits = ite(strings.TrimSpace(v) == "userSpaceOnUse", svg.UserSpaceOnUse, ite(strings.TrimSpace(v) == "objectBoundingBox", svg.ObjectBoundingBox, d))
spec spreadOf(v string, d svg.SpreadMethod) svg.SpreadMethod = ite(strings.TrimSpace(v) == "pad", svg.PadSpread, ite(strings.TrimSpace(v) == "reflect", svg.ReflectSpread, ite(strings.TrimSpace(v) == "repeat", svg.RepeatSpread, d)))
spec gradSet(g svg.Gradient, m svg.Matrix2D, k, v string) svg.Gradient =
  ite(k == "gradientTransform", put(g, Matrix, tfMul(m, v)), ite(k == "gradientUnits", put(g, Units, unitsOf(v, g.Units)), ite(k == "spreadMethod", put(g, Spread, spreadOf(v, g.Spread)), g)))

func svg.(*svgCursor).readGradAttr(c, attr) (err)
  requires c.grad != nil
  requires len(c.styleStack) >= 1
  modifies *c.grad, c.points
  ensures [C13 C16 gradient attribute accepted] (err == nil) == gradAttrOK(attr.Name.Local, attr.Value)
  ensures [C13 gradient attribute] imp(err == nil, *c.grad == gradSet(old(*c.grad), last(c.styleStack).Transform, attr.Name.Local, attr.Value))

rec attrStr(a []xml.Attr, n int, name, d string) string = ite(n <= 0, d, ite(aname(a, n-1) == name, a[n-1].Value, attrStr(a, n-1, name, d)))
rec gradAttrsOK(a []xml.Attr, i int) bool = i >= len(a) || (gradAttrOK(aname(a, i), a[i].Value) && gradAttrsOK(a, i+1))
rec gradAttrs(vb svg.Bounds, m svg.Matrix2D, a []xml.Attr, n int) svg.Gradient =
  ite(n <= 0, svg.Gradient{Direction: nil, Stops: nil, Bounds: vb, Matrix: midentity(), Spread: svg.PadSpread, Units: svg.ObjectBoundingBox}, gradSet(gradAttrs(vb, m, a, n-1), m, aname(a, n-1), a[n-1].Value))
// every id names the gradient
rec idsHas(h chan bool, a []xml.Attr, n int) chan bool = ite(n <= 0, h, ite(aname(a, n-1) == "id", set(idsHas(h, a, n-1), a[n-1].Value, true), idsHas(h, a, n-1)))
rec idsRef(h chan *svg.Gradient, a []xml.Attr, n int, g *svg.Gradient) chan *svg.Gradient = ite(n <= 0, h, ite(aname(a, n-1) == "id", set(idsRef(h, a, n-1, g), a[n-1].Value, g), idsRef(h, a, n-1, g)))
// percentages of the coordinates refer to the unit box or to the viewBox
spec gradBox(g svg.Gradient) svg.Bounds = ite(g.Units == svg.UserSpaceOnUse, g.Bounds, svg.Bounds{X: 0, Y: 0, W: 1, H: 1})
spec linStrs(a []xml.Attr) [4]string = [4]string{attrStr(a, len(a), "x1", "0%"), attrStr(a, len(a), "y1", "0%"), attrStr(a, len(a), "x2", "100%"), attrStr(a, len(a), "y2", "0")}
spec linOK(d [4]string) bool = lenOK(d[0]) && lenOK(d[1]) && lenOK(d[2]) && lenOK(d[3])
spec linDir(b svg.Bounds, d [4]string) svg.Linear = svg.Linear{lenPx(b, d[0], 0), lenPx(b, d[1], 1), lenPx(b, d[2], 0), lenPx(b, d[3], 1)}
def linearOK(a []xml.Attr) bool = gradAttrsOK(a, 0) && linOK(linStrs(a))
def linearOf(vb svg.Bounds, m svg.Matrix2D, a []xml.Attr) svg.Gradient = let(g, gradAttrs(vb, m, a, len(a)), put(g, Direction, linDir(gradBox(g), linStrs(a))))

func svg.linearGradientF(c, attrs) (err)
  requires len(c.styleStack) >= 1
  modifies c.inGrad, c.grad, c.points, c.svg.grads, heap(svg.Gradient)
  reveal linearOK linearOf
  ensures [C13 C16 linear gradient accepted] (err == nil) == linearOK(attrs)
  ensures [C13 new gradient] c.inGrad && c.grad == old(ALLOC) && ALLOC == old(ALLOC) + 1
  ensures [C13 linear gradient] imp(err == nil, cells(svg.Gradient) == set(old(cells(svg.Gradient)), c.grad, linearOf(c.svg.ViewBox, last(c.styleStack).Transform, attrs)))
  ensures [C13 gradient ids] imp(err == nil, mapkeys(c.svg.grads) == idsHas(old(mapkeys(c.svg.grads)), attrs, len(attrs)) && mapvals(c.svg.grads) == idsRef(old(mapvals(c.svg.grads)), attrs, len(attrs), c.grad))
  invariant gradAttrsOK(attrs, K) == gradAttrsOK(attrs, 0)
  invariant cells(svg.Gradient) == set(old(cells(svg.Gradient)), c.grad, gradAttrs(c.svg.ViewBox, last(c.styleStack).Transform, attrs, K))
  invariant mapkeys(c.svg.grads) == idsHas(old(mapkeys(c.svg.grads)), attrs, K)
  invariant mapvals(c.svg.grads) == idsRef(old(mapvals(c.svg.grads)), attrs, K, c.grad)
  invariant V_s == attrStr(attrs, K, "x1", "0%")
  invariant V_s == attrStr(attrs, K, "y1", "0%")
  invariant V_s == attrStr(attrs, K, "x2", "100%")
  invariant V_s == attrStr(attrs, K, "y2", "0")

rec hasAttr(a []xml.Attr, n int, name string) bool = n > 0 && (aname(a, n-1) == name || hasAttr(a, n-1, name))
spec radCx(a []xml.Attr) string = attrStr(a, len(a), "cx", "50%")
spec radCy(a []xml.Attr) string = attrStr(a, len(a), "cy", "50%")
// the focal point is the centre unless it is given
spec radStrs(a []xml.Attr) [6]string = [6]string{radCx(a), radCy(a), ite(hasAttr(a, len(a), "fx"), attrStr(a, len(a), "fx", "50%"), radCx(a)), ite(hasAttr(a, len(a), "fy"), attrStr(a, len(a), "fy", "50%"), radCy(a)), attrStr(a, len(a), "r", "50%"), attrStr(a, len(a), "fr", "0%")}
spec radOK(d [6]string) bool = lenOK(d[0]) && lenOK(d[1]) && lenOK(d[2]) && lenOK(d[3]) && lenOK(d[4]) && lenOK(d[5])
spec radDir(b svg.Bounds, d [6]string) svg.Radial = svg.Radial{lenPx(b, d[0], 0), lenPx(b, d[1], 1), lenPx(b, d[2], 0), lenPx(b, d[3], 1), lenPx(b, d[4], 2), lenPx(b, d[5], 2)}
def radialOK(a []xml.Attr) bool = gradAttrsOK(a, 0) && radOK(radStrs(a))
def radialOf(vb svg.Bounds, m svg.Matrix2D, a []xml.Attr) svg.Gradient = let(g, gradAttrs(vb, m, a, len(a)), put(g, Direction, radDir(gradBox(g), radStrs(a))))

func svg.radialGradientF(c, attrs) (err)
  requires len(c.styleStack) >= 1
  modifies c.inGrad, c.grad, c.points, c.svg.grads, heap(svg.Gradient)
  reveal radialOK radialOf
  ensures [C13 C16 radial gradient accepted] (err == nil) == radialOK(attrs)
  ensures [C13 new gradient] c.inGrad && c.grad == old(ALLOC) && ALLOC == old(ALLOC) + 1
  ensures [C13 radial gradient] imp(err == nil, cells(svg.Gradient) == set(old(cells(svg.Gradient)), c.grad, radialOf(c.svg.ViewBox, last(c.styleStack).Transform, attrs)))
  ensures [C13 gradient ids] imp(err == nil, mapkeys(c.svg.grads) == idsHas(old(mapkeys(c.svg.grads)), attrs, len(attrs)) && mapvals(c.svg.grads) == idsRef(old(mapvals(c.svg.grads)), attrs, len(attrs), c.grad))
  invariant gradAttrsOK(attrs, K) == gradAttrsOK(attrs, 0)
  invariant cells(svg.Gradient) == set(old(cells(svg.Gradient)), c.grad, gradAttrs(c.svg.ViewBox, last(c.styleStack).Transform, attrs, K))
  invariant mapkeys(c.svg.grads) == idsHas(old(mapkeys(c.svg.grads)), attrs, K)
  invariant mapvals(c.svg.grads) == idsRef(old(mapvals(c.svg.grads)), attrs, K, c.grad)
  invariant V_s == attrStr(attrs, K, "cx", "50%")
  invariant V_s == attrStr(attrs, K, "cy", "50%")
  invariant V_s == attrStr(attrs, K, "fx", "50%")
  invariant V_s == attrStr(attrs, K, "fy", "50%")
  invariant V_s == attrStr(attrs, K, "r", "50%")
  invariant V_s == attrStr(attrs, K, "fr", "0%")
  invariant V_b == hasAttr(attrs, K, "fx")
  invariant V_b == hasAttr(attrs, K, "fy")

// the object bounding box is applied only for bounding-box units
spec fx64(i fixed.Int26_6) float64 = float64(i) / 64.0
func svg.(*Gradient).ApplyPathExtent(g, extent) (r)
  modifies g.Bounds
  ensures [C13 box applied for bounding box units only] r == ite(g.Units == svg.ObjectBoundingBox, mmul(mscale(fx64(extent.Max.X) - fx64(extent.Min.X), fx64(extent.Max.Y) - fx64(extent.Min.Y)), g.Matrix), g.Matrix)
  ensures [C13 bounds of the path] g.Bounds == ite(g.Units == svg.ObjectBoundingBox, svg.Bounds{X: fx64(extent.Min.X), Y: fx64(extent.Min.Y), W: fx64(extent.Max.X) - fx64(extent.Min.X), H: fx64(extent.Max.Y) - fx64(extent.Min.Y)}, old(g.Bounds))
