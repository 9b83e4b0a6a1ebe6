// Basic shapes (C08): the path an element adds, from its attributes. The last attribute of a name counts.

spec aname(a []xml.Attr, i int) string = a[i].Name.Local
rec attrLen(vb svg.Bounds, a []xml.Attr, n int, name string, ref int) float64 =
  ite(n <= 0, 0.0, ite(aname(a, n-1) == name, lenPx(vb, a[n-1].Value, ref), attrLen(vb, a, n-1, name, ref)))
spec attrPx(vb svg.Bounds, a []xml.Attr, name string, ref int) float64 = attrLen(vb, a, len(a), name, ref)

def lineEl(ops svg.Path, vb svg.Bounds, a []xml.Attr, ox, oy float64) svg.Path =
  snoc(snoc(ops, moveOp(attrPx(vb, a, "x1", 0), attrPx(vb, a, "y1", 1), ox, oy)), lineOp(attrPx(vb, a, "x2", 0), attrPx(vb, a, "y2", 1), ox, oy))

func svg.lineF(c, attrs) (err)
  modifies c.path
  reveal lineEl
  ensures [C08 C16 C17 line accepted] (err == nil) == lineOK(attrs, 0)
  ensures [C08 C17 line] imp(err == nil, c.path == lineEl(old(c.path), c.svg.ViewBox, attrs, c.curX, c.curY))
  invariant lineOK(attrs, K) == lineOK(attrs, 0)
  invariant VF_v == attrLen(c.svg.ViewBox, attrs, K, "x1", 0)
  invariant VF_v == attrLen(c.svg.ViewBox, attrs, K, "x2", 0)
  invariant VF_v == attrLen(c.svg.ViewBox, attrs, K, "y1", 1)
  invariant VF_v == attrLen(c.svg.ViewBox, attrs, K, "y2", 1)
spec isLineAttr(n string) bool = n == "x1" || n == "x2" || n == "y1" || n == "y2"
rec lineOK(a []xml.Attr, i int) bool = i >= len(a) || (imp(isLineAttr(aname(a, i)), lenOK(a[i].Value)) && lineOK(a, i+1))

// an ellipse starts at its rightmost point and goes once around, back to it
spec ellipseArc(cx, cy, rx, ry float64) Arc =
  Arc{a: rx, b: ry, sn: 0, cs: 1, cx: cx, cy: cy, eta: 0, step: -2*math.Pi/17, alpha: handle(-2*math.Pi/17), px: cx+rx, py: cy, ex: cx+rx, ey: cy, n: 17}
spec ellipseOps(ops svg.Path, cx, cy, rx, ry float64) svg.Path = snoc(arcSegs(snoc(ops, moveOp(cx+rx, cy, 0, 0)), ellipseArc(cx, cy, rx, ry), 17), closeOp())

func svg.(*pathCursor).ellipseAt(c, cx, cy, rx, ry)
  requires rx > 0 && ry > 0
  modifies c.path, c.points, c.placeX, c.placeY
  reveal arcFor angleTo turn
  ensures [C08 C17 ellipse] c.path == ellipseOps(old(c.path), cx, cy, rx, ry)

// the end points of its segments are on the ellipse
lemma [C08 on the ellipse] ellipsePoints(cx, cy, rx, ry float64, i int)
  requires rx > 0 && ry > 0
  requires 0 <= i && i <= 17
  ensures let(r, ellipseArc(cx, cy, rx, ry), let(u, (arcX(r, i)-cx)/rx, let(v, (arcY(r, i)-cy)/ry, u*u + v*v == 1)))

rec radX(vb svg.Bounds, a []xml.Attr, n int) float64 =
  ite(n <= 0, 0.0, ite(aname(a, n-1) == "r", lenPx(vb, a[n-1].Value, 2), ite(aname(a, n-1) == "rx", lenPx(vb, a[n-1].Value, 0), radX(vb, a, n-1))))
rec radY(vb svg.Bounds, a []xml.Attr, n int) float64 =
  ite(n <= 0, 0.0, ite(aname(a, n-1) == "r", lenPx(vb, a[n-1].Value, 2), ite(aname(a, n-1) == "ry", lenPx(vb, a[n-1].Value, 1), radY(vb, a, n-1))))
spec isCircleAttr(n string) bool = n == "cx" || n == "cy" || n == "r" || n == "rx" || n == "ry"
rec circleOK(a []xml.Attr, i int) bool = i >= len(a) || (imp(isCircleAttr(aname(a, i)), lenOK(a[i].Value)) && circleOK(a, i+1))

def circleEl(ops svg.Path, vb svg.Bounds, a []xml.Attr, ox, oy float64) svg.Path = let(rx, radX(vb, a, len(a)), let(ry, radY(vb, a, len(a)),
  ite(rx <= 0 || ry <= 0, ops, ellipseOps(ops, attrPx(vb, a, "cx", 0) + ox, attrPx(vb, a, "cy", 1) + oy, rx, ry))))

func svg.circleF(c, attrs) (err)
  modifies c.path, c.points, c.placeX, c.placeY
  reveal circleEl
  ensures [C08 C16 C17 circle accepted] (err == nil) == circleOK(attrs, 0)
  ensures [C08 C17 circle or ellipse] imp(err == nil, c.path == circleEl(old(c.path), c.svg.ViewBox, attrs, c.curX, c.curY))
  invariant circleOK(attrs, K) == circleOK(attrs, 0)
  invariant VF_v == attrLen(c.svg.ViewBox, attrs, K, "cx", 0)
  invariant VF_v == attrLen(c.svg.ViewBox, attrs, K, "cy", 1)
  invariant VF_v == radX(c.svg.ViewBox, attrs, K)
  invariant VF_v == radY(c.svg.ViewBox, attrs, K)

// polyline and polygon: the last points attribute counts
rec ptsOK(a []xml.Attr, i int) bool = i >= len(a) || (imp(aname(a, i) == "points", listOK(a[i].Value) && len(list(a[i].Value))%2 == 0) && ptsOK(a, i+1))
rec ptsOf(a []xml.Attr, n int) []float64 = ite(n <= 0, []float64{}, ite(aname(a, n-1) == "points", list(a[n-1].Value), ptsOf(a, n-1)))
spec polyOps(ops svg.Path, p []float64, ox, oy float64) svg.Path = ite(len(p) < 4, ops, lines(snoc(ops, moveOp(p[0], p[1], ox, oy)), p, 2, ox, oy))

def polylineEl(ops svg.Path, a []xml.Attr, ox, oy float64) svg.Path = polyOps(ops, ptsOf(a, len(a)), ox, oy)
def polygonEl(ops svg.Path, a []xml.Attr, ox, oy float64) svg.Path = ite(len(ptsOf(a, len(a))) < 4, ops, snoc(polyOps(ops, ptsOf(a, len(a)), ox, oy), closeOp()))

func svg.polylineF(c, attrs) (err)
  modifies c.path, c.points
  reveal polylineEl
  ensures [C08 C16 C17 points accepted] (err == nil) == ptsOK(attrs, 0)
  ensures [C08 C17 points] imp(err == nil, c.points == ptsOf(attrs, len(attrs)))
  ensures [C08 C17 polyline] imp(err == nil, c.path == polylineEl(old(c.path), attrs, c.curX, c.curY))
  invariant ptsOK(attrs, K) == ptsOK(attrs, 0)
  invariant c.points == ptsOf(attrs, K)
  invariant lines(c.path, c.points, V_i, c.curX, c.curY) == lines(init(c.path), c.points, 2, c.curX, c.curY)
  invariant imp(VI_i >= 2, lines(c.path, c.points, VI_i, c.curX, c.curY) == lines(snoc(init(c.path), moveOp(c.points[0], c.points[1], c.curX, c.curY)), c.points, 2, c.curX, c.curY))
  invariant imp(VI_i < 2, c.path == init(c.path))

func svg.polygonF(c, attrs) (err)
  modifies c.path, c.points
  reveal polylineEl polygonEl
  ensures [C08 C16 C17 points accepted] (err == nil) == ptsOK(attrs, 0)
  ensures [C08 C17 polygon] imp(err == nil, c.path == polygonEl(old(c.path), attrs, c.curX, c.curY))

// corners of rounded rectangles: an arc around a from a+t to a+l, mapped by m
type Corner struct { m svg.Matrix2D; a fixed.Point26_6; r float64; th float64; step float64; n int }
spec tmove(m svg.Matrix2D, p fixed.Point26_6) svg.Operation = svg.Operation(svg.OpMoveTo(tfix(m, p)))
spec tline(m svg.Matrix2D, p fixed.Point26_6) svg.Operation = svg.Operation(svg.OpLineTo(tfix(m, p)))
spec fpt(x, y float64) fixed.Point26_6 = fx(x, y, 0, 0)
spec padd(p, q fixed.Point26_6) fixed.Point26_6 = fixed.Point26_6{X: p.X + q.X, Y: p.Y + q.Y}
spec psub(p, q fixed.Point26_6) fixed.Point26_6 = fixed.Point26_6{X: p.X - q.X, Y: p.Y - q.Y}
spec pmul(p fixed.Point26_6, k fixed.Int26_6) fixed.Point26_6 = fixed.Point26_6{X: p.X * k / 64, Y: p.Y * k / 64}
spec dirOf(v fixed.Point26_6) float64 = math.Atan2(float64(v.Y), float64(v.X))
spec clockTurn(t1, t2 float64) float64 = ite(t2 < t1, t2 + 2*math.Pi, t2) - t1
spec cornerN(d float64) int = int(math.Abs(d)/(math.Pi/8)) + 1
spec cornerR(t fixed.Point26_6) float64 = float64(fixed.Int26_6(math.Sqrt(float64(t.X)*float64(t.X) + float64(t.Y)*float64(t.Y))))
def cornerTurn(m svg.Matrix2D, a fixed.Point26_6, r, th, d float64) Corner = Corner{m: m, a: a, r: r, th: th, step: d/float64(cornerN(d)), n: cornerN(d)}
spec cornerOf(m svg.Matrix2D, a, t, l fixed.Point26_6) Corner = cornerTurn(m, a, cornerR(t), dirOf(t), clockTurn(dirOf(t), dirOf(l)))
spec cornerD(k Corner, i int) fixed.Point26_6 = let(e, k.th + k.step*float64(i), fixed.Point26_6{X: -fixed.Int26_6(k.r*math.Sin(e)), Y: fixed.Int26_6(k.r*math.Cos(e))})
spec cornerP(k Corner, i int) fixed.Point26_6 = let(d, cornerD(k, i), fixed.Point26_6{X: k.a.X + d.Y, Y: k.a.Y - d.X})
spec cornerAlpha(k Corner) fixed.Int26_6 = fixed.Int26_6(math.Sin(k.step) * (math.Sqrt(4 + 3*math.Tan(k.step/2)*math.Tan(k.step/2)) - 1) * (64.0/3.0))
spec cornerSeg(k Corner, i int) svg.Operation =
  svg.Operation(svg.OpCubicTo{tfix(k.m, padd(cornerP(k, i-1), pmul(cornerD(k, i-1), cornerAlpha(k)))), tfix(k.m, psub(cornerP(k, i), pmul(cornerD(k, i), cornerAlpha(k)))), tfix(k.m, cornerP(k, i))})
rec cornerSegs(ops svg.Path, k Corner, i int) svg.Path = ite(i <= 0, ops, snoc(cornerSegs(ops, k, i-1), cornerSeg(k, i)))
def corner(ops svg.Path, k Corner, end fixed.Point26_6) svg.Path = snoc(cornerSegs(snoc(ops, tline(k.m, cornerP(k, 0))), k, k.n), tline(k.m, padd(k.a, end)))

func svg.roundGap(p, a, tNorm, lNorm)
  modifies *p.path
  reveal cornerTurn corner
  ensures [C08 corner] *p.path == corner(old(*p.path), cornerOf(p.M, a, tNorm, lNorm), lNorm)
  unroll 1
  invariant *p.path == cornerSegs(init(*p.path), cornerOf(p.M, a, tNorm, lNorm), K)
  invariant V_p == cornerP(cornerOf(p.M, a, tNorm, lNorm), K)
  invariant V_p == cornerD(cornerOf(p.M, a, tNorm, lNorm), K)

// rectangles: four corners in order and closed; rotation is not used by any element
spec rectOps(ops svg.Path, m svg.Matrix2D, x0, y0, x1, y1 float64) svg.Path =
  snoc(snoc(snoc(snoc(snoc(ops, tmove(m, fpt(x0, y0))), tline(m, fpt(x1, y0))), tline(m, fpt(x1, y1))), tline(m, fpt(x0, y1))), closeOp())

func svg.(*Path).addRect(p, minX, minY, maxX, maxY, rot)
  requires rot == 0
  modifies *p
  ensures [C08 C17 rectangle] *p == rectOps(old(*p), midentity(), minX, minY, maxX, maxY)

// rounded rectangles are drawn with circular corners and scaled in y by ry/rx around the middle
spec halfLimit(r, w float64) float64 = ite(w < r*2, w/2, r)
spec scaleAbout(cx, cy, s float64) svg.Matrix2D = Matrix2D{A: 1, B: 0, C: 0, D: s, E: 0, F: cy - s*cy}
spec bend(ops svg.Path, m svg.Matrix2D, ax, ay, tx, ty, lx, ly float64) svg.Path = corner(ops, cornerOf(m, fpt(ax, ay), fpt(tx, ty), fpt(lx, ly)), fpt(lx, ly))
spec roundedOps(ops svg.Path, m svg.Matrix2D, x0, y0, x1, y1, r float64) svg.Path =
  let(a, snoc(snoc(ops, tmove(m, fpt(x0+r, y0))), tline(m, fpt(x1-r, y0))),
  let(b, snoc(bend(a, m, x1-r, y0+r, 0, -r, r, 0), tline(m, fpt(x1, y1-r))),
  let(d, snoc(bend(b, m, x1-r, y1-r, r, 0, 0, r), tline(m, fpt(x0+r, y1))),
  let(e, snoc(bend(d, m, x0+r, y1-r, 0, r, -r, 0), tline(m, fpt(x0, y0+r))),
  snoc(bend(e, m, x0+r, y0+r, -r, 0, 0, -r), closeOp())))))
spec roundOps(ops svg.Path, x0, y0, x1, y1, rx, ry float64) svg.Path =
  let(cy, y0 + (y1-y0)/2, let(s, rx/ry, roundedOps(ops, scaleAbout(x0 + (x1-x0)/2, cy, 1/s), x0, cy - (y1-y0)/2*s, x1, cy + (y1-y0)/2*s, rx)))
def rectPath(ops svg.Path, x0, y0, x1, y1, rx, ry float64) svg.Path =
  ite(rx <= 0 || ry <= 0, rectOps(ops, midentity(), x0, y0, x1, y1), roundOps(ops, x0, y0, x1, y1, halfLimit(rx, x1-x0), halfLimit(ry, y1-y0)))

func svg.(*Path).addRoundRect(p, minX, minY, maxX, maxY, rx, ry, rot)
  requires rot == 0
  requires maxX > minX && maxY > minY
  modifies *p
  reveal rectPath
  ensures [C08 C17 rectangle or rounded rectangle] *p == rectPath(old(*p), minX, minY, maxX, maxY, rx, ry)

spec isRectAttr(n string) bool = n == "x" || n == "y" || n == "width" || n == "height" || n == "rx" || n == "ry"
rec rectOK(a []xml.Attr, i int) bool = i >= len(a) || (imp(isRectAttr(aname(a, i)), lenOK(a[i].Value)) && rectOK(a, i+1))
spec ownOr(r, other float64) float64 = ite(r == 0, other, r)

def rectEl(ops svg.Path, vb svg.Bounds, a []xml.Attr, ox, oy float64) svg.Path = let(x, attrPx(vb, a, "x", 0) + ox, let(y, attrPx(vb, a, "y", 1) + oy, let(w, attrPx(vb, a, "width", 0), let(h, attrPx(vb, a, "height", 1),
  let(rx, attrPx(vb, a, "rx", 0), let(ry, attrPx(vb, a, "ry", 1), ite(w <= 0 || h <= 0, ops, rectPath(ops, x, y, w + x, h + y, ownOr(rx, ry), ownOr(ry, rx)))))))))

func svg.rectF(c, attrs) (err)
  modifies c.path
  reveal rectEl
  ensures [C08 C16 C17 rect accepted] (err == nil) == rectOK(attrs, 0)
  ensures [C08 C17 rect] imp(err == nil, c.path == rectEl(old(c.path), c.svg.ViewBox, attrs, c.curX, c.curY))
  invariant rectOK(attrs, K) == rectOK(attrs, 0)
  invariant VF_v == attrLen(c.svg.ViewBox, attrs, K, "x", 0)
  invariant VF_v == attrLen(c.svg.ViewBox, attrs, K, "y", 1)
  invariant VF_v == attrLen(c.svg.ViewBox, attrs, K, "width", 0)
  invariant VF_v == attrLen(c.svg.ViewBox, attrs, K, "height", 1)
  invariant VF_v == attrLen(c.svg.ViewBox, attrs, K, "rx", 0)
  invariant VF_v == attrLen(c.svg.ViewBox, attrs, K, "ry", 1)

// a path element: the last d attribute counts
rec dOK(a []xml.Attr, i int, strict bool) bool = i >= len(a) || (imp(aname(a, i) == "d", pathOK(a[i].Value, 0, -1, strict)) && dOK(a, i+1, strict))
rec dOps(a []xml.Attr, n int, ops svg.Path, ox, oy float64) svg.Path = ite(n <= 0, ops, ite(aname(a, n-1) == "d", pathRun(a[n-1].Value, 0, -1, startPen(), ox, oy).ops, dOps(a, n-1, ops, ox, oy)))

func svg.pathF(c, attrs) (err)
  modifies c.points, c.path, c.placeX, c.placeY, c.cntlPtX, c.cntlPtY, c.pathStartX, c.pathStartY, c.lastKey, c.inPath
  ensures [C05 C08 C16 C17 path accepted] (err == nil) == dOK(attrs, 0, c.errorMode == svg.StrictErrorMode)
  ensures [C05 C08 C17 path] imp(err == nil, c.path == dOps(attrs, len(attrs), old(c.path), c.curX, c.curY))
  invariant dOK(attrs, K, c.errorMode == svg.StrictErrorMode) == dOK(attrs, 0, c.errorMode == svg.StrictErrorMode)
  invariant c.path == dOps(attrs, K, init(c.path), c.curX, c.curY)

// every corner is a quarter turn, in five segments
lemma [C08 quarter turns] quarter(r fixed.Int26_6)
  requires r > 0
  ensures clockTurn(dirOf(fixed.Point26_6{X: 0, Y: -r}), dirOf(fixed.Point26_6{X: r, Y: 0})) == math.Pi/2
  ensures clockTurn(dirOf(fixed.Point26_6{X: r, Y: 0}), dirOf(fixed.Point26_6{X: 0, Y: r})) == math.Pi/2
  ensures clockTurn(dirOf(fixed.Point26_6{X: 0, Y: r}), dirOf(fixed.Point26_6{X: -r, Y: 0})) == math.Pi/2
  ensures clockTurn(dirOf(fixed.Point26_6{X: -r, Y: 0}), dirOf(fixed.Point26_6{X: 0, Y: -r})) == math.Pi/2
  ensures cornerN(math.Pi/2) == 5
