// Path data (C05, C06, C07, C16): what one command and a whole text do to a path.

owned svg.pathCursor.path svg.pathCursor.points

// the pen: operations so far, current point, control point of the last curve,
// start of the subpath, previous command letter, inside a subpath
type Pen struct { ops svg.Path; x float64; y float64; cx float64; cy float64; sx float64; sy float64; key uint8; in bool }
spec pen(c *svg.pathCursor) Pen = Pen{ops: c.path, x: c.placeX, y: c.placeY, cx: c.cntlPtX, cy: c.cntlPtY, sx: c.pathStartX, sy: c.pathStartY, key: c.lastKey, in: c.inPath}

// a point of the user space, moved by the offset (ox, oy), in 64ths
spec fx(x, y, ox, oy float64) fixed.Point26_6 = fixed.Point26_6{X: fixed.Int26_6((x+ox)*64), Y: fixed.Int26_6((y+oy)*64)}
spec moveOp(x, y, ox, oy float64) svg.Operation = svg.Operation(svg.OpMoveTo(fx(x, y, ox, oy)))
spec lineOp(x, y, ox, oy float64) svg.Operation = svg.Operation(svg.OpLineTo(fx(x, y, ox, oy)))
spec quadOp(x1, y1, x, y, ox, oy float64) svg.Operation = svg.Operation(svg.OpQuadTo{fx(x1, y1, ox, oy), fx(x, y, ox, oy)})
spec cubeOp(x1, y1, x2, y2, x, y, ox, oy float64) svg.Operation = svg.Operation(svg.OpCubicTo{fx(x1, y1, ox, oy), fx(x2, y2, ox, oy), fx(x, y, ox, oy)})
spec closeOp() svg.Operation = svg.Operation(svg.OpClose{})

// relative coordinates: every set of 2, 4 or 6 numbers is relative to the end of the set before it
rec rel2(p []float64, j int, x, y float64) []float64 =
  ite(j >= len(p), p, let(q, upd(upd(p, j, p[j]+x), j+1, p[j+1]+y), rel2(q, j+2, p[j]+x, p[j+1]+y)))
rec rel4(p []float64, j int, x, y float64) []float64 =
  ite(j >= len(p), p, let(q, upd(upd(upd(upd(p, j, p[j]+x), j+1, p[j+1]+y), j+2, p[j+2]+x), j+3, p[j+3]+y), rel4(q, j+4, p[j+2]+x, p[j+3]+y)))
rec rel6(p []float64, j int, x, y float64) []float64 =
  ite(j >= len(p), p, let(q, upd(upd(upd(upd(upd(upd(p, j, p[j]+x), j+1, p[j+1]+y), j+2, p[j+2]+x), j+3, p[j+3]+y), j+4, p[j+4]+x), j+5, p[j+5]+y), rel6(q, j+6, p[j+4]+x, p[j+5]+y)))
rec rel1(p []float64, i int, last float64) []float64 = ite(i >= len(p), p, rel1(upd(p, i, last+p[i]), i+1, last+p[i]))

// one operation per set of absolute coordinates
rec lines(ops svg.Path, p []float64, i int, ox, oy float64) svg.Path =
  ite(i >= len(p)-1, ops, lines(snoc(ops, lineOp(p[i], p[i+1], ox, oy)), p, i+2, ox, oy))
rec vlines(ops svg.Path, p []float64, i int, x, ox, oy float64) svg.Path =
  ite(i >= len(p), ops, vlines(snoc(ops, lineOp(x, p[i], ox, oy)), p, i+1, x, ox, oy))
rec hlines(ops svg.Path, p []float64, i int, y, ox, oy float64) svg.Path =
  ite(i >= len(p), ops, hlines(snoc(ops, lineOp(p[i], y, ox, oy)), p, i+1, y, ox, oy))
rec quads(ops svg.Path, p []float64, i int, ox, oy float64) svg.Path =
  ite(i >= len(p)-3, ops, quads(snoc(ops, quadOp(p[i], p[i+1], p[i+2], p[i+3], ox, oy)), p, i+4, ox, oy))
rec cubes(ops svg.Path, p []float64, i int, ox, oy float64) svg.Path =
  ite(i >= len(p)-5, ops, cubes(snoc(ops, cubeOp(p[i], p[i+1], p[i+2], p[i+3], p[i+4], p[i+5], ox, oy)), p, i+6, ox, oy))
// smooth curves: the first control point mirrors that of a curve of the same kind, and is the current point otherwise
spec wasQuad(k uint8) bool = k == 'q' || k == 'Q' || k == 't' || k == 'T'
spec wasCube(k uint8) bool = k == 'c' || k == 'C' || k == 's' || k == 'S'
spec tcx(s Pen) float64 = ite(wasQuad(s.key), 2*s.x - s.cx, s.x)
spec tcy(s Pen) float64 = ite(wasQuad(s.key), 2*s.y - s.cy, s.y)
spec scx(s Pen) float64 = ite(wasCube(s.key), 2*s.x - s.cx, s.x)
spec scy(s Pen) float64 = ite(wasCube(s.key), 2*s.y - s.cy, s.y)
rec smoothQuads(s Pen, k uint8, p []float64, i int, ox, oy float64) Pen =
  ite(i >= len(p)-1, s, smoothQuads(Pen{ops: snoc(s.ops, quadOp(tcx(s), tcy(s), p[i], p[i+1], ox, oy)), x: p[i], y: p[i+1], cx: tcx(s), cy: tcy(s), sx: s.sx, sy: s.sy, key: k, in: s.in}, k, p, i+2, ox, oy))
rec smoothCubes(s Pen, k uint8, p []float64, i int, ox, oy float64) Pen =
  ite(i >= len(p)-3, s, smoothCubes(Pen{ops: snoc(s.ops, cubeOp(scx(s), scy(s), p[i], p[i+1], p[i+2], p[i+3], ox, oy)), x: p[i+2], y: p[i+3], cx: p[i], cy: p[i+1], sx: s.sx, sy: s.sy, key: k, in: s.in}, k, p, i+4, ox, oy))

// commands
spec isM(k uint8) bool = k == 'm' || k == 'M'
spec isL(k uint8) bool = k == 'l' || k == 'L'
spec isV(k uint8) bool = k == 'v' || k == 'V'
spec isH(k uint8) bool = k == 'h' || k == 'H'
spec isZ(k uint8) bool = k == 'z' || k == 'Z'
spec isQ(k uint8) bool = k == 'q' || k == 'Q'
spec isT(k uint8) bool = k == 't' || k == 'T'
spec isC(k uint8) bool = k == 'c' || k == 'C'
spec isS(k uint8) bool = k == 's' || k == 'S'
spec isA(k uint8) bool = k == 'a' || k == 'A'
spec straight(k uint8) bool = isM(k) || isL(k) || isV(k) || isH(k) || isZ(k)
spec bezier(k uint8) bool = isQ(k) || isT(k) || isC(k) || isS(k)
spec draws(k uint8) bool = isL(k) || isV(k) || isH(k) || bezier(k) || isA(k)
spec known(k uint8) bool = straight(k) || bezier(k) || isA(k)
spec lower(k uint8) bool = 'a' <= k && k <= 'z'
spec setsOf(n, sz int) bool = n >= sz && n % sz == 0
spec arity(k uint8, n int, strict bool) bool =
  ite(isZ(k), n == 0, ite(isM(k) || isL(k) || isT(k), setsOf(n, 2), ite(isV(k) || isH(k), n >= 1, ite(isQ(k) || isS(k), setsOf(n, 4), ite(isC(k), setsOf(n, 6), ite(isA(k), setsOf(n, 7), !strict))))))
spec segOK(seg string, strict bool) bool = listOK(seg[1:]) && arity(seg[0], len(list(seg[1:])), strict)

// a drawing command after a closed subpath starts a new one at the current point
spec opened(s Pen, k uint8, ox, oy float64) Pen =
  ite(!s.in && len(s.ops) > 0 && draws(k), Pen{ops: snoc(s.ops, moveOp(s.x, s.y, ox, oy)), x: s.x, y: s.y, cx: s.cx, cy: s.cy, sx: s.sx, sy: s.sy, key: s.key, in: true}, s)

spec moved(s Pen, k uint8, p []float64, ox, oy float64) Pen =
  Pen{ops: lines(snoc(s.ops, moveOp(p[0], p[1], ox, oy)), p, 2, ox, oy), x: p[len(p)-2], y: p[len(p)-1], cx: s.cx, cy: s.cy, sx: p[0], sy: p[1], key: k, in: true}
spec lined(s Pen, k uint8, p []float64, ox, oy float64) Pen =
  Pen{ops: lines(s.ops, p, 0, ox, oy), x: p[len(p)-2], y: p[len(p)-1], cx: s.cx, cy: s.cy, sx: s.sx, sy: s.sy, key: k, in: s.in}
spec vlined(s Pen, k uint8, p []float64, ox, oy float64) Pen =
  Pen{ops: vlines(s.ops, p, 0, s.x, ox, oy), x: s.x, y: p[len(p)-1], cx: s.cx, cy: s.cy, sx: s.sx, sy: s.sy, key: k, in: s.in}
spec hlined(s Pen, k uint8, p []float64, ox, oy float64) Pen =
  Pen{ops: hlines(s.ops, p, 0, s.y, ox, oy), x: p[len(p)-1], y: s.y, cx: s.cx, cy: s.cy, sx: s.sx, sy: s.sy, key: k, in: s.in}
spec closed(s Pen, k uint8) Pen =
  ite(s.in, Pen{ops: snoc(s.ops, closeOp()), x: s.sx, y: s.sy, cx: s.cx, cy: s.cy, sx: s.sx, sy: s.sy, key: k, in: false}, Pen{ops: s.ops, x: s.x, y: s.y, cx: s.cx, cy: s.cy, sx: s.sx, sy: s.sy, key: k, in: s.in})
spec quaded(s Pen, k uint8, p []float64, ox, oy float64) Pen =
  Pen{ops: quads(s.ops, p, 0, ox, oy), x: p[len(p)-2], y: p[len(p)-1], cx: p[len(p)-4], cy: p[len(p)-3], sx: s.sx, sy: s.sy, key: k, in: s.in}
spec cubed(s Pen, k uint8, p []float64, ox, oy float64) Pen =
  Pen{ops: cubes(s.ops, p, 0, ox, oy), x: p[len(p)-2], y: p[len(p)-1], cx: p[len(p)-4], cy: p[len(p)-3], sx: s.sx, sy: s.sy, key: k, in: s.in}

spec straightStep(s Pen, k uint8, p []float64, ox, oy float64) Pen =
  ite(isZ(k), closed(s, k),
  ite(isM(k), moved(s, k, ite(k == 'm', rel2(p, 0, s.x, s.y), p), ox, oy),
  ite(isL(k), lined(s, k, ite(k == 'l', rel2(p, 0, s.x, s.y), p), ox, oy),
  ite(isV(k), vlined(s, k, ite(k == 'v', rel1(p, 0, s.y), p), ox, oy),
    hlined(s, k, ite(k == 'h', rel1(p, 0, s.x), p), ox, oy)))))
spec bezierStep(s Pen, k uint8, p []float64, ox, oy float64) Pen =
  ite(isQ(k), quaded(s, k, ite(k == 'q', rel4(p, 0, s.x, s.y), p), ox, oy),
  ite(isC(k), cubed(s, k, ite(k == 'c', rel6(p, 0, s.x, s.y), p), ox, oy),
  ite(isT(k), keyed(smoothQuads(s, k, ite(k == 't', rel2(p, 0, s.x, s.y), p), 0, ox, oy), k),
    keyed(smoothCubes(s, k, ite(k == 's', rel4(p, 0, s.x, s.y), p), 0, ox, oy), k))))

func svg.(*pathCursor).init(c)
  inline
func svg.(*pathCursor).pointsToAbs(c, sz)
  inline
  invariant imp(sz == 2, rel2(c.points, V_j, V_x, V_y) == rel2(init(c.points), 0, c.placeX, c.placeY))
  invariant imp(sz == 4, rel4(c.points, V_j, V_x, V_y) == rel4(init(c.points), 0, c.placeX, c.placeY))
  invariant imp(sz == 6, rel6(c.points, V_j, V_x, V_y) == rel6(init(c.points), 0, c.placeX, c.placeY))
  invariant len(c.points) == len(old(c.points))
func svg.(*pathCursor).valsToAbs(c, last)
  inline
  invariant rel1(c.points, V_i, V_last) == rel1(old(c.points), 0, last)
  invariant len(c.points) == len(old(c.points))
func svg.(*pathCursor).hasSetsOrMore(c, sz, rel) (ok)
  inline
func svg.toFixedP(x, y) (p)
  inline

func svg.(*pathCursor).addSeg(c, segString) (err)
  requires len(segString) >= 1
  modifies c.points, c.path, c.placeX, c.placeY, c.cntlPtX, c.cntlPtY, c.pathStartX, c.pathStartY, c.lastKey, c.inPath
  ensures [C05 C06 C16 command accepted] (err == nil) == segOK(segString, c.errorMode == svg.StrictErrorMode)
  shows [C05 straight commands] imp(err == nil && straight(segString[0]), pen(c) == straightStep(opened(old(pen(c)), segString[0], c.curX, c.curY), segString[0], list(segString[1:]), c.curX, c.curY))
  shows [C06 Bezier commands] imp(err == nil && bezier(segString[0]), pen(c) == bezierStep(opened(old(pen(c)), segString[0], c.curX, c.curY), segString[0], list(segString[1:]), c.curX, c.curY))
  shows [C07 arc commands] imp(err == nil && isA(segString[0]), pen(c) == keyed(arcs(opened(old(pen(c)), segString[0], c.curX, c.curY), segString[0], list(segString[1:]), 0, c.curX, c.curY), segString[0]))
  ensures [C05 C06 C07 C16 command] imp(err == nil, pen(c) == segStep(old(pen(c)), segString, c.curX, c.curY))
  reveal segStep
  shows [C16 C05 C06 unknown commands change nothing] imp(err == nil && !known(segString[0]), pen(c) == old(pen(c)))
  invariant imp(isM(segString[0]) || isL(segString[0]), lines(c.path, c.points, V_i, c.curX, c.curY) == lines(init(c.path), c.points, init(V_i), c.curX, c.curY))
  invariant imp(isV(segString[0]), vlines(c.path, c.points, K, c.placeX, c.curX, c.curY) == vlines(init(c.path), c.points, 0, c.placeX, c.curX, c.curY))
  invariant imp(isH(segString[0]), hlines(c.path, c.points, K, c.placeY, c.curX, c.curY) == hlines(init(c.path), c.points, 0, c.placeY, c.curX, c.curY))
  invariant imp(isQ(segString[0]), quads(c.path, c.points, V_i, c.curX, c.curY) == quads(init(c.path), c.points, init(V_i), c.curX, c.curY))
  invariant imp(isC(segString[0]), cubes(c.path, c.points, V_i, c.curX, c.curY) == cubes(init(c.path), c.points, init(V_i), c.curX, c.curY))
  invariant imp(isT(segString[0]), smoothQuads(pen(c), segString[0], c.points, V_i, c.curX, c.curY) == smoothQuads(init(pen(c)), segString[0], c.points, init(V_i), c.curX, c.curY))
  invariant imp(isS(segString[0]), smoothCubes(pen(c), segString[0], c.points, V_i, c.curX, c.curY) == smoothCubes(init(pen(c)), segString[0], c.points, init(V_i), c.curX, c.curY))
  invariant len(c.points) == len(init(c.points))
  invariant imp(isA(segString[0]), arcs(pen(c), segString[0], init(c.points), VI_i, c.curX, c.curY) == arcs(init(pen(c)), segString[0], init(c.points), init(VI_i), c.curX, c.curY))
  invariant imp(isA(segString[0]), forall(j, VI_i, len(c.points), c.points[j] == init(c.points)[j]))
