// Elliptical arcs (C07).

// the ellipse point and the tangent at parameter eta
spec ellX(a, b, sn, cs, eta, cx float64) float64 = cx + a*math.Cos(eta)*cs - b*math.Sin(eta)*sn
spec ellY(a, b, sn, cs, eta, cy float64) float64 = cy + a*math.Cos(eta)*sn + b*math.Sin(eta)*cs
spec ellDX(a, b, sn, cs, eta float64) float64 = -a*math.Sin(eta)*cs - b*math.Cos(eta)*sn
spec ellDY(a, b, sn, cs, eta float64) float64 = -a*math.Sin(eta)*sn + b*math.Cos(eta)*cs

func svg.ellipsePrime(a, b, sinTheta, cosTheta, eta, cx, cy) (px, py)
  ensures [C07 C08 tangent] px == ellDX(a, b, sinTheta, cosTheta, eta) && py == ellDY(a, b, sinTheta, cosTheta, eta)
func svg.ellipsePointAt(a, b, sinTheta, cosTheta, eta, cx, cy) (px, py)
  ensures [C07 C08 point of the ellipse] px == ellX(a, b, sinTheta, cosTheta, eta, cx) && py == ellY(a, b, sinTheta, cosTheta, eta, cy)

// points of the parametrisation satisfy the equation of the ellipse with rotation (sn, cs)
lemma [C07 C08 points on the ellipse] onEllipse(a, b, rot, eta, cx, cy float64)
  requires a > 0 && b > 0
  ensures let(u, ellX(a, b, math.Sin(rot), math.Cos(rot), eta, cx) - cx, let(v, ellY(a, b, math.Sin(rot), math.Cos(rot), eta, cy) - cy,
    (u*math.Cos(rot) + v*math.Sin(rot)) == a*math.Cos(eta) && (v*math.Cos(rot) - u*math.Sin(rot)) == b*math.Sin(eta)))

// the angles of an arc from (px, py) to (ex, ey) around (cx, cy), in the parameter of the ellipse
def angleTo(x, y, cx, cy, rot float64) float64 = math.Atan2(y-cy, x-cx) - rot
spec paramOf(t, a, b float64) float64 = math.Atan2(math.Sin(t)/b, math.Cos(t)/a)
spec turnLarge(d float64, big, large bool) float64 = ite(big != large, ite(d < 0, d + math.Pi*2, d - math.Pi*2), d)
spec turnSweep(d float64, sweep bool) float64 = ite(d < 0 && sweep, d + math.Pi*2, ite(d >= 0 && !sweep, d - math.Pi*2, d))
def turn(t0, t1, a, b float64, large, sweep bool) float64 =
  turnSweep(turnLarge(paramOf(t1, a, b) - paramOf(t0, a, b), math.Abs(t1 - t0) > math.Pi, large), sweep)

type Arc struct { a float64; b float64; sn float64; cs float64; cx float64; cy float64; eta float64; step float64; alpha float64; px float64; py float64; ex float64; ey float64; n int }
spec handle(d float64) float64 = math.Sin(d) * (math.Sqrt(4 + 3*math.Tan(d/2)*math.Tan(d/2)) - 1) / 3
spec arcN(d float64) int = int(math.Abs(d)/svg.maxDx) + 1
def arcFor(a, b, rot, ex, ey, cx, cy, px, py, t0, d float64) Arc =
  Arc{a: a, b: b, sn: math.Sin(rot), cs: math.Cos(rot), cx: cx, cy: cy, eta: paramOf(t0, a, b), step: d/float64(arcN(d)), alpha: handle(d/float64(arcN(d))), px: px, py: py, ex: ex, ey: ey, n: arcN(d)}
spec arcOf(p []float64, cx, cy, px, py float64) Arc =
  arcFor(p[0], p[1], p[2]*math.Pi/180, p[5], p[6], cx, cy, px, py, angleTo(px, py, cx, cy, p[2]*math.Pi/180),
    turn(angleTo(px, py, cx, cy, p[2]*math.Pi/180), angleTo(p[5], p[6], cx, cy, p[2]*math.Pi/180), p[0], p[1], p[3] != 0, p[4] != 0))
// the i-th point: the first and the last are the end points themselves
spec arcEta(r Arc, i int) float64 = r.eta + r.step*float64(i)
spec arcX(r Arc, i int) float64 = ite(i <= 0, r.px, ite(i == r.n, r.ex, ellX(r.a, r.b, r.sn, r.cs, arcEta(r, i), r.cx)))
spec arcY(r Arc, i int) float64 = ite(i <= 0, r.py, ite(i == r.n, r.ey, ellY(r.a, r.b, r.sn, r.cs, arcEta(r, i), r.cy)))
spec arcDX(r Arc, i int) float64 = ellDX(r.a, r.b, r.sn, r.cs, arcEta(r, i))
spec arcDY(r Arc, i int) float64 = ellDY(r.a, r.b, r.sn, r.cs, arcEta(r, i))
spec arcSeg(r Arc, i int) svg.Operation =
  cubeOp(arcX(r, i-1) + r.alpha*arcDX(r, i-1), arcY(r, i-1) + r.alpha*arcDY(r, i-1), arcX(r, i) - r.alpha*arcDX(r, i), arcY(r, i) - r.alpha*arcDY(r, i), arcX(r, i), arcY(r, i), 0, 0)
rec arcSegs(ops svg.Path, r Arc, i int) svg.Path = ite(i <= 0, ops, snoc(arcSegs(ops, r, i-1), arcSeg(r, i)))

func svg.(*Path).addArc(p, points, cx, cy, px, py) (lx, ly)
  requires len(points) >= 7
  modifies *p
  reveal arcFor angleTo turn
  ensures [C07 C08 segments] *p == arcSegs(old(*p), arcOf(points, cx, cy, px, py), arcOf(points, cx, cy, px, py).n)
  ensures [C07 C08 ends at the end point] lx == points[5] && ly == points[6]
  invariant *p == arcSegs(old(*p), arcOf(points, cx, cy, px, py), K)
  invariant VF_a == arcX(arcOf(points, cx, cy, px, py), K)
  invariant VF_a == arcY(arcOf(points, cx, cy, px, py), K)
  invariant VF_a == arcDX(arcOf(points, cx, cy, px, py), K)
  invariant VF_a == arcDY(arcOf(points, cx, cy, px, py), K)
  invariant K <= arcOf(points, cx, cy, px, py).n

// the centre: in the frame where the start is the origin, the ellipse axes are the coordinate axes and x is scaled by b/a, the ellipse is a circle of radius b
spec nX(a, b, rot, dx, dy float64) float64 = (dx*math.Cos(rot) + dy*math.Sin(rot)) * (b/a)
spec nY(rot, dx, dy float64) float64 = dy*math.Cos(rot) - dx*math.Sin(rot)
spec midSq(a, b, rot, dx, dy float64) float64 = nX(a, b, rot, dx, dy)/2*(nX(a, b, rot, dx, dy)/2) + nY(rot, dx, dy)/2*(nY(rot, dx, dy)/2)
// radii that do not reach are scaled up by the same factor
def fitB(a, b, rot, dx, dy float64) float64 = ite(b*b < midSq(a, b, rot, dx, dy), math.Sqrt(midSq(a, b, rot, dx, dy)), b)
def fitA(a, b, rot, dx, dy float64) float64 = ite(b*b < midSq(a, b, rot, dx, dy), a*math.Sqrt(midSq(a, b, rot, dx, dy))/b, a)
spec hr(b, m float64) float64 = ite(b*b < m, 0.0, math.Sqrt(b*b - m)/math.Sqrt(m))
spec side(sweep, small bool) float64 = ite(sweep == small, 1.0, -1.0)
// the centre in that frame, on the side the flags ask for
spec cenU(a, b, rot, dx, dy float64, sweep, small bool) float64 = nX(a, b, rot, dx, dy)/2 + side(sweep, small)*hr(b, midSq(a, b, rot, dx, dy))*(nY(rot, dx, dy)/2)
spec cenV(a, b, rot, dx, dy float64, sweep, small bool) float64 = nY(rot, dx, dy)/2 - side(sweep, small)*hr(b, midSq(a, b, rot, dx, dy))*(nX(a, b, rot, dx, dy)/2)
// and back
def cenX(a, b, rot, x, y, dx, dy float64, sweep, small bool) float64 = cenU(a, b, rot, dx, dy, sweep, small)*(a/b)*math.Cos(rot) - cenV(a, b, rot, dx, dy, sweep, small)*math.Sin(rot) + x
def cenY(a, b, rot, x, y, dx, dy float64, sweep, small bool) float64 = cenU(a, b, rot, dx, dy, sweep, small)*(a/b)*math.Sin(rot) + cenV(a, b, rot, dx, dy, sweep, small)*math.Cos(rot) + y

func svg.findEllipseCenter(ra, rb, rotX, startX, startY, endX, endY, sweep, smallArc) (cx, cy)
  requires *ra > 0 && *rb > 0
  requires startX != endX || startY != endY
  modifies *ra, *rb
  reveal fitA fitB cenX cenY
  ensures [C07 radii large enough] *ra == fitA(old(*ra), old(*rb), rotX, endX-startX, endY-startY) && *rb == fitB(old(*ra), old(*rb), rotX, endX-startX, endY-startY)
  ensures [C07 centre] cx == cenX(old(*ra), old(*rb), rotX, startX, startY, endX-startX, endY-startY, sweep, smallArc) && cy == cenY(old(*ra), old(*rb), rotX, startX, startY, endX-startX, endY-startY, sweep, smallArc)

// in the frame of the circle both ends are at distance b of the centre
lemma [C07 centre at distance b of both ends] circle(p, q, b, h, s float64)
  requires s*s == 1
  requires h*h*(p/2*(p/2) + q/2*(q/2)) == b*b - (p/2*(p/2) + q/2*(q/2))
  ensures (p/2 + s*h*(q/2))*(p/2 + s*h*(q/2)) + (q/2 - s*h*(p/2))*(q/2 - s*h*(p/2)) == b*b
  ensures (p - (p/2 + s*h*(q/2)))*(p - (p/2 + s*h*(q/2))) + (q - (q/2 - s*h*(p/2)))*(q - (q/2 - s*h*(p/2))) == b*b
// the offset hr(b, m) is the one that makes it so, for the radius the arc gets
lemma [C07 offset of the centre] offset(b, m float64)
  requires b > 0 && m > 0
  ensures hr(b, m)*hr(b, m)*m == ite(b*b < m, math.Sqrt(m), b)*ite(b*b < m, math.Sqrt(m), b) - m
// undoing scaling and rotation keeps points on the ellipse with semi-axes a, b
lemma [C07 frames] frames(u, v, a, b, rot float64)
  requires a > 0 && b > 0
  requires u*u + v*v == b*b
  ensures let(x, u*(a/b)*math.Cos(rot) - v*math.Sin(rot), let(y, u*(a/b)*math.Sin(rot) + v*math.Cos(rot),
    (x*math.Cos(rot) + y*math.Sin(rot))/a*((x*math.Cos(rot) + y*math.Sin(rot))/a) + (y*math.Cos(rot) - x*math.Sin(rot))/b*((y*math.Cos(rot) - x*math.Sin(rot))/b) == 1))

// one arc of an A or a command: the arc is left out when it ends where it starts and is a line when it has no radius
spec arcCX(s Pen, a, b, rot, ex, ey float64, large, sweep bool) float64 = cenX(a, b, rot, s.x, s.y, ex-s.x, ey-s.y, !sweep, !large)
spec arcCY(s Pen, a, b, rot, ex, ey float64, large, sweep bool) float64 = cenY(a, b, rot, s.x, s.y, ex-s.x, ey-s.y, !sweep, !large)
spec arcOp(s Pen, a, b, rot, ex, ey float64, large, sweep bool, ox, oy float64) Arc =
  let(cx, arcCX(s, a, b, rot, ex, ey, large, sweep)+ox, let(cy, arcCY(s, a, b, rot, ex, ey, large, sweep)+oy,
  let(fa, fitA(a, b, rot, ex-s.x, ey-s.y), let(fb, fitB(a, b, rot, ex-s.x, ey-s.y),
  arcFor(fa, fb, rot, ex, ey, cx, cy, s.x+ox, s.y+oy, angleTo(s.x+ox, s.y+oy, cx, cy, rot),
    turn(angleTo(s.x+ox, s.y+oy, cx, cy, rot), angleTo(ex, ey, cx, cy, rot), fa, fb, large, sweep))))))
spec penTo(s Pen, ops svg.Path, x, y float64) Pen = Pen{ops: ops, x: x, y: y, cx: s.cx, cy: s.cy, sx: s.sx, sy: s.sy, key: s.key, in: s.in}
def arcTo(s Pen, a, b, rot float64, large, sweep bool, ex, ey, ox, oy float64) Pen =
  ite(ex == s.x && ey == s.y, s, ite(a == 0 || b == 0, penTo(s, snoc(s.ops, lineOp(ex, ey, ox, oy)), ex, ey),
    let(r, arcOp(s, math.Abs(a), math.Abs(b), rot, ex, ey, large, sweep, ox, oy), penTo(s, arcSegs(s.ops, r, r.n), ex, ey))))
spec arcStep(s Pen, k uint8, p []float64, i int, ox, oy float64) Pen =
  arcTo(s, p[i], p[i+1], p[i+2]*math.Pi/180, p[i+3] != 0, p[i+4] != 0, ite(k == 'a', p[i+5]+s.x, p[i+5]), ite(k == 'a', p[i+6]+s.y, p[i+6]), ox, oy)
rec arcs(s Pen, k uint8, p []float64, i int, ox, oy float64) Pen =
  ite(i >= len(p)-6, s, arcs(arcStep(s, k, p, i, ox, oy), k, p, i+7, ox, oy))
spec keyed(s Pen, k uint8) Pen = Pen{ops: s.ops, x: s.x, y: s.y, cx: s.cx, cy: s.cy, sx: s.sx, sy: s.sy, key: k, in: s.in}

func svg.(*pathCursor).addArcFromA(c, points)
  requires len(points) >= 7
  modifies c.path, c.placeX, c.placeY, points[0], points[1]
  reveal arcTo
  ensures [C07 one arc] pen(c) == arcTo(old(pen(c)), old(points[0]), old(points[1]), points[2]*math.Pi/180, points[3] != 0, points[4] != 0, points[5], points[6], c.curX, c.curY)
