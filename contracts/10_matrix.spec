// Matrices: an affine map x' = A x + C y + E, y' = B x + D y + F.

spec mmul(a, b Matrix2D) Matrix2D =
  Matrix2D{A: a.A*b.A + a.C*b.B, B: a.B*b.A + a.D*b.B, C: a.A*b.C + a.C*b.D, D: a.B*b.C + a.D*b.D, E: a.A*b.E + a.C*b.F + a.E, F: a.B*b.E + a.D*b.F + a.F}
spec mx(m Matrix2D, x, y float64) float64 = m.A*x + m.C*y + m.E
spec my(m Matrix2D, x, y float64) float64 = m.B*x + m.D*y + m.F
spec mdet(m Matrix2D) float64 = m.A*m.D - m.B*m.C
spec midentity() Matrix2D = Matrix2D{A: 1, B: 0, C: 0, D: 1, E: 0, F: 0}
spec mtranslate(x, y float64) Matrix2D = Matrix2D{A: 1, B: 0, C: 0, D: 1, E: x, F: y}
spec mscale(x, y float64) Matrix2D = Matrix2D{A: x, B: 0, C: 0, D: y, E: 0, F: 0}
spec mskewx(t float64) Matrix2D = Matrix2D{A: 1, B: 0, C: math.Tan(t), D: 1, E: 0, F: 0}
spec mskewy(t float64) Matrix2D = Matrix2D{A: 1, B: math.Tan(t), C: 0, D: 1, E: 0, F: 0}
spec mrotate(t float64) Matrix2D = Matrix2D{A: math.Cos(t), B: math.Sin(t), C: -math.Sin(t), D: math.Cos(t), E: 0, F: 0}

// the 26.6 image of a 26.6 point: coordinates are 64ths, truncated
spec tfix(m Matrix2D, p fixed.Point26_6) fixed.Point26_6 =
  fixed.Point26_6{X: fixed.Int26_6(m.A*float64(p.X) + m.C*float64(p.Y) + m.E*64), Y: fixed.Int26_6(m.B*float64(p.X) + m.D*float64(p.Y) + m.F*64)}

func svg.Matrix2D.Mult(a, b) (r)
  ensures [C02 C03 C14 C18 C19 product] r == mmul(a, b)

func svg.Matrix2D.Transform(a, x1, y1) (x2, y2)
  ensures [C02 C19 point] x2 == mx(a, x1, y1) && y2 == my(a, x1, y1)

func svg.Matrix2D.TransformVector(a, x1, y1) (x2, y2)
  ensures [C02 vector] x2 == mx(a, x1, y1) - a.E && y2 == my(a, x1, y1) - a.F

func svg.Matrix2D.TFixed(a, x) (y)
  ensures [C02 C19 fixed point] y == tfix(a, x)

func svg.Matrix2D.Scale(a, x, y) (r)
  ensures [C02 C03 C18 scale] r == mmul(a, mscale(x, y))

func svg.Matrix2D.SkewX(a, theta) (r)
  ensures [C02 C03 skewX] r == mmul(a, mskewx(theta))

func svg.Matrix2D.SkewY(a, theta) (r)
  ensures [C02 C03 skewY] r == mmul(a, mskewy(theta))

func svg.Matrix2D.Translate(a, x, y) (r)
  ensures [C02 C03 C14 C18 translate] r == mmul(a, mtranslate(x, y))

func svg.Matrix2D.Rotate(a, theta) (r)
  ensures [C02 C03 rotate] r == mmul(a, mrotate(theta))

func svg.Matrix2D.Invert(a) (r)
  requires mdet(a) != 0
  ensures [C02 right inverse] mmul(a, r) == midentity()
  ensures [C02 left inverse] mmul(r, a) == midentity()

func svg.otherPair(i) (a, b)
  inline
func svg.(*matrix3).coFact(m, i, j) (r)
  inline
func svg.(*matrix3).invert(m) (r)
  inline

func svg.Matrix2D.MoveTo(t, m) (p)
  ensures [C02 C19 moveto point] p == tfix(t, fixed.Point26_6(m))

func svg.Matrix2D.LineTo(t, m) (p)
  ensures [C02 C19 lineto point] p == tfix(t, fixed.Point26_6(m))

func svg.Matrix2D.QuadTo(t, m) (p, q)
  ensures [C02 C19 quadto points] p == tfix(t, m[0]) && q == tfix(t, m[1])

func svg.Matrix2D.CubicTo(t, m) (p, q, r)
  ensures [C02 C19 cubicto points] p == tfix(t, m[0]) && q == tfix(t, m[1]) && r == tfix(t, m[2])

func svg.Matrix2D.LineWidthScale(t) (r)
  ensures [C20 mean scale] r == (t.A + t.D)/2

// The algebra of the map, over the contract functions above.
lemma [C02 C03 composition] mulApplies(a, b Matrix2D, x, y float64)
  ensures mx(mmul(a, b), x, y) == mx(a, mx(b, x, y), my(b, x, y))
  ensures my(mmul(a, b), x, y) == my(a, mx(b, x, y), my(b, x, y))

lemma [C02 C03 associative] mulAssoc(a, b, c Matrix2D)
  ensures mmul(mmul(a, b), c) == mmul(a, mmul(b, c))

lemma [C02 neutral] mulIdentity(a Matrix2D)
  ensures mmul(a, midentity()) == a
  ensures mmul(midentity(), a) == a
  ensures Identity == midentity()

lemma [C02 inverse undoes] invUndo(a, r Matrix2D, x, y float64)
  requires mmul(r, a) == midentity()
  ensures mx(r, mx(a, x, y), my(a, x, y)) == x
  ensures my(r, mx(a, x, y), my(a, x, y)) == y

// a fixed point is mapped like the point it stands for, truncated to 64ths
lemma [C02 C19 fixed is the same map] fixedSame(m Matrix2D, p fixed.Point26_6)
  ensures tfix(m, p).X == int(64*mx(m, float64(p.X)/64, float64(p.Y)/64))
  ensures tfix(m, p).Y == int(64*my(m, float64(p.X)/64, float64(p.Y)/64))

lemma [C02 rotations turn] rotationIsOrthogonal(t float64)
  ensures mdet(mrotate(t)) == 1
