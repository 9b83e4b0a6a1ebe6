// Transform attributes (C03).

spec deg(x float64) float64 = x*math.Pi/180
spec arityOK(k string, n int) bool =
  (k == "rotate" && (n == 1 || n == 3)) || (k == "translate" && (n == 1 || n == 2)) || (k == "scale" && (n == 1 || n == 2)) || ((k == "skewx" || k == "skewy") && n == 1) || (k == "matrix" && n == 6)
// the matrix one item denotes
spec itemMat(k string, p []float64) Matrix2D =
  ite(k == "rotate", ite(len(p) == 1, mrotate(deg(p[0])), mmul(mmul(mtranslate(p[1], p[2]), mrotate(deg(p[0]))), mtranslate(-p[1], -p[2]))),
  ite(k == "translate", mtranslate(p[0], ite(len(p) == 1, 0.0, p[1])),
  ite(k == "scale", mscale(p[0], ite(len(p) == 1, p[0], p[1])),
  ite(k == "skewx", mskewx(deg(p[0])), ite(k == "skewy", mskewy(deg(p[0])),
    Matrix2D{A: p[0], B: p[1], C: p[2], D: p[3], E: p[4], F: p[5]})))))

func svg.(*svgCursor).readTransformAttr(c, m1, k) (m, err)
  ensures [C03 C16 items accepted] (err == nil) == arityOK(k, len(c.points))
  ensures [C03 item multiplied] imp(err == nil, m == mmul(m1, itemMat(k, c.points)))

// one part of the list, without its closing parenthesis
spec partIn(s string) string = strings.TrimSpace(s)
spec partKV(s string) []string = strings.Split(partIn(s), "(")
spec partKey(s string) string = strings.ToLower(strings.TrimSpace(partKV(s)[0]))
spec partOK(s string) bool = len(partIn(s)) == 0 || (len(partKV(s)) == 2 && len(partKV(s)[1]) >= 1 && listOK(partKV(s)[1]) && arityOK(partKey(s), len(list(partKV(s)[1]))))
spec partMul(m Matrix2D, s string) Matrix2D = ite(len(partIn(s)) == 0, m, mmul(m, itemMat(partKey(s), list(partKV(s)[1]))))
rec partsOK(ts []string, i int) bool = i >= len(ts) || (partOK(ts[i]) && partsOK(ts, i+1))
rec partsMul(m Matrix2D, ts []string, i int) Matrix2D = ite(i >= len(ts), m, partsMul(partMul(m, ts[i]), ts, i+1))
def tfOK(v string) bool = partsOK(strings.Split(v, ")"), 0)
def tfMul(m Matrix2D, v string) Matrix2D = partsMul(m, strings.Split(v, ")"), 0)

owned svg.svgCursor.styleStack svg.section.currentDef svg.section.openDefs svg.svgCursor.activeUses svg.svgCursor.outer svg.Svg.Titles svg.Svg.Descriptions svg.Svg.SvgPaths

func svg.(*svgCursor).parseTransform(c, v) (m, err)
  requires len(c.styleStack) >= 1
  modifies c.points
  reveal tfOK tfMul
  ensures [C03 C11 C13 C16 list accepted] (err == nil) == tfOK(v)
  ensures [C03 C11 C13 list multiplied in order] imp(err == nil, m == tfMul(c.styleStack[len(c.styleStack)-1].Transform, v))
  invariant partsOK(strings.Split(v, ")"), K) == partsOK(strings.Split(v, ")"), 0)
  invariant partsMul(V_m, strings.Split(v, ")"), K) == partsMul(init(V_m), strings.Split(v, ")"), 0)
appendonly svg.Gradient.Stops svg.SvgMask.SvgPaths
