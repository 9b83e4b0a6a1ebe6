// Path operations and their text (C21).

spec co(v fixed.Int26_6) string = app("fmt%.3f", string, float64(v)/64)
spec pt(p fixed.Point26_6) string = co(p.X) + "," + co(p.Y)
spec opText(op svg.Operation) string =
  ite(is(op, svg.OpMoveTo), "M" + pt(fixed.Point26_6(as(op, svg.OpMoveTo))),
  ite(is(op, svg.OpLineTo), "L" + pt(fixed.Point26_6(as(op, svg.OpLineTo))),
  ite(is(op, svg.OpQuadTo), "Q" + pt(as(op, svg.OpQuadTo)[0]) + "," + pt(as(op, svg.OpQuadTo)[1]),
  ite(is(op, svg.OpCubicTo), "C" + pt(as(op, svg.OpCubicTo)[0]) + "," + pt(as(op, svg.OpCubicTo)[1]) + "," + pt(as(op, svg.OpCubicTo)[2]), "Z"))))
spec isOp(op svg.Operation) bool = is(op, svg.OpMoveTo) || is(op, svg.OpLineTo) || is(op, svg.OpQuadTo) || is(op, svg.OpCubicTo) || is(op, svg.OpClose)

func svg.OpMoveTo.String(op) (s)
  ensures [C21 move text] s == "M" + pt(fixed.Point26_6(op))
func svg.OpLineTo.String(op) (s)
  ensures [C21 line text] s == "L" + pt(fixed.Point26_6(op))
func svg.OpQuadTo.String(op) (s)
  ensures [C21 quadratic text] s == "Q" + pt(op[0]) + "," + pt(op[1])
func svg.OpCubicTo.String(op) (s)
  ensures [C21 cubic text] s == "C" + pt(op[0]) + "," + pt(op[1]) + "," + pt(op[2])
func svg.OpClose.String(op) (s)
  ensures [C21 close text] s == "Z"

func svg.Path.ToSVGPath(p) (s)
  requires forall(i, 0, len(p), isOp(p[i]))
  ensures [C21 operations in order] s == strings.Join(seqof(i, len(p), opText(p[i])), " ")
  invariant forall(i, 0, K, V_chunks[i] == opText(p[i]))

func svg.Path.String(p) (s)
  requires forall(i, 0, len(p), isOp(p[i]))
  ensures [C21 operations in order] s == strings.Join(seqof(i, len(p), opText(p[i])), " ")

owned svg.Path

func svg.(*Path).Clear(p)
  modifies *p
  ensures [C05 C08 C21 empty] len(*p) == 0
func svg.(*Path).Start(p, a)
  modifies *p
  ensures [C05 C07 C08 C21 move appended] *p == snoc(old(*p), svg.Operation(svg.OpMoveTo(a)))
func svg.(*Path).Line(p, b)
  modifies *p
  ensures [C05 C06 C07 C08 C21 line appended] *p == snoc(old(*p), svg.Operation(svg.OpLineTo(b)))
func svg.(*Path).QuadBezier(p, b, c)
  modifies *p
  ensures [C06 C21 quadratic appended] *p == snoc(old(*p), svg.Operation(svg.OpQuadTo{b, c}))
func svg.(*Path).CubeBezier(p, b, c, d)
  modifies *p
  ensures [C06 C07 C08 C21 cubic appended] *p == snoc(old(*p), svg.Operation(svg.OpCubicTo{b, c, d}))
func svg.(*Path).Stop(p, closeLoop)
  modifies *p
  ensures [C05 C08 C21 closed on request] *p == ite(closeLoop, snoc(old(*p), svg.Operation(svg.OpClose{})), old(*p))
