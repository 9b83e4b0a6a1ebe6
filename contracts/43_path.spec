// A whole path text (C05, C06, C07, C16): commands in order, each applied to the pen the ones before it left.

def segStep(s Pen, seg string, ox, oy float64) Pen =
  let(k, seg[0], let(p, list(seg[1:]), let(t, opened(s, k, ox, oy),
    ite(straight(k), straightStep(t, k, p, ox, oy), ite(bezier(k), bezierStep(t, k, p, ox, oy), ite(isA(k), keyed(arcs(t, k, p, 0, ox, oy), k), s))))))

spec isCmd(r rune) bool = app("unicode.IsLetter", bool, r) && r != 'e' && r != 'E'
spec runeAt(s string, p int) rune = app("rune", int, s, p)
spec after(s string, p int) int = p + app("runew", int, s, p)
// from position p on, with a command that started at last (-1: none so far)
rec pathOK(s string, p, last int, strict bool) bool =
  ite(p >= len(s), last == -1 || segOK(s[last:], strict),
    ite(isCmd(runeAt(s, p)), (last == -1 || segOK(s[last:p], strict)) && pathOK(s, after(s, p), p, strict), pathOK(s, after(s, p), last, strict)))
rec pathRun(s string, p, last int, t Pen, ox, oy float64) Pen =
  ite(p >= len(s), ite(last == -1, t, segStep(t, s[last:], ox, oy)),
    ite(isCmd(runeAt(s, p)), pathRun(s, after(s, p), p, ite(last == -1, t, segStep(t, s[last:p], ox, oy)), ox, oy), pathRun(s, after(s, p), last, t, ox, oy)))
spec startPen() Pen = Pen{ops: svg.Path{}, x: 0, y: 0, cx: 0, cy: 0, sx: 0, sy: 0, key: ' ', in: false}

func svg.(*pathCursor).compilePath(c, svgPath) (err)
  modifies c.points, c.path, c.placeX, c.placeY, c.cntlPtX, c.cntlPtY, c.pathStartX, c.pathStartY, c.lastKey, c.inPath
  ensures [C05 C06 C07 C16 text accepted] (err == nil) == pathOK(svgPath, 0, -1, c.errorMode == svg.StrictErrorMode)
  ensures [C05 C06 C07 C16 C17 commands in order] imp(err == nil, pen(c) == pathRun(svgPath, 0, -1, startPen(), c.curX, c.curY))
  invariant V_last == -1 || (V_last >= 0 && V_last < VI_p)
  invariant pathOK(svgPath, VI_p, VI_last, c.errorMode == svg.StrictErrorMode) == pathOK(svgPath, 0, -1, c.errorMode == svg.StrictErrorMode)
  invariant pathRun(svgPath, VI_p, VI_last, pen(c), c.curX, c.curY) == pathRun(svgPath, 0, -1, startPen(), c.curX, c.curY)
