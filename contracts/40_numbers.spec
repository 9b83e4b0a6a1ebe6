// Number lists (C04): what readFloat and getPoints make of a text.
// s[pos:] is still to be read. The specifications follow the text rune by rune:
// a token starts at start (-1: none), prev is the rune before pos.

spec runeOf(s string, i int) int = app("rune", int, s, i)
spec widthOf(s string, i int) int = app("runew", int, s, i)

// one token: a second and every later '.' starts another number
rec fracsOK(s string, pos int, start int, seen bool) bool =
  ite(pos >= len(s), lenOK(s[start:]),
  ite(runeOf(s, pos) == '.',
    ite(seen, lenOK(s[start:pos]) && fracsOK(s, pos+widthOf(s, pos), pos, true), fracsOK(s, pos+widthOf(s, pos), start, true)),
    fracsOK(s, pos+widthOf(s, pos), start, seen)))
rec fracs(s string, pos int, start int, seen bool, acc []float64) []float64 =
  ite(pos >= len(s), snoc(acc, lenVal(s[start:])),
  ite(runeOf(s, pos) == '.',
    ite(seen, fracs(s, pos+widthOf(s, pos), pos, true, snoc(acc, lenVal(s[start:pos]))), fracs(s, pos+widthOf(s, pos), start, true, acc)),
    fracs(s, pos+widthOf(s, pos), start, seen, acc)))

func svg.(*pathCursor).readFloat(c, numStr) (err)
  modifies c.points
  ensures [C04 token accepted] (err == nil) == fracsOK(numStr, 0, 0, false)
  ensures [C04 numbers of a token] imp(err == nil, c.points == fracs(numStr, 0, 0, false, old(c.points)))
  invariant 0 <= V_p && V_p <= V_q && V_q <= len(numStr)
  invariant fracsOK(numStr, V_p, V_last, !V_first) == fracsOK(numStr, 0, 0, false)
  invariant fracs(numStr, V_p, V_last, !V_first, c.points) == fracs(numStr, 0, 0, false, old(c.points))

// the list: a token is a run of digits, '.', exponent letters and exponent signs;
// '-' ends a token and starts the next, everything else separates
spec expo(r int) bool = r == 'e' || r == 'E'
spec tokenRune(r int, prev int) bool = app("unicode.IsNumber", bool, r) || r == '.' || expo(r) || (r == '-' || r == '+') && expo(prev)
rec numsOK(s string, pos int, start int, prev int) bool =
  ite(pos >= len(s), imp(start != -1 && start != len(s), fracsOK(s[start:], 0, 0, false)),
  ite(tokenRune(runeOf(s, pos), prev),
    numsOK(s, pos+widthOf(s, pos), ite(start == -1, pos, start), runeOf(s, pos)),
    imp(start != -1, fracsOK(s[start:pos], 0, 0, false)) && numsOK(s, pos+widthOf(s, pos), ite(runeOf(s, pos) == '-', pos, -1), runeOf(s, pos))))
rec nums(s string, pos int, start int, prev int, acc []float64) []float64 =
  ite(pos >= len(s), ite(start != -1 && start != len(s), fracs(s[start:], 0, 0, false, acc), acc),
  ite(tokenRune(runeOf(s, pos), prev),
    nums(s, pos+widthOf(s, pos), ite(start == -1, pos, start), runeOf(s, pos), acc),
    nums(s, pos+widthOf(s, pos), ite(runeOf(s, pos) == '-', pos, -1), runeOf(s, pos),
      ite(start != -1, fracs(s[start:pos], 0, 0, false, acc), acc))))
spec listOK(s string) bool = numsOK(s, 0, -1, ' ')
spec list(s string) []float64 = nums(s, 0, -1, ' ', []float64{})

func svg.(*pathCursor).getPoints(c, dataPoints) (err)
  modifies c.points
  ensures [C04 C03 C05 C08 C17 list accepted] (err == nil) == listOK(dataPoints)
  ensures [C04 C03 C05 C08 C17 numbers in order] imp(err == nil, c.points == list(dataPoints))
  invariant -1 <= V_last && V_last <= V_p && V_p <= len(dataPoints)
  invariant numsOK(dataPoints, V_p, V_last, V_lr) == listOK(dataPoints)
  invariant nums(dataPoints, V_p, V_last, V_lr, c.points) == list(dataPoints)
