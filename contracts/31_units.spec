// Lengths (C09). t is the text without surrounding white space.

spec suffixOf(t string) string =
  ite(strings.HasSuffix(t, "px"), "px", ite(strings.HasSuffix(t, "cm"), "cm", ite(strings.HasSuffix(t, "mm"), "mm", ite(strings.HasSuffix(t, "pt"), "pt",
  ite(strings.HasSuffix(t, "in"), "in", ite(strings.HasSuffix(t, "Q"), "Q", ite(strings.HasSuffix(t, "pc"), "pc", ite(strings.HasSuffix(t, "%"), "%", ""))))))))
// pixels per unit, at 96 pixels per inch
spec perUnit(u string) float64 =
  ite(u == "cm", 96/2.54, ite(u == "mm", 9.6/2.54, ite(u == "pt", 96.0/72, ite(u == "in", 96, ite(u == "Q", 96.0/40/2.54, ite(u == "pc", 16, 1.0))))))
spec lenUnit(s string) string = suffixOf(strings.TrimSpace(s))
spec cutUnit(t string, u string) string = strings.TrimSpace(strings.TrimSuffix(t, u))
spec numOf(t string) string =
  ite(strings.HasSuffix(t, "px"), cutUnit(t, "px"), ite(strings.HasSuffix(t, "cm"), cutUnit(t, "cm"), ite(strings.HasSuffix(t, "mm"), cutUnit(t, "mm"), ite(strings.HasSuffix(t, "pt"), cutUnit(t, "pt"),
  ite(strings.HasSuffix(t, "in"), cutUnit(t, "in"), ite(strings.HasSuffix(t, "Q"), cutUnit(t, "Q"), ite(strings.HasSuffix(t, "pc"), cutUnit(t, "pc"), ite(strings.HasSuffix(t, "%"), cutUnit(t, "%"), t))))))))
spec lenNum(s string) string = numOf(strings.TrimSpace(s))
def lenOK(s string) bool = strconv.FloatOK(lenNum(s))
def lenVal(s string) float64 = strconv.Float(lenNum(s)) * perUnit(lenUnit(s))
def lenPct(s string) bool = lenUnit(s) == "%"
// what a percentage refers to: 0 the width, 1 the height, 2 the normalised diagonal
spec pctRef(vb svg.Bounds, ref int) float64 = ite(ref == 0, vb.W, ite(ref == 1, vb.H, math.Sqrt(vb.W*vb.W + vb.H*vb.H)/math.Sqrt(2)))
def lenPx(vb svg.Bounds, s string, ref int) float64 = ite(lenPct(s), lenVal(s)/100*pctRef(vb, ref), lenVal(s))

func svg.findUnit(s) (u, value)
  inline

func svg.parseUnit(s) (v, pct, err)
  reveal lenOK lenVal lenPct
  ensures [C09 C13 length accepted] (err == nil) == lenOK(s)
  ensures [C09 C13 value in pixels] imp(err == nil, v == lenVal(s))
  ensures [C09 percentage] pct == lenPct(s)

func svg.Bounds.resolveUnit(vb, s, ref) (v, err)
  reveal lenPx
  requires ref <= 2
  ensures [C09 C08 C13 C11 C14 C15 length accepted] (err == nil) == lenOK(s)
  ensures [C09 C08 C13 C11 C14 C15 resolved length] imp(err == nil, v == lenPx(vb, s, int(ref)))

func svg.(*svgCursor).parseUnit(c, s, ref) (v, err)
  requires ref <= 2
  ensures [C09 C08 C13 C11 C14 C15 length accepted] (err == nil) == lenOK(s)
  ensures [C09 C08 C13 C11 C14 C15 resolved against the viewBox] imp(err == nil, v == lenPx(c.svg.ViewBox, s, int(ref)))

func svg.parseBasicFloat(s) (v, err)
  ensures [C09 C11 number accepted] (err == nil) == lenOK(s)
  ensures [C09 C11 number value] imp(err == nil, v == lenVal(s))

// fractions: a number, or a percentage divided by a hundred
spec fracNum(s string) string = strings.TrimSuffix(strings.TrimSpace(s), "%")
spec fracOK(s string) bool = lenOK(fracNum(s))
spec fracVal(s string) float64 = ite(strings.HasSuffix(strings.TrimSpace(s), "%"), lenVal(fracNum(s))/100, lenVal(fracNum(s)))
spec unitClamp(f float64) float64 = ite(f > 1, 1, ite(f < 0, 0, f))

func svg.readFraction(s) (f, err)
  ensures [C09 C13 fraction accepted] (err == nil) == fracOK(s)
  ensures [C09 C13 fraction value] imp(err == nil, f == fracVal(s))

func svg.readOpacity(s) (f, err)
  ensures [C09 C11 C13 opacity accepted] (err == nil) == fracOK(s)
  ensures [C09 C11 C13 opacity limited] imp(err == nil, f == unitClamp(fracVal(s)))
  ensures [C11 C13 opacity range] 0 <= f && f <= 1
