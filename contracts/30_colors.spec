// Colours (C12).

spec black() svg.optionnalColor = svg.optionnalColor{valid: true, color: rgbC(0, 0, 0)}
spec rgbC(r, g, b uint8) svg.PlainColor = svg.PlainColor{NRGBA: color.NRGBA{R: r, G: g, B: b, A: 255}}
spec clampTo(n, hi int) int = ite(n < 0, 0, ite(n > hi, hi, n))

// one component of rgb(): an integer limited to [0, 255] or a percentage limited to [0, 100]
spec compPct(s string) bool = strings.HasSuffix(strings.TrimSpace(s), "%")
spec compNum(s string) string = ite(compPct(s), strings.TrimSpace(strings.TrimSpace(s)[:len(strings.TrimSpace(s))-1]), strings.TrimSpace(s))
spec compOK(s string) bool = strconv.AtoiOK(compNum(s))
spec compVal(s string) int = ite(compPct(s), clampTo(strconv.AtoiVal(compNum(s)), 100)*255/100, clampTo(strconv.AtoiVal(compNum(s)), 255))

func svg.parseColorValue(v) (n, err)
  ensures [C12 component accepted] (err == nil) == compOK(v)
  ensures [C12 component value] imp(err == nil, n == compVal(v))
  ensures [C12 component range] imp(err == nil, 0 <= n && n <= 255)

func svg.clampInt(n, max) (r)
  inline

// #rgb and #rrggbb
spec hexBody(s string) string = strings.TrimPrefix(s, "#")
spec hexPair(s string, i int) string = ite(len(hexBody(s)) == 6, hexBody(s)[2*i:2*i+2], string([]byte{hexBody(s)[i], hexBody(s)[i]}))
spec hexOK(s string) bool = (len(hexBody(s)) == 3 || len(hexBody(s)) == 6) && strconv.HexOK(hexPair(s, 0)) && strconv.HexOK(hexPair(s, 1)) && strconv.HexOK(hexPair(s, 2))

func svg.parseSVGColorNum(s) (r, g, b, err)
  ensures [C12 hex accepted] (err == nil) == hexOK(s)
  ensures [C12 hex digits] imp(err == nil, r == strconv.HexVal(hexPair(s, 0)) && g == strconv.HexVal(hexPair(s, 1)) && b == strconv.HexVal(hexPair(s, 2)))

spec colorLow(s string) string = strings.ToLower(s)
spec colorNamed(s string) bool = has(colornames.Map, colorLow(s))
spec rgbPart(s string, i int) string = strings.Split(strings.TrimSuffix(strings.TrimPrefix(s, "rgb("), ")"), ",")[i]
spec isRgb(s string) bool = strings.TrimPrefix(s, "rgb(") != s
spec rgbCount(s string) int = len(strings.Split(strings.TrimSuffix(strings.TrimPrefix(s, "rgb("), ")"), ","))

def colorOK(s string) bool =
  strings.HasPrefix(colorLow(s), "url") || colorLow(s) == "none" || colorNamed(s) ||
  ite(isRgb(s), rgbCount(s) == 3 && compOK(rgbPart(s, 0)) && compOK(rgbPart(s, 1)) && compOK(rgbPart(s, 2)), strings.HasPrefix(s, "#") && hexOK(s))
def colorVal(s string) svg.optionnalColor =
  ite(strings.HasPrefix(colorLow(s), "url"), black(),
  ite(colorLow(s) == "none", svg.optionnalColor{},
  ite(colorNamed(s), svg.optionnalColor{valid: true, color: svg.PlainColor{NRGBA: color.NRGBA{R: colornames.Map[colorLow(s)].R, G: colornames.Map[colorLow(s)].G, B: colornames.Map[colorLow(s)].B, A: colornames.Map[colorLow(s)].A}}},
  ite(isRgb(s), svg.optionnalColor{valid: true, color: rgbC(uint8(compVal(rgbPart(s, 0))), uint8(compVal(rgbPart(s, 1))), uint8(compVal(rgbPart(s, 2))))},
  svg.optionnalColor{valid: true, color: rgbC(uint8(strconv.HexVal(hexPair(s, 0))), uint8(strconv.HexVal(hexPair(s, 1))), uint8(strconv.HexVal(hexPair(s, 2))))}))))

func svg.parseSVGColor(s) (c, err)
  reveal colorOK colorVal
  ensures [C12 C11 C13 colour accepted] (err == nil) == colorOK(s)
  ensures [C12 C11 C13 colour value] imp(err == nil, c == colorVal(s))

func svg.toOptColor(p) (o)
  inline
func svg.optionnalColor.asColor(o) (c)
  ensures [C13 stop colour] ite(o.valid, is(c, svg.PlainColor) && as(c, svg.PlainColor) == o.color, c == nil)
func svg.optionnalColor.asPattern(o) (c)
  ensures [C11 C12 paint] ite(o.valid, is(c, svg.PlainColor) && as(c, svg.PlainColor) == o.color, c == nil)
