// Documents (C10, C14, C15, C16, C17): the effect of every element on what has been read so far.

moved svg.section

// everything later elements and the result depend on
type Doc struct {
  vb svg.Bounds; width string; height string; titles []string; descs []string; paths []svg.SvgPath;
  has chan bool; defs chan []svg.definition; maskHas chan bool; masks chan *svg.SvgMask; maskCells <-chan svg.SvgMask; paints Paints; next int;
  stack []svg.PathStyle; grad *svg.Gradient; inTitle bool; inDesc bool; inGrad bool; uses []string; sec svg.section; outer []svg.section; strict bool }
spec docOf(c *svg.svgCursor) Doc = Doc{
  vb: c.svg.ViewBox, width: c.svg.Width, height: c.svg.Height, titles: c.svg.Titles, descs: c.svg.Descriptions, paths: c.svg.SvgPaths,
  has: mapkeys(c.svg.defs), defs: mapvals(c.svg.defs), maskHas: mapkeys(c.svg.SvgMasks), masks: mapvals(c.svg.SvgMasks), maskCells: cells(svg.SvgMask), paints: paintsOf(c.svg), next: ALLOC,
  stack: c.styleStack, grad: c.grad, inTitle: c.inTitleText, inDesc: c.inDescText, inGrad: c.inGrad, uses: c.activeUses, sec: c.section, outer: c.outer, strict: c.errorMode == svg.StrictErrorMode}
spec envIn(S Doc) Env = Env{vb: S.vb, strict: S.strict, top: last(S.stack).Transform, paints: S.paints}

// svg: the outermost one sets the viewBox and the size
spec boxOK(v string) bool = listOK(v) && len(list(v)) == 4
spec boxOf(v string) svg.Bounds = let(p, list(v), svg.Bounds{X: p[0], Y: p[1], W: p[2], H: p[3]})
spec svgAttrOK(k, v string) bool = ite(k == "viewBox", boxOK(v), imp(k == "width" || k == "height", lenOK(v)))
rec svgAttrsOK(a []xml.Attr, i int) bool = i >= len(a) || (svgAttrOK(aname(a, i), a[i].Value) && svgAttrsOK(a, i+1))
rec boxAt(a []xml.Attr, n int) svg.Bounds = ite(n <= 0, svg.Bounds{X: 0, Y: 0, W: 0, H: 0}, ite(aname(a, n-1) == "viewBox", boxOf(a[n-1].Value), boxAt(a, n-1)))
rec attrNum(a []xml.Attr, n int, name string) float64 = ite(n <= 0, 0.0, ite(aname(a, n-1) == name, lenVal(a[n-1].Value), attrNum(a, n-1, name)))
spec orElse(v, d float64) float64 = ite(v == 0, d, v)
def svgBox(a []xml.Attr) svg.Bounds = let(b, boxAt(a, len(a)), svg.Bounds{X: b.X, Y: b.Y, W: orElse(b.W, attrNum(a, len(a), "width")), H: orElse(b.H, attrNum(a, len(a), "height"))})

func svg.svgF(c, attrs) (err)
  modifies c.points, c.svg.ViewBox, c.svg.Width, c.svg.Height
  reveal svgBox
  ensures [C17 C16 svg accepted] (err == nil) == (len(c.styleStack) > 2 || svgAttrsOK(attrs, 0))
  ensures [C17 viewBox] imp(err == nil, c.svg.ViewBox == ite(len(c.styleStack) > 2, old(c.svg.ViewBox), svgBox(attrs)))
  ensures [C17 size] imp(err == nil, c.svg.Width == ite(len(c.styleStack) > 2, old(c.svg.Width), attrStr(attrs, len(attrs), "width", old(c.svg.Width))) && c.svg.Height == ite(len(c.styleStack) > 2, old(c.svg.Height), attrStr(attrs, len(attrs), "height", old(c.svg.Height))))
  invariant svgAttrsOK(attrs, K) == svgAttrsOK(attrs, 0)
  invariant c.svg.ViewBox == boxAt(attrs, K)
  invariant c.svg.Width == attrStr(attrs, K, "width", old(c.svg.Width))
  invariant c.svg.Height == attrStr(attrs, K, "height", old(c.svg.Height))
  invariant VF_v == attrNum(attrs, K, "width")
  invariant VF_v == attrNum(attrs, K, "height")

// title and desc add an entry for their text, except in instances of definitions
func svg.titleF(c, attrs) (err)
  modifies c.inTitleText, c.svg.Titles
  ensures [C17 C14 title] err == nil && c.inTitleText == (old(c.inTitleText) || len(c.activeUses) == 0) && c.svg.Titles == ite(len(c.activeUses) == 0, snoc(old(c.svg.Titles), ""), old(c.svg.Titles))
func svg.descF(c, attrs) (err)
  modifies c.inDescText, c.svg.Descriptions
  ensures [C17 C14 desc] err == nil && c.inDescText == (old(c.inDescText) || len(c.activeUses) == 0) && c.svg.Descriptions == ite(len(c.activeUses) == 0, snoc(old(c.svg.Descriptions), ""), old(c.svg.Descriptions))

// defs and mask start a section of their own
spec defsSec() svg.section = svg.section{inDefs: true, inMask: false, currentDef: nil, openDefs: nil, mask: nil}
spec maskSec(m *svg.SvgMask) svg.section = svg.section{inDefs: false, inMask: true, currentDef: nil, openDefs: nil, mask: m}
func svg.defsF(c, attrs) (err)
  modifies c.section, c.outer
  ensures [C14 C17 defs] err == nil && c.section == defsSec() && c.outer == snoc(old(c.outer), old(c.section))

spec maskAttrOK(k, v string) bool = ite(k == "id", len(v) != 0, imp(k == "x" || k == "y" || k == "width" || k == "height", lenOK(v)))
rec maskAttrsOK(a []xml.Attr, i int) bool = i >= len(a) || (maskAttrOK(aname(a, i), a[i].Value) && maskAttrsOK(a, i+1))
def maskOf(vb svg.Bounds, a []xml.Attr) svg.SvgMask = svg.SvgMask{ID: attrStr(a, len(a), "id", ""), X: attrPx(vb, a, "x", 0), Y: attrPx(vb, a, "y", 1), W: attrPx(vb, a, "width", 0), H: attrPx(vb, a, "height", 1), SvgPaths: nil, Transform: midentity()}
func svg.maskF(c, attrs) (err)
  modifies c.section, c.outer, heap(svg.SvgMask)
  reveal maskOf
  ensures [C15 C16 mask accepted] (err == nil) == maskAttrsOK(attrs, 0)
  ensures [C15 new mask] imp(err == nil, ALLOC == old(ALLOC) + 1 && cells(svg.SvgMask) == set(old(cells(svg.SvgMask)), old(ALLOC), maskOf(c.svg.ViewBox, attrs)))
  ensures [C15 mask collects] imp(err == nil, c.section == maskSec(old(ALLOC)) && c.outer == snoc(old(c.outer), old(c.section)))
  invariant maskAttrsOK(attrs, K) == maskAttrsOK(attrs, 0)
  invariant V_s == attrStr(attrs, K, "id", "")
  invariant VF_v == attrLen(c.svg.ViewBox, attrs, K, "x", 0)
  invariant VF_v == attrLen(c.svg.ViewBox, attrs, K, "y", 1)
  invariant VF_v == attrLen(c.svg.ViewBox, attrs, K, "width", 0)
  invariant VF_v == attrLen(c.svg.ViewBox, attrs, K, "height", 1)

// ---- the effect of a start tag ----

spec isShape(t string) bool = t == "line" || t == "rect" || t == "circle" || t == "ellipse" || t == "polyline" || t == "polygon" || t == "path"
def shapeOK(strict bool, t string, a []xml.Attr) bool =
  ite(t == "line", lineOK(a, 0), ite(t == "rect", rectOK(a, 0), ite(t == "circle" || t == "ellipse", circleOK(a, 0), ite(t == "path", dOK(a, 0, strict), ptsOK(a, 0)))))
def shapeOps(vb svg.Bounds, t string, a []xml.Attr) svg.Path =
  ite(t == "line", lineEl(svg.Path{}, vb, a, 0, 0), ite(t == "rect", rectEl(svg.Path{}, vb, a, 0, 0), ite(t == "circle" || t == "ellipse", circleEl(svg.Path{}, vb, a, 0, 0),
  ite(t == "path", dOps(a, len(a), svg.Path{}, 0, 0), ite(t == "polyline", polylineEl(svg.Path{}, a, 0, 0), polygonEl(svg.Path{}, a, 0, 0))))))
// a path goes, with the style of its element, to the innermost mask or to the document
spec styled(S Doc, p svg.Path) svg.SvgPath = svg.SvgPath{Path: p, Style: last(S.stack)}
def addPath(S Doc, p svg.Path) Doc = ite(len(p) == 0, S,
  ite(S.sec.inMask, put(S, maskCells, set(S.maskCells, S.sec.mask, let(m, S.maskCells[S.sec.mask], put(m, SvgPaths, snoc(m.SvgPaths, styled(S, p)))))), put(S, paths, snoc(S.paths, styled(S, p)))))

spec outermost(S Doc) bool = len(S.stack) <= 2
spec svgEl(S Doc, a []xml.Attr) Doc = ite(outermost(S), put(put(put(S, vb, svgBox(a)), width, attrStr(a, len(a), "width", S.width)), height, attrStr(a, len(a), "height", S.height)), S)
spec titleEl(S Doc) Doc = ite(len(S.uses) == 0, put(put(S, inTitle, true), titles, snoc(S.titles, "")), S)
spec descEl(S Doc) Doc = ite(len(S.uses) == 0, put(put(S, inDesc, true), descs, snoc(S.descs, "")), S)
spec enter(S Doc, s svg.section) Doc = put(put(S, outer, snoc(S.outer, S.sec)), sec, s)
spec maskEl(S Doc, a []xml.Attr) Doc = enter(put(put(S, maskCells, set(S.maskCells, S.next, maskOf(S.vb, a))), next, S.next + 1), maskSec(S.next))
spec gradEl(S Doc, a []xml.Attr, g svg.Gradient) Doc =
  put(put(put(put(put(put(S, inGrad, true), grad, S.next), next, S.next + 1), paints.cell, set(S.paints.cell, S.next, g)), paints.has, idsHas(S.paints.has, a, len(a))), paints.ref, idsRef(S.paints.ref, a, len(a), S.next))
spec stopEl(S Doc, a []xml.Attr) Doc = ite(S.inGrad, let(g, S.paints.cell[S.grad], put(S, paints.cell, set(S.paints.cell, S.grad, put(g, Stops, snoc(g.Stops, stopOf(stopAttrs(a), len(stopAttrs(a)))))))), S)
spec supported(t string) bool = isShape(t) || t == "svg" || t == "g" || t == "title" || t == "desc" || t == "defs" || t == "mask" || t == "use" || t == "stop" || t == "linearGradient" || t == "radialGradient"

def drawEl(S Doc, t string, a []xml.Attr) Doc =
  ite(isShape(t), addPath(S, shapeOps(S.vb, t, a)), ite(t == "svg", svgEl(S, a), ite(t == "title", titleEl(S), ite(t == "desc", descEl(S), ite(t == "defs", enter(S, defsSec()), ite(t == "mask", maskEl(S, a),
  ite(t == "linearGradient", gradEl(S, a, linearOf(S.vb, last(S.stack).Transform, a)), ite(t == "radialGradient", gradEl(S, a, radialOf(S.vb, last(S.stack).Transform, a)), ite(t == "stop", stopEl(S, a), ite(t == "use", useEl(S, a), S))))))))))
def drawOK(S Doc, t string, a []xml.Attr) bool =
  ite(isShape(t), shapeOK(S.strict, t, a), ite(t == "svg", !outermost(S) || svgAttrsOK(a, 0), ite(t == "mask", maskAttrsOK(a, 0),
  ite(t == "linearGradient", linearOK(a), ite(t == "radialGradient", radialOK(a), ite(t == "stop", !S.inGrad || stopOK(stopAttrs(a), 0), ite(t == "use", useOK(S, a), imp(S.strict, supported(t)))))))))

// inside defs elements are recorded, except gradients and masks, which are read at once
spec atOnce(S Doc, t string) bool = t == "linearGradient" || t == "radialGradient" || t == "mask" || S.inGrad
spec record(S Doc, t string, a []xml.Attr) Doc = put(put(S, sec.openDefs, snoc(S.sec.openDefs, len(S.sec.currentDef))), sec.currentDef, snoc(S.sec.currentDef, svg.definition{ID: attrStr(a, len(a), "id", ""), Tag: t, Attrs: a, end: false}))
spec noted(S Doc) Doc = put(S, sec.openDefs, snoc(S.sec.openDefs, -1))
def startEl(S Doc, t string, a []xml.Attr) Doc = ite(S.sec.inDefs, ite(atOnce(S, t), drawEl(noted(S), t, a), record(S, t, a)), drawEl(S, t, a))
def startOK(S Doc, t string, a []xml.Attr) bool = ite(S.sec.inDefs, imp(atOnce(S, t), drawOK(noted(S), t, a)), drawOK(S, t, a))

// ---- the effect of an end tag ----

spec leave(S Doc) Doc = put(put(S, sec, last(S.outer)), outer, butlast(S.outer))
spec endSec(S Doc, t string) Doc =
  ite(t == "mask" && S.sec.inMask, leave(let(id, S.maskCells[S.sec.mask].ID, put(put(S, maskHas, set(S.maskHas, id, true)), masks, set(S.masks, id, S.sec.mask)))),
  ite(t == "defs" && S.sec.inDefs && len(S.sec.openDefs) == 0, leave(S), S))
spec openSec(s svg.section) bool = s.inDefs && len(s.openDefs) > 0
spec pop(S Doc) Doc = put(S, stack, butlast(S.stack))
spec popDef(S Doc) Doc = put(S, sec.openDefs, butlast(S.sec.openDefs))
spec endDef(S Doc, t string) Doc = put(popDef(S), sec.currentDef, snoc(S.sec.currentDef, svg.definition{ID: "", Tag: t, Attrs: nil, end: true}))
// the definition that ends gets everything since its start tag
spec define(S Doc, start int) Doc = let(id, S.sec.currentDef[start].ID, ite(id == "", S, put(put(S, has, set(S.has, id, true)), defs, set(S.defs, id, S.sec.currentDef[start:]))))
spec endFlags(S Doc, t string) Doc = ite(t == "title", put(S, inTitle, false), ite(t == "desc", put(S, inDesc, false), ite(t == "linearGradient" || t == "radialGradient", put(S, inGrad, false), S)))
def endEl(S Doc, t string) Doc = let(T, endSec(pop(S), t), ite(openSec(T.sec), let(i, last(T.sec.openDefs), ite(i >= 0, define(endDef(T, t), i), endFlags(popDef(T), t))), endFlags(T, t)))

// ---- use ----

spec href(a []xml.Attr) string = attrStr(a, len(a), "href", "")
spec useId(a []xml.Attr) string = href(a)[1:]
rec useAttrsOK(a []xml.Attr, i int) bool = i >= len(a) || (imp(aname(a, i) == "x" || aname(a, i) == "y", lenOK(a[i].Value)) && useAttrsOK(a, i+1))
spec useStart(S Doc, a []xml.Attr) Doc = let(s, last(S.stack),
  put(put(S, uses, snoc(S.uses, useId(a))), stack, upd(S.stack, len(S.stack)-1, put(s, Transform, mmul(s.Transform, mtranslate(attrPx(S.vb, a, "x", 0), attrPx(S.vb, a, "y", 1)))))))
spec pushEl(S Doc, a []xml.Attr) Doc = put(S, stack, snoc(S.stack, elemStyle(envIn(S), last(S.stack), a)))
// the elements of the definition one after another
spec step(S Doc, d svg.definition) Doc = ite(d.end, endEl(S, d.Tag), startEl(pushEl(S, d.Attrs), d.Tag, d.Attrs))
spec stepOK(S Doc, d svg.definition) bool = d.end || (elemOK(envIn(S), d.Attrs) && startOK(pushEl(S, d.Attrs), d.Tag, d.Attrs))
rec useRun(S Doc, ds []svg.definition, i int) Doc = ite(i >= len(ds), S, useRun(step(S, ds[i]), ds, i+1))
rec useRunOK(S Doc, ds []svg.definition, i int) bool = i >= len(ds) || (stepOK(S, ds[i]) && useRunOK(step(S, ds[i]), ds, i+1))
def useEl(S Doc, a []xml.Attr) Doc = put(useRun(useStart(S, a), S.defs[useId(a)], 0), uses, S.uses)
def useOK(S Doc, a []xml.Attr) bool = useAttrsOK(a, 0) && strings.HasPrefix(href(a), "#") && S.has[useId(a)] && !isName(S.uses, 0, useId(a)) && useRunOK(useStart(S, a), S.defs[useId(a)], 0)

// ---- the functions ----

spec wfSec(s svg.section) bool = imp(s.inMask, s.mask != nil) && forall(j, 0, len(s.openDefs), s.openDefs[j] < len(s.currentDef))
spec inSec(s svg.section) bool = s.inDefs || s.inMask
spec wf(S Doc) bool = wfSec(S.sec) && forall(j, 0, len(S.outer), wfSec(S.outer[j])) && imp(inSec(S.sec), len(S.outer) >= 1) && imp(len(S.outer) >= 1, !inSec(S.outer[0])) && imp(S.inGrad, S.grad != nil) && imp(S.inTitle, len(S.titles) >= 1) && imp(S.inDesc, len(S.descs) >= 1)
spec fresh(c *svg.svgCursor) bool = len(c.path) == 0 && c.curX == 0 && c.curY == 0

func svg.(*svgCursor).readEndElement(c, tag)
  requires len(c.styleStack) >= 2
  requires wf(docOf(c))
  modifies c.styleStack, c.section, c.outer, c.svg.SvgMasks, c.svg.defs, c.inTitleText, c.inDescText, c.inGrad
  reveal endEl
  ensures [C10 C14 C15 C17 end tag] docOf(c) == endEl(old(docOf(c)), tag)
  ensures [C01 well formed] wf(docOf(c))
  ensures [C01 C10 C14 one level up] len(c.styleStack) == old(len(c.styleStack)) - 1

func svg.(*svgCursor).readStartElement(c, se) (err)
  requires len(c.styleStack) >= 2
  requires wf(docOf(c))
  requires fresh(c)
  modifies c.points, c.path, c.placeX, c.placeY, c.cntlPtX, c.cntlPtY, c.pathStartX, c.pathStartY, c.lastKey, c.inPath, c.styleStack, c.activeUses, c.section, c.outer, c.grad, c.inTitleText, c.inDescText, c.inGrad,
    c.svg.ViewBox, c.svg.Width, c.svg.Height, c.svg.Titles, c.svg.Descriptions, c.svg.SvgPaths, c.svg.SvgMasks, c.svg.defs, c.svg.grads, heap(svg.Gradient), heap(svg.SvgMask)
  reveal startEl startOK drawEl drawOK addPath shapeOK shapeOps
  ensures [C10 C14 C15 C16 C17 start tag accepted] (err == nil) == startOK(old(docOf(c)), se.Name.Local, se.Attr)
  ensures [C10 C14 C15 C16 C17 start tag] imp(err == nil, docOf(c) == startEl(old(docOf(c)), se.Name.Local, se.Attr))
  ensures [C01 well formed] imp(err == nil, wf(docOf(c)))
  ensures [C01 C17 no pending path] imp(err == nil, fresh(c))
  ensures [C01 path consumed] len(c.path) == 0
  ensures [C14 C01 uses restored] c.activeUses == old(c.activeUses)
  ensures [C14 C01 depth restored] imp(err == nil, len(c.styleStack) == old(len(c.styleStack)))
  invariant V_s == attrStr(se.Attr, K, "id", "")

// every recorded definition is one element: as many end tags as start tags, never more ends than starts
rec depth(ds []svg.definition, n int) int = ite(n <= 0, 0, depth(ds, n-1) + ite(ds[n-1].end, -1, 1))
spec balanced(ds []svg.definition) bool = depth(ds, len(ds)) == 0 && forall(q, 0, len(ds), depth(ds, q) >= 0)
func svg.useF(c, attrs) (err)
  assume balanced(docOf(c).defs[useId(attrs)])
  requires len(c.styleStack) >= 2
  requires wf(docOf(c))
  requires fresh(c)
  modifies c.points, c.path, c.placeX, c.placeY, c.cntlPtX, c.cntlPtY, c.pathStartX, c.pathStartY, c.lastKey, c.inPath, c.styleStack, c.activeUses, c.section, c.outer, c.grad, c.inTitleText, c.inDescText, c.inGrad,
    c.svg.ViewBox, c.svg.Width, c.svg.Height, c.svg.Titles, c.svg.Descriptions, c.svg.SvgPaths, c.svg.SvgMasks, c.svg.defs, c.svg.grads, heap(svg.Gradient), heap(svg.SvgMask)
  reveal useEl useOK
  ensures [C10 C14 C15 C16 C17 use accepted] (err == nil) == useOK(old(docOf(c)), attrs)
  ensures [C10 C14 C15 C16 C17 use] imp(err == nil, docOf(c) == useEl(old(docOf(c)), attrs))
  ensures [C01 well formed] imp(err == nil, wf(docOf(c)))
  ensures [C01 C17 no pending path] imp(err == nil, fresh(c))
  ensures [C01 path consumed] len(c.path) == 0
  ensures [C14 C01 uses restored] c.activeUses == old(c.activeUses)
  ensures [C14 C01 depth restored] imp(err == nil, len(c.styleStack) == old(len(c.styleStack)))
  invariant useAttrsOK(attrs, K) == useAttrsOK(attrs, 0)
  invariant V_s == attrStr(attrs, K, "href", "")
  invariant VF_v == attrLen(c.svg.ViewBox, attrs, K, "x", 0)
  invariant VF_v == attrLen(c.svg.ViewBox, attrs, K, "y", 1)
  invariant isName(c.activeUses, K, useId(attrs)) == isName(c.activeUses, 0, useId(attrs))
  invariant useRun(docOf(c), old(docOf(c)).defs[useId(attrs)], K) == useRun(init(docOf(c)), old(docOf(c)).defs[useId(attrs)], 0)
  invariant useRunOK(docOf(c), old(docOf(c)).defs[useId(attrs)], K) == useRunOK(init(docOf(c)), old(docOf(c)).defs[useId(attrs)], 0)
  invariant wf(docOf(c))
  invariant fresh(c)
  invariant c.activeUses == snoc(old(c.activeUses), useId(attrs))
  invariant len(c.styleStack) == old(len(c.styleStack)) + depth(old(docOf(c)).defs[useId(attrs)], K)

// ---- the document ----

type Sh_xml_Decoder struct { stream io.Reader; pos int; Strict bool }
spec isStart(t any) bool = is(t, xml.StartElement)
spec isEnd(t any) bool = is(t, xml.EndElement)
spec addText(l []string, s string) []string = upd(l, len(l)-1, last(l) + s)
spec textEl(S Doc, s string) Doc = let(T, ite(S.inTitle, put(S, titles, addText(S.titles, s)), S), ite(S.inDesc, put(T, descs, addText(S.descs, s)), T))
def tokEl(S Doc, t any) Doc = ite(isStart(t), startEl(pushEl(S, as(t, xml.StartElement).Attr), as(t, xml.StartElement).Name.Local, as(t, xml.StartElement).Attr),
  ite(isEnd(t), endEl(S, as(t, xml.EndElement).Name.Local), ite(is(t, xml.CharData), textEl(S, string(as(t, xml.CharData))), S)))
def tokOK(S Doc, t any) bool = imp(isStart(t), elemOK(envIn(S), as(t, xml.StartElement).Attr) && startOK(pushEl(S, as(t, xml.StartElement).Attr), as(t, xml.StartElement).Name.Local, as(t, xml.StartElement).Attr))
rec read(S Doc, r io.Reader, i int) Doc = ite(i >= xml.Count(r), S, read(tokEl(S, xml.Tok(r, i)), r, i+1))
rec readOK(S Doc, r io.Reader, i int) bool = i >= xml.Count(r) || (tokOK(S, xml.Tok(r, i)) && readOK(tokEl(S, xml.Tok(r, i)), r, i+1))
rec anyElement(r io.Reader, i int) bool = i < xml.Count(r) && (isStart(xml.Tok(r, i)) || anyElement(r, i+1))
rec level(r io.Reader, n int) int = ite(n <= 0, 0, level(r, n-1) + ite(isStart(xml.Tok(r, n-1)), 1, ite(isEnd(xml.Tok(r, n-1)), -1, 0)))
def nothing(strict bool, gs <-chan svg.Gradient, ms <-chan svg.SvgMask, next int) Doc = Doc{
  vb: svg.Bounds{X: 0, Y: 0, W: 0, H: 0}, width: "", height: "", titles: nil, descs: nil, paths: nil,
  has: nomap(bool), defs: nomap([]svg.definition), maskHas: nomap(bool), masks: nomap(*svg.SvgMask), maskCells: ms, paints: Paints{has: nomap(bool), ref: nomap(*svg.Gradient), cell: gs}, next: next,
  stack: []svg.PathStyle{svg.DefaultStyle}, grad: nil, inTitle: false, inDesc: false, inGrad: false, uses: nil, sec: svg.section{inDefs: false, inMask: false, currentDef: nil, openDefs: nil, mask: nil}, outer: nil, strict: strict}

func svg.Parse(stream, errMode) (r, err)
  // encoding/xml in strict mode: no end tag without its start tag
  assume forall(i, 0, xml.Count(stream), level(stream, i) >= ite(isEnd(xml.Tok(stream, i)), 1, 0))
  reveal tokEl tokOK nothing
  modifies heap(svg.Gradient), heap(svg.SvgMask)
  ensures [C10 C14 C15 C16 C17 accepted] (err == nil) == (xml.Ends(stream) && anyElement(stream, 0) && readOK(nothing(errMode == svg.StrictErrorMode, old(cells(svg.Gradient)), old(cells(svg.SvgMask)), old(ALLOC)), stream, 0))
  ensures [C10 C14 C15 C16 C17 document] imp(err == nil, let(S, read(nothing(errMode == svg.StrictErrorMode, old(cells(svg.Gradient)), old(cells(svg.SvgMask)), old(ALLOC)), stream, 0),
    r.ViewBox == S.vb && r.Width == S.width && r.Height == S.height && r.Titles == S.titles && r.Descriptions == S.descs && r.SvgPaths == S.paths &&
    mapkeys(r.SvgMasks) == S.maskHas && mapvals(r.SvgMasks) == S.masks && cells(svg.SvgMask) == S.maskCells && r.Transform == midentity()))
  decreases xml.Count(stream) - K
  invariant VP_d.pos == K
  invariant read(docOf(VP_c), stream, K) == read(init(docOf(VP_c)), stream, 0)
  invariant readOK(docOf(VP_c), stream, K) == readOK(init(docOf(VP_c)), stream, 0)
  invariant (V_b || anyElement(stream, K)) == anyElement(stream, 0)
  invariant wf(docOf(VP_c))
  invariant fresh(VP_c)
  invariant len(VP_c.styleStack) == 1 + level(stream, K)
  invariant docOf(VP_c).uses == init(docOf(VP_c)).uses
