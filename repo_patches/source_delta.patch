From 2a7c1bab3c8394189d250cf167ef7c9102f2de49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:02 +0000
Subject: [PATCH 01/27] fix: reject malformed colours instead of panicking,
 clamp rgb() components

---
 patterns.go | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/patterns.go b/patterns.go
index fe7f40f..dd3e63a 100644
--- a/patterns.go
+++ b/patterns.go
@@ -90,7 +90,7 @@ func parseSVGColor(colorStr string) (optionnalColor, error) {
 		}
 		return toOptColor(NewPlainColor(cvals[0], cvals[1], cvals[2], 0xFF)), nil
 	}
-	if colorStr[0] == '#' {
+	if strings.HasPrefix(colorStr, "#") {
 		r, g, b, err := parseSVGColorNum(colorStr)
 		if err != nil {
 			return optionnalColor{}, err
@@ -101,18 +101,27 @@ func parseSVGColor(colorStr string) (optionnalColor, error) {
 }
 
 func parseColorValue(v string) (uint8, error) {
-	if v[len(v)-1] == '%' {
+	v = strings.TrimSpace(v)
+	if strings.HasSuffix(v, "%") {
 		n, err := strconv.Atoi(strings.TrimSpace(v[:len(v)-1]))
 		if err != nil {
 			return 0, err
 		}
-		return uint8(n * 0xFF / 100), nil
+		return uint8(clampInt(n, 100) * 0xFF / 100), nil
 	}
-	n, err := strconv.Atoi(strings.TrimSpace(v))
-	if n > 255 {
-		n = 255
+	n, err := strconv.Atoi(v)
+	return uint8(clampInt(n, 255)), err
+}
+
+// clampInt limits n to the range [0, max]
+func clampInt(n, max int) int {
+	if n < 0 {
+		return 0
 	}
-	return uint8(n), err
+	if n > max {
+		return max
+	}
+	return n
 }
 
 // parseSVGColorNum reads the SFG color string e.g. #FBD9BD
@@ -120,6 +129,9 @@ func parseSVGColorNum(colorStr string) (r, g, b uint8, err error) {
 	colorStr = strings.TrimPrefix(colorStr, "#")
 	var t uint64
 	if len(colorStr) != 6 {
+		if len(colorStr) != 3 {
+			return 0, 0, 0, errParamMismatch
+		}
 		// SVG specs say duplicate characters in case of 3 digit hex number
 		colorStr = string([]byte{
 			colorStr[0], colorStr[0],
-- 
2.43.0


From 684f0617fbd7dd6eebed970b380ea7159187cad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:03 +0000
Subject: [PATCH 02/27] fix: do not append to the mask list shared with the
 parent style

---
 parse.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index a45309f..5e04292 100644
--- a/parse.go
+++ b/parse.go
@@ -294,7 +294,8 @@ func (c *svgCursor) readStyleAttr(curStyle *PathStyle, k, v string) error {
 		if err != nil {
 			return err
 		}
-		curStyle.Masks = append(curStyle.Masks, id)
+		// the mask list is shared with the parent style: never append in place
+		curStyle.Masks = append(append([]string{}, curStyle.Masks...), id)
 	}
 	return nil
 }
-- 
2.43.0


From ab3e628f239563610ee175cf8c7b6abfde2e8038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:04 +0000
Subject: [PATCH 03/27] fix: draw polylines from their own points only, two
 points included

---
 svg_elements.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/svg_elements.go b/svg_elements.go
index 93ba5f9..12a9919 100644
--- a/svg_elements.go
+++ b/svg_elements.go
@@ -206,6 +206,7 @@ func lineF(c *svgCursor, attrs []xml.Attr) error {
 
 func polylineF(c *svgCursor, attrs []xml.Attr) error {
 	var err error
+	c.points = c.points[0:0] // do not reuse the points of another attribute
 	for _, attr := range attrs {
 		switch attr.Name.Local {
 		case "points":
@@ -218,7 +219,7 @@ func polylineF(c *svgCursor, attrs []xml.Attr) error {
 			return err
 		}
 	}
-	if len(c.points) > 4 {
+	if len(c.points) >= 4 {
 		c.path.Start(fixed.Point26_6{
 			X: fixed.Int26_6((c.points[0] + c.curX) * 64),
 			Y: fixed.Int26_6((c.points[1] + c.curY) * 64),
@@ -235,7 +236,7 @@ func polylineF(c *svgCursor, attrs []xml.Attr) error {
 
 func polygonF(c *svgCursor, attrs []xml.Attr) error {
 	err := polylineF(c, attrs)
-	if len(c.points) > 4 {
+	if len(c.points) >= 4 {
 		c.path.Stop(true)
 	}
 	return err
-- 
2.43.0


From a14f4ca5fda87d273d34206d180c66780ad0a270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:05 +0000
Subject: [PATCH 04/27] fix: draw every arc of a repeated arc command, handle
 zero radii and identical endpoints

---
 parse_path.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/parse_path.go b/parse_path.go
index d87d75f..d76f01b 100644
--- a/parse_path.go
+++ b/parse_path.go
@@ -398,7 +398,17 @@ func (c *pathCursor) ellipseAt(cx, cy, rx, ry float64) {
 
 // addArcFromA adds a path of an arc element to the svgCursor path to the pathCursor
 func (c *pathCursor) addArcFromA(points []float64) {
+	if points[5] == c.placeX && points[6] == c.placeY {
+		return // identical endpoints: the segment is omitted
+	}
+	points[0], points[1] = math.Abs(points[0]), math.Abs(points[1])
+	if points[0] == 0 || points[1] == 0 {
+		// without a radius the arc is a straight line
+		c.path.Line(toFixedP(points[5]+c.curX, points[6]+c.curY))
+		c.placeX, c.placeY = points[5], points[6]
+		return
+	}
 	cx, cy := findEllipseCenter(&points[0], &points[1], points[2]*math.Pi/180, c.placeX,
 		c.placeY, points[5], points[6], points[4] == 0, points[3] == 0)
-	c.placeX, c.placeY = c.path.addArc(c.points, cx+c.curX, cy+c.curY, c.placeX+c.curX, c.placeY+c.curY)
+	c.placeX, c.placeY = c.path.addArc(points, cx+c.curX, cy+c.curY, c.placeX+c.curX, c.placeY+c.curY)
 }
-- 
2.43.0


From 143454a3f063bf8c924f6f4151529796e54d0937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:07 +0000
Subject: [PATCH 05/27] fix: write one C for a cubic segment

---
 path.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/path.go b/path.go
index 1c72359..1c3d8c8 100644
--- a/path.go
+++ b/path.go
@@ -47,7 +47,7 @@ func (op OpQuadTo) String() string {
 }
 
 func (op OpCubicTo) String() string {
-	return "C" + fmt.Sprintf("C%4.3f,%4.3f,%4.3f,%4.3f,%4.3f,%4.3f", float32(op[0].X)/64, float32(op[0].Y)/64,
+	return fmt.Sprintf("C%4.3f,%4.3f,%4.3f,%4.3f,%4.3f,%4.3f", float32(op[0].X)/64, float32(op[0].Y)/64,
 		float32(op[1].X)/64, float32(op[1].Y)/64, float32(op[2].X)/64, float32(op[2].Y)/64)
 }
 
-- 
2.43.0


From 070eb85d8f170745d3ebf5958e379700a8aa6e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:08 +0000
Subject: [PATCH 06/27] fix: compose transforms as matrix products and map the
 viewBox to the target

---
 matrix.go                | 36 ++++++++++++++++++------------------
 parse.go                 |  5 +++--
 renderer/draw2d/draw.go  |  2 +-
 renderer/gg/draw.go      |  2 +-
 renderer/options.go      |  2 +-
 renderer/rasterx/draw.go |  2 +-
 6 files changed, 25 insertions(+), 24 deletions(-)

diff --git a/matrix.go b/matrix.go
index 755d110..db90022 100644
--- a/matrix.go
+++ b/matrix.go
@@ -73,8 +73,8 @@ func (a Matrix2D) Mult(b Matrix2D) Matrix2D {
 		B: a.B*b.A + a.D*b.B,
 		C: a.A*b.C + a.C*b.D,
 		D: a.B*b.C + a.D*b.D,
-		E: a.A*b.E + a.C*b.F + a.E*b.A,
-		F: a.B*b.E + a.D*b.F + a.F*b.D,
+		E: a.A*b.E + a.C*b.F + a.E,
+		F: a.B*b.E + a.D*b.F + a.F,
 	}
 }
 
@@ -106,14 +106,14 @@ func (a Matrix2D) TransformVector(x1, y1 float64) (x2, y2 float64) {
 
 // Scale matrix in x and y dimensions
 func (a Matrix2D) Scale(x, y float64) Matrix2D {
-	return Matrix2D{
-		A: a.A * x,
-		B: a.B * y,
-		C: a.C * x,
-		D: a.D * y,
-		E: a.E * x,
-		F: a.F * y,
-	}
+	return a.Mult(Matrix2D{
+		A: x,
+		B: 0,
+		C: 0,
+		D: y,
+		E: 0,
+		F: 0,
+	})
 }
 
 // SkewY skews the matrix in the Y dimension
@@ -142,14 +142,14 @@ func (a Matrix2D) SkewX(theta float64) Matrix2D {
 
 // Translate translates the matrix to the x , y point
 func (a Matrix2D) Translate(x, y float64) Matrix2D {
-	return Matrix2D{
-		A: a.A,
-		B: a.B,
-		C: a.C,
-		D: a.D,
-		E: a.E + x,
-		F: a.F + y,
-	}
+	return a.Mult(Matrix2D{
+		A: 1,
+		B: 0,
+		C: 0,
+		D: 1,
+		E: x,
+		F: y,
+	})
 }
 
 // Rotate rotate the matrix by theta
diff --git a/parse.go b/parse.go
index 5e04292..9433048 100644
--- a/parse.go
+++ b/parse.go
@@ -109,8 +109,9 @@ func (c *svgCursor) parseTransform(v string) (Matrix2D, error) {
 	ts := strings.Split(v, ")")
 	m1 := c.styleStack[len(c.styleStack)-1].Transform
 	// From the docs at https://devdoc.net/web/developer.mozilla.org/en-US/docs/Web/SVG/Attribute/transform.html:
-	// The items in the transform list are separated by whitespace and/or commas, and are applied from right to left.
-	for i := len(ts) - 1; i >= 0; i-- {
+	// The items in the transform list are separated by whitespace and/or commas, and are applied from right to left,
+	// that is, the matrix of the list is the product of its items in order.
+	for i := range ts {
 		t := strings.TrimSpace(ts[i])
 		if len(t) == 0 {
 			continue
diff --git a/renderer/draw2d/draw.go b/renderer/draw2d/draw.go
index 4c51a27..f44d74f 100644
--- a/renderer/draw2d/draw.go
+++ b/renderer/draw2d/draw.go
@@ -73,7 +73,7 @@ func toGradient(g svg.Gradient, opacity float64) color.Color {
 
 // drawTransformed draws the compiled SvgPath into the driver while applying transform t.
 func drawTransformed(gc draw2d.GraphicContext, svgp svg.SvgPath, opt *renderer.RenderOptions) {
-	m := svgp.Style.Transform.Mult(opt.Target)
+	m := opt.Target.Mult(svgp.Style.Transform)
 
 	if svgp.Style.FillerColor != nil {
 		var fr draw2d.FillRule
diff --git a/renderer/gg/draw.go b/renderer/gg/draw.go
index c586d20..0b58a09 100644
--- a/renderer/gg/draw.go
+++ b/renderer/gg/draw.go
@@ -14,7 +14,7 @@ import (
 func Draw(gc *gg.Context, s *svg.Svg, opts ...renderer.RenderOption) error {
 	opt := renderer.Options(s, opts...)
 	for _, svgp := range s.SvgPaths {
-		if err := drawTransformed(gc, s, svgp, svgp.Style.Transform.Mult(opt.Target), opt.Opacity); err != nil {
+		if err := drawTransformed(gc, s, svgp, opt.Target.Mult(svgp.Style.Transform), opt.Opacity); err != nil {
 			return err
 		}
 	}
diff --git a/renderer/options.go b/renderer/options.go
index cc9b06f..72b0879 100644
--- a/renderer/options.go
+++ b/renderer/options.go
@@ -30,7 +30,7 @@ type targetOption struct {
 func (o targetOption) apply(s *svg.Svg, r *RenderOptions) {
 	scaleW := o.W / s.ViewBox.W
 	scaleH := o.H / s.ViewBox.H
-	r.Target = svg.Identity.Translate(o.X-s.ViewBox.X, o.Y-s.ViewBox.Y).Scale(scaleW, scaleH)
+	r.Target = svg.Identity.Translate(o.X, o.Y).Scale(scaleW, scaleH).Translate(-s.ViewBox.X, -s.ViewBox.Y)
 }
 
 // Target specifies the rectangle to draw within.
diff --git a/renderer/rasterx/draw.go b/renderer/rasterx/draw.go
index b49b9cb..97293ca 100644
--- a/renderer/rasterx/draw.go
+++ b/renderer/rasterx/draw.go
@@ -129,7 +129,7 @@ func toRasterxGradient(grad svg.Gradient) rasterx.Gradient {
 
 // drawTransformed draws the compiled SvgPath into the driver while applying transform t.
 func drawTransformed(gc *rasterx.Dasher, svgp svg.SvgPath, opt *renderer.RenderOptions) {
-	m := svgp.Style.Transform.Mult(opt.Target)
+	m := opt.Target.Mult(svgp.Style.Transform)
 
 	if svgp.Style.FillerColor != nil {
 		filler := &gc.Filler
-- 
2.43.0


From e0c98b55c126ba2b55d6927d7aa78283b753898b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:09 +0000
Subject: [PATCH 07/27] fix: translate with one argument leaves y alone

---
 parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index 9433048..3790867 100644
--- a/parse.go
+++ b/parse.go
@@ -60,7 +60,7 @@ func (c *svgCursor) readTransformAttr(m1 Matrix2D, k string) (Matrix2D, error) {
 		}
 	case "translate":
 		if ln == 1 {
-			m1 = m1.Translate(c.points[0], c.points[0])
+			m1 = m1.Translate(c.points[0], 0)
 		} else if ln == 2 {
 			m1 = m1.Translate(c.points[0], c.points[1])
 		} else {
-- 
2.43.0


From edbf67bdd9a2e9e3ba4f8dabbf281d11392fa32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:09 +0000
Subject: [PATCH 08/27] fix: render with the identity transform when no target
 is given

---
 renderer/options.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/renderer/options.go b/renderer/options.go
index 72b0879..8097ce4 100644
--- a/renderer/options.go
+++ b/renderer/options.go
@@ -42,6 +42,7 @@ func Target(x, y, w, h float64) RenderOption {
 func Options(s *svg.Svg, opts ...RenderOption) *RenderOptions {
 	r := &RenderOptions{
 		Opacity: 1,
+		Target:  svg.Identity,
 	}
 	for _, o := range opts {
 		o.apply(s, r)
-- 
2.43.0


From 675fb6870c21ae0b86b451e16f57864e4f7dff41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:10 +0000
Subject: [PATCH 09/27] fix: draw2d: keep all subpaths, do not close open ones

---
 renderer/draw2d/draw.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/renderer/draw2d/draw.go b/renderer/draw2d/draw.go
index f44d74f..e8a96d8 100644
--- a/renderer/draw2d/draw.go
+++ b/renderer/draw2d/draw.go
@@ -20,8 +20,6 @@ func Draw(gc draw2d.GraphicContext, s *svg.Svg, opts ...renderer.RenderOption) {
 func drawTo(gc draw2d.GraphicContext, op svg.Operation, m svg.Matrix2D) {
 	switch op := op.(type) {
 	case svg.OpMoveTo:
-		gc.Close()
-		gc.BeginPath()
 		t := m.MoveTo(op)
 		gc.MoveTo(float64(t.X)/64, float64(t.Y)/64)
 	case svg.OpLineTo:
@@ -101,6 +99,7 @@ func drawTransformed(gc draw2d.GraphicContext, svgp svg.SvgPath, opt *renderer.R
 		gc.SetLineDash(svgp.Style.Dash.Dash, svgp.Style.Dash.DashOffset)
 	}
 
+	gc.BeginPath()
 	for _, op := range svgp.Path {
 		drawTo(gc, op, m)
 	}
-- 
2.43.0


From 50059e56e5ba62e1c2470143098e1c983e28da75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:10 +0000
Subject: [PATCH 10/27] fix: gg: do not close open subpaths, leak unpainted
 paths or fill with the stroke colour

---
 renderer/gg/draw.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/renderer/gg/draw.go b/renderer/gg/draw.go
index 0b58a09..b1e0bc8 100644
--- a/renderer/gg/draw.go
+++ b/renderer/gg/draw.go
@@ -25,7 +25,6 @@ func Draw(gc *gg.Context, s *svg.Svg, opts ...renderer.RenderOption) error {
 func drawTo(gc *gg.Context, op svg.Operation, m svg.Matrix2D) {
 	switch op := op.(type) {
 	case svg.OpMoveTo:
-		gc.ClosePath()
 		gc.NewSubPath()
 		t := m.MoveTo(op)
 		gc.MoveTo(float64(t.X)/64, float64(t.Y)/64)
@@ -125,15 +124,16 @@ func drawTransformed(gc *gg.Context, s *svg.Svg, svgp svg.SvgPath, m svg.Matrix2
 		gc.SetLineJoin(toLineJoin(svgp.Style.Join.LineJoin))
 		switch c := svgp.Style.LinerColor.(type) {
 		case svg.PlainColor:
-			gc.SetColor(toColor(c, svgp.Style.LineOpacity*opacity))
+			gc.SetStrokeStyle(gg.NewSolidPattern(toColor(c, svgp.Style.LineOpacity*opacity)))
 		case svg.Gradient:
-			gc.SetColor(toColor(svg.GetColor(c), svgp.Style.LineOpacity*opacity))
+			gc.SetStrokeStyle(gg.NewSolidPattern(toColor(svg.GetColor(c), svgp.Style.LineOpacity*opacity)))
 		}
 		gc.SetLineWidth(svgp.Style.LineWidth * m.LineWidthScale())
 		gc.SetDash(svgp.Style.Dash.Dash...)
 		gc.SetDashOffset(svgp.Style.Dash.DashOffset)
 	}
 
+	gc.ClearPath() // the previous path is still there if it was not painted
 	for _, op := range svgp.Path {
 		drawTo(gc, op, m)
 	}
-- 
2.43.0


From 000ca45d371daec9850d5f9432dc0f3bb444dad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:10 +0000
Subject: [PATCH 11/27] fix: rasterx: stroke with the non-zero winding rule

---
 renderer/rasterx/draw.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/renderer/rasterx/draw.go b/renderer/rasterx/draw.go
index 97293ca..9787184 100644
--- a/renderer/rasterx/draw.go
+++ b/renderer/rasterx/draw.go
@@ -154,6 +154,7 @@ func drawTransformed(gc *rasterx.Dasher, svgp svg.SvgPath, opt *renderer.RenderO
 	if svgp.Style.LinerColor != nil {
 		stroker := &gc.Stroker
 		stroker.Clear()
+		stroker.SetWinding(true) // the fill rule applies to the fill only
 		stroker.SetStroke(
 			fixed.Int26_6(svgp.Style.LineWidth*64*m.LineWidthScale()),
 			svgp.Style.Join.MiterLimit,
-- 
2.43.0


From d93f8810f9649494f1a1ca2ae067917594c9c78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:11 +0000
Subject: [PATCH 12/27] fix: gg: do not recurse on masks that use themselves

---
 renderer/gg/draw.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/renderer/gg/draw.go b/renderer/gg/draw.go
index b1e0bc8..9664ae6 100644
--- a/renderer/gg/draw.go
+++ b/renderer/gg/draw.go
@@ -14,7 +14,7 @@ import (
 func Draw(gc *gg.Context, s *svg.Svg, opts ...renderer.RenderOption) error {
 	opt := renderer.Options(s, opts...)
 	for _, svgp := range s.SvgPaths {
-		if err := drawTransformed(gc, s, svgp, opt.Target.Mult(svgp.Style.Transform), opt.Opacity); err != nil {
+		if err := drawTransformed(gc, s, svgp, opt.Target.Mult(svgp.Style.Transform), opt.Opacity, nil); err != nil {
 			return err
 		}
 	}
@@ -88,10 +88,10 @@ func toGradient(g svg.Gradient, opacity float64) gg.Gradient {
 }
 
 // drawTransformed draws the compiled SvgPath into the driver while applying transform t.
-func drawTransformed(gc *gg.Context, s *svg.Svg, svgp svg.SvgPath, m svg.Matrix2D, opacity float64) error {
+func drawTransformed(gc *gg.Context, s *svg.Svg, svgp svg.SvgPath, m svg.Matrix2D, opacity float64, activeMasks []string) error {
 	var mask *image.Alpha
 	if len(svgp.Style.Masks) > 0 {
-		m, err := getMask(s, svgp.Style.Masks, gc.Image().Bounds(), m)
+		m, err := getMask(s, svgp.Style.Masks, gc.Image().Bounds(), m, activeMasks)
 		if err != nil {
 			return err
 		}
@@ -153,9 +153,17 @@ func drawTransformed(gc *gg.Context, s *svg.Svg, svgp svg.SvgPath, m svg.Matrix2
 	return nil
 }
 
-func getMask(s *svg.Svg, masks []string, rectangle image.Rectangle, m svg.Matrix2D) (*image.Alpha, error) {
+func getMask(s *svg.Svg, masks []string, rectangle image.Rectangle, m svg.Matrix2D, activeMasks []string) (*image.Alpha, error) {
+	id := masks[len(masks)-1]
+	for _, active := range activeMasks {
+		if active == id {
+			// Mask is used by its own content, skip it.
+			return nil, nil
+		}
+	}
+	activeMasks = append(activeMasks[:len(activeMasks):len(activeMasks)], id)
 	gc := gg.NewContext(rectangle.Dx(), rectangle.Dy())
-	mask, ok := s.SvgMasks[masks[len(masks)-1]]
+	mask, ok := s.SvgMasks[id]
 	if !ok {
 		// Mask was not found skip it.
 		return nil, nil
@@ -178,7 +186,7 @@ func getMask(s *svg.Svg, masks []string, rectangle image.Rectangle, m svg.Matrix
 	// }
 
 	for _, op := range mask.SvgPaths {
-		if err := drawTransformed(gc, s, op, m, 1); err != nil {
+		if err := drawTransformed(gc, s, op, m, 1, activeMasks); err != nil {
 			return nil, err
 		}
 	}
-- 
2.43.0


From 7a7ad296f3c16069d648d3ca24e40df962d19dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:12 +0000
Subject: [PATCH 13/27] fix: limit opacities to [0, 1], accept percentages

---
 parse.go        |  2 +-
 svg_elements.go |  2 +-
 units.go        | 11 +++++++++++
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/parse.go b/parse.go
index 3790867..0f87d01 100644
--- a/parse.go
+++ b/parse.go
@@ -274,7 +274,7 @@ func (c *svgCursor) readStyleAttr(curStyle *PathStyle, k, v string) error {
 			break
 		}
 	case "opacity", "stroke-opacity", "fill-opacity":
-		op, err := parseBasicFloat(v)
+		op, err := readOpacity(v)
 		if err != nil {
 			return err
 		}
diff --git a/svg_elements.go b/svg_elements.go
index 12a9919..738d29e 100644
--- a/svg_elements.go
+++ b/svg_elements.go
@@ -429,7 +429,7 @@ func stopF(c *svgCursor, attrs []xml.Attr) error {
 				optColor, err = parseSVGColor(attr.Value)
 				stop.StopColor = optColor.asColor()
 			case "stop-opacity":
-				stop.Opacity, err = parseBasicFloat(attr.Value)
+				stop.Opacity, err = readOpacity(attr.Value)
 			}
 			if err != nil {
 				return err
diff --git a/units.go b/units.go
index a3d1cbd..fad3099 100644
--- a/units.go
+++ b/units.go
@@ -105,3 +105,14 @@ func readFraction(v string) (f float64, err error) {
 	// }
 	return
 }
+
+// readOpacity reads an opacity, a number or a percentage limited to the range [0, 1]
+func readOpacity(v string) (float64, error) {
+	f, err := readFraction(v)
+	if f > 1 {
+		f = 1
+	} else if f < 0 {
+		f = 0
+	}
+	return f, err
+}
-- 
2.43.0


From 2d90df9996ae56f79a62b54221efaf68b44c96f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:13 +0000
Subject: [PATCH 14/27] fix: start a new subpath for segments after a closepath

---
 parse_path.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/parse_path.go b/parse_path.go
index d76f01b..681f67a 100644
--- a/parse_path.go
+++ b/parse_path.go
@@ -193,6 +193,15 @@ func (c *pathCursor) addSeg(segString string) error {
 	l := len(c.points)
 	k := segString[0]
 	rel := false
+	if !c.inPath && len(c.path) > 0 {
+		switch k {
+		case 'z', 'Z', 'm', 'M':
+		case 'l', 'L', 'v', 'V', 'h', 'H', 'q', 'Q', 't', 'T', 'c', 'C', 's', 'S', 'a', 'A':
+			// a segment after a closed subpath starts a new one at the same point
+			c.inPath = true
+			c.path.Start(toFixedP(c.placeX+c.curX, c.placeY+c.curY))
+		}
+	}
 	switch k {
 	case 'z':
 		fallthrough
-- 
2.43.0


From 84105ad9c0c43f26f98f1fc21ef10c0a5d9ecd26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:14 +0000
Subject: [PATCH 15/27] fix: do not draw shapes with negative dimensions

---
 svg_elements.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/svg_elements.go b/svg_elements.go
index 738d29e..f921ac7 100644
--- a/svg_elements.go
+++ b/svg_elements.go
@@ -95,7 +95,7 @@ func rectF(c *svgCursor, attrs []xml.Attr) error {
 			return err
 		}
 	}
-	if w == 0 || h == 0 {
+	if w <= 0 || h <= 0 { // not drawn, but not an error
 		return nil
 	}
 	// If only one of rx or ry is specified, the other should be same
@@ -168,7 +168,7 @@ func circleF(c *svgCursor, attrs []xml.Attr) error {
 			return err
 		}
 	}
-	if rx == 0 || ry == 0 { // not drawn, but not an error
+	if rx <= 0 || ry <= 0 { // not drawn, but not an error
 		return nil
 	}
 	c.ellipseAt(cx+c.curX, cy+c.curY, rx, ry)
-- 
2.43.0


From ab4d90a28690bde0684f23dbdbd0f36922f9da2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:15 +0000
Subject: [PATCH 16/27] fix: radial gradients have a focal radius of zero by
 default

---
 svg_elements.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svg_elements.go b/svg_elements.go
index f921ac7..7bac16d 100644
--- a/svg_elements.go
+++ b/svg_elements.go
@@ -336,7 +336,7 @@ func radialGradientF(c *svgCursor, attrs []xml.Attr) error {
 	c.grad = &Gradient{Bounds: c.svg.ViewBox, Matrix: Identity}
 	var setFx, setFy bool
 	var err error
-	directionStrings := [6]string{"50%", "50%", "50%", "50%", "50%", "50%"} // default values
+	directionStrings := [6]string{"50%", "50%", "50%", "50%", "50%", "0%"} // default values
 	for _, attr := range attrs {
 		switch attr.Name.Local {
 		case "id":
-- 
2.43.0


From 3f4ac03e858a2cd41ca1d49e1fa49eaf17c875ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:16 +0000
Subject: [PATCH 17/27] fix: accept upper case exponents and explicit exponent
 signs

---
 parse_path.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parse_path.go b/parse_path.go
index 681f67a..0c89238 100644
--- a/parse_path.go
+++ b/parse_path.go
@@ -57,7 +57,7 @@ func (c *pathCursor) compilePath(svgPath string) error {
 	c.init()
 	lastIndex := -1
 	for i, v := range svgPath {
-		if unicode.IsLetter(v) && v != 'e' {
+		if unicode.IsLetter(v) && v != 'e' && v != 'E' {
 			if lastIndex != -1 {
 				if err := c.addSeg(svgPath[lastIndex:i]); err != nil {
 					return err
@@ -141,7 +141,7 @@ func (c *pathCursor) getPoints(dataPoints string) error {
 	c.points = c.points[0:0]
 	lr := ' '
 	for i, r := range dataPoints {
-		if !unicode.IsNumber(r) && r != '.' && !(r == '-' && lr == 'e') && r != 'e' {
+		if !unicode.IsNumber(r) && r != '.' && !((r == '-' || r == '+') && (lr == 'e' || lr == 'E')) && r != 'e' && r != 'E' {
 			if lastIndex != -1 {
 				if err := c.readFloat(dataPoints[lastIndex:i]); err != nil {
 					return err
-- 
2.43.0


From 0d434e93ac3701d2d7b0e1c05ca9136ef08aa4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:17 +0000
Subject: [PATCH 18/27] fix: stroke-dasharray none removes an inherited dash
 pattern

---
 parse.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parse.go b/parse.go
index 0f87d01..1740d6b 100644
--- a/parse.go
+++ b/parse.go
@@ -273,6 +273,7 @@ func (c *svgCursor) readStyleAttr(curStyle *PathStyle, k, v string) error {
 			curStyle.Dash.Dash = dList
 			break
 		}
+		curStyle.Dash.Dash = nil
 	case "opacity", "stroke-opacity", "fill-opacity":
 		op, err := readOpacity(v)
 		if err != nil {
-- 
2.43.0


From 9d6d3481cb5ec407b51154f9a4c32845b98d7cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:18 +0000
Subject: [PATCH 19/27] fix: nested svg elements do not reset the document
 viewBox

---
 svg_elements.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/svg_elements.go b/svg_elements.go
index 7bac16d..885b1d9 100644
--- a/svg_elements.go
+++ b/svg_elements.go
@@ -36,6 +36,9 @@ var drawFuncs = map[string]svgFunc{
 }
 
 func svgF(c *svgCursor, attrs []xml.Attr) error {
+	if len(c.styleStack) > 2 {
+		return nil // only the outermost element sets the size of the document
+	}
 	c.svg.ViewBox.X = 0
 	c.svg.ViewBox.Y = 0
 	c.svg.ViewBox.W = 0
-- 
2.43.0


From 9822cc6297bc7a7bb3ef9ee8c2b81576c01f54b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:19 +0000
Subject: [PATCH 20/27] fix: the style attribute takes precedence over
 presentation attributes

---
 parse.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parse.go b/parse.go
index 1740d6b..46e0b3a 100644
--- a/parse.go
+++ b/parse.go
@@ -306,15 +306,17 @@ func (c *svgCursor) readStyleAttr(curStyle *PathStyle, k, v string) error {
 // for fill. Note that this parses both the contents of a style attribute plus
 // direct fill and opacity attributes.
 func (c *svgCursor) pushStyle(attrs []xml.Attr) error {
-	var pairs []string
+	var pairs, stylePairs []string
 	for _, attr := range attrs {
 		switch strings.ToLower(attr.Name.Local) {
 		case "style":
-			pairs = append(pairs, strings.Split(attr.Value, ";")...)
+			stylePairs = append(stylePairs, strings.Split(attr.Value, ";")...)
 		default:
 			pairs = append(pairs, attr.Name.Local+":"+attr.Value)
 		}
 	}
+	// The style attribute overrides the presentation attributes
+	pairs = append(pairs, stylePairs...)
 	// Make a copy of the top style
 	curStyle := c.styleStack[len(c.styleStack)-1]
 	for _, pair := range pairs {
-- 
2.43.0


From 0962775dc290c1f11e08dc10fe218d56ae7949d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:32 +0000
Subject: [PATCH 21/27] fix: instantiate definitions element by element with
 their own style, without unbalancing the style stack or recursing forever

---
 parse.go        | 47 +++++++++++++++++++++++++++++++++++++++++++----
 svg.go          | 29 +----------------------------
 svg_elements.go | 32 +++++++++++++++-----------------
 3 files changed, 59 insertions(+), 49 deletions(-)

diff --git a/parse.go b/parse.go
index 46e0b3a..f7ab69f 100644
--- a/parse.go
+++ b/parse.go
@@ -20,6 +20,8 @@ type (
 		grad                                            *Gradient
 		inTitleText, inDescText, inGrad, inDefs, inMask bool
 		currentDef                                      []definition
+		openDefs                                        []int    // start in currentDef of the open elements, -1 if not recorded
+		activeUses                                      []string // ids of the definitions being instantiated
 		mask                                            *SvgMask
 	}
 
@@ -27,6 +29,7 @@ type (
 	definition struct {
 		ID, Tag string
 		Attrs   []xml.Attr
+		end     bool // end of the element
 	}
 )
 
@@ -348,6 +351,9 @@ func (c *svgCursor) readStartElement(se xml.StartElement) (err error) {
 	if se.Name.Local == "radialGradient" || se.Name.Local == "linearGradient" || c.inGrad {
 		skipDef = true
 	}
+	if c.inDefs && skipDef {
+		c.openDefs = append(c.openDefs, -1)
+	}
 	if c.inDefs && !skipDef {
 		ID := ""
 		for _, attr := range se.Attr {
@@ -355,10 +361,7 @@ func (c *svgCursor) readStartElement(se xml.StartElement) (err error) {
 				ID = attr.Value
 			}
 		}
-		if ID != "" && len(c.currentDef) > 0 {
-			c.svg.defs[c.currentDef[0].ID] = c.currentDef
-			c.currentDef = make([]definition, 0)
-		}
+		c.openDefs = append(c.openDefs, len(c.currentDef))
 		c.currentDef = append(c.currentDef, definition{
 			ID:    ID,
 			Tag:   se.Name.Local,
@@ -392,3 +395,39 @@ func (c *svgCursor) readStartElement(se xml.StartElement) (err error) {
 	}
 	return
 }
+
+func (c *svgCursor) readEndElement(tag string) {
+	// pop style
+	c.styleStack = c.styleStack[:len(c.styleStack)-1]
+	if c.inDefs && len(c.openDefs) > 0 {
+		start := c.openDefs[len(c.openDefs)-1]
+		c.openDefs = c.openDefs[:len(c.openDefs)-1]
+		if start >= 0 {
+			c.currentDef = append(c.currentDef, definition{Tag: tag, end: true})
+			if id := c.currentDef[start].ID; id != "" {
+				c.svg.defs[id] = append([]definition{}, c.currentDef[start:]...)
+			}
+			return
+		}
+		if tag == "defs" {
+			return // nested in a gradient: the outer element is still open
+		}
+	}
+	switch tag {
+	case "mask":
+		if c.mask != nil {
+			c.svg.SvgMasks[c.mask.ID] = c.mask
+			c.mask = nil
+		}
+		c.inMask = false
+	case "title":
+		c.inTitleText = false
+	case "desc":
+		c.inDescText = false
+	case "defs":
+		c.currentDef = make([]definition, 0)
+		c.inDefs = false
+	case "radialGradient", "linearGradient":
+		c.inGrad = false
+	}
+}
diff --git a/svg.go b/svg.go
index 81bd73d..82ace86 100644
--- a/svg.go
+++ b/svg.go
@@ -95,34 +95,7 @@ func Parse(stream io.Reader, errMode ErrorMode) (*Svg, error) {
 				return svg, err
 			}
 		case xml.EndElement:
-			// pop style
-			svgCursor.styleStack = svgCursor.styleStack[:len(svgCursor.styleStack)-1]
-			switch se.Name.Local {
-			case "g":
-				if svgCursor.inDefs {
-					svgCursor.currentDef = append(svgCursor.currentDef, definition{
-						Tag: "endg",
-					})
-				}
-			case "mask":
-				if svgCursor.mask != nil {
-					svgCursor.svg.SvgMasks[svgCursor.mask.ID] = svgCursor.mask
-					svgCursor.mask = nil
-				}
-				svgCursor.inMask = false
-			case "title":
-				svgCursor.inTitleText = false
-			case "desc":
-				svgCursor.inDescText = false
-			case "defs":
-				if len(svgCursor.currentDef) > 0 {
-					svgCursor.svg.defs[svgCursor.currentDef[0].ID] = svgCursor.currentDef
-					svgCursor.currentDef = make([]definition, 0)
-				}
-				svgCursor.inDefs = false
-			case "radialGradient", "linearGradient":
-				svgCursor.inGrad = false
-			}
+			svgCursor.readEndElement(se.Name.Local)
 		case xml.CharData:
 			if svgCursor.inTitleText {
 				svg.Titles[len(svg.Titles)-1] += string(se)
diff --git a/svg_elements.go b/svg_elements.go
index 885b1d9..6544e0f 100644
--- a/svg_elements.go
+++ b/svg_elements.go
@@ -462,10 +462,6 @@ func useF(c *svgCursor, attrs []xml.Attr) error {
 			return err
 		}
 	}
-	c.curX, c.curY = x, y
-	defer func() {
-		c.curX, c.curY = 0, 0
-	}()
 	if href == "" {
 		return errors.New("only use tags with href is supported")
 	}
@@ -476,27 +472,29 @@ func useF(c *svgCursor, attrs []xml.Attr) error {
 	if !ok {
 		return errors.New("href ID in use statement was not found in saved defs")
 	}
+	for _, id := range c.activeUses {
+		if id == href[1:] {
+			return errors.New("use statement refers to itself")
+		}
+	}
+	c.activeUses = append(c.activeUses, href[1:])
+	defer func() {
+		c.activeUses = c.activeUses[:len(c.activeUses)-1]
+	}()
+	// the instance is moved to x, y
+	top := &c.styleStack[len(c.styleStack)-1]
+	top.Transform = top.Transform.Translate(x, y)
 	for _, def := range defs {
-		if def.Tag == "endg" {
-			// pop style
-			c.styleStack = c.styleStack[:len(c.styleStack)-1]
+		if def.end {
+			c.readEndElement(def.Tag)
 			continue
 		}
 		if err = c.pushStyle(def.Attrs); err != nil {
 			return err
 		}
-		df, ok := drawFuncs[def.Tag]
-		if !ok {
-			errStr := "Cannot process svg element " + def.Tag
-			return c.handleError(errStr)
-		}
-		if err := df(c, def.Attrs); err != nil {
+		if err = c.readStartElement(xml.StartElement{Name: xml.Name{Local: def.Tag}, Attr: def.Attrs}); err != nil {
 			return err
 		}
-		if def.Tag != "g" {
-			// pop style
-			c.styleStack = c.styleStack[:len(c.styleStack)-1]
-		}
 	}
 	return nil
 }
-- 
2.43.0


From 654ab13440306342f5b8a62323f0aea7f308ba74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:32 +0000
Subject: [PATCH 22/27] fix: read masks defined inside defs

---
 parse.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parse.go b/parse.go
index f7ab69f..95a6c3b 100644
--- a/parse.go
+++ b/parse.go
@@ -348,7 +348,8 @@ func splitOnCommaOrSpace(s string) []string {
 
 func (c *svgCursor) readStartElement(se xml.StartElement) (err error) {
 	var skipDef bool
-	if se.Name.Local == "radialGradient" || se.Name.Local == "linearGradient" || c.inGrad {
+	if se.Name.Local == "radialGradient" || se.Name.Local == "linearGradient" || c.inGrad ||
+		se.Name.Local == "mask" || c.inMask {
 		skipDef = true
 	}
 	if c.inDefs && skipDef {
@@ -410,7 +411,7 @@ func (c *svgCursor) readEndElement(tag string) {
 			return
 		}
 		if tag == "defs" {
-			return // nested in a gradient: the outer element is still open
+			return // nested in a gradient or mask: the outer element is still open
 		}
 	}
 	switch tag {
-- 
2.43.0


From c2d2cafbcd7e697cb0344022eb040915798d63ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:06:23 +0000
Subject: [PATCH 23/27] fix: stroke-width percentages refer to the normalised
 diagonal of the viewBox

---
 parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index 95a6c3b..d4150ae 100644
--- a/parse.go
+++ b/parse.go
@@ -251,7 +251,7 @@ func (c *svgCursor) readStyleAttr(curStyle *PathStyle, k, v string) error {
 		}
 		curStyle.Join.MiterLimit = fToFixed(mLimit)
 	case "stroke-width":
-		width, err := c.parseUnit(v, widthPercentage)
+		width, err := c.parseUnit(v, diagPercentage)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 22495b56e41b940bee2b5abba52308bf25d12820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:06:24 +0000
Subject: [PATCH 24/27] fix: a skipped path command does not change how the
 next smooth segment is read

---
 parse_path.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parse_path.go b/parse_path.go
index 0c89238..98a0f03 100644
--- a/parse_path.go
+++ b/parse_path.go
@@ -385,6 +385,7 @@ func (c *pathCursor) addSeg(segString string) error {
 		if c.errorMode == WarnErrorMode {
 			log.Println("Ignoring svg command " + string(k))
 		}
+		return nil // a skipped command is not the previous command of the next one
 	}
 	// So we know how to extend some segment types
 	c.lastKey = k
-- 
2.43.0


From 3fbe756e3a5d8e866f26bd9eb01e000e1f020111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:05 +0000
Subject: [PATCH 25/27] fix: a path without moveto continued from the previous
 path element

init left the start point of the last subpath of the previous path element,
which closepath then returned to.
---
 parse_path.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parse_path.go b/parse_path.go
index 98a0f03..0ad1caa 100644
--- a/parse_path.go
+++ b/parse_path.go
@@ -45,6 +45,8 @@ type pathCursor struct {
 func (c *pathCursor) init() {
 	c.placeX = 0.0
 	c.placeY = 0.0
+	c.cntlPtX, c.cntlPtY = 0.0, 0.0
+	c.pathStartX, c.pathStartY = 0.0, 0.0
 	c.points = c.points[0:0]
 	c.lastKey = ' '
 	c.path.Clear()
-- 
2.43.0


From 3a5bd8988aa5acc9179ce0195982c533f2945b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:17:23 +0000
Subject: [PATCH 26/27] fix: masks and definitions nested in masks are
 collected separately

---
 parse.go        | 60 ++++++++++++++++++++++++++++++-------------------
 svg_elements.go |  7 +++---
 2 files changed, 40 insertions(+), 27 deletions(-)

diff --git a/parse.go b/parse.go
index d4150ae..cdff64f 100644
--- a/parse.go
+++ b/parse.go
@@ -15,14 +15,21 @@ type (
 	// svgCursor is used while parsing SVG files
 	svgCursor struct {
 		pathCursor
-		svg                                             *Svg
-		styleStack                                      []PathStyle
-		grad                                            *Gradient
-		inTitleText, inDescText, inGrad, inDefs, inMask bool
-		currentDef                                      []definition
-		openDefs                                        []int    // start in currentDef of the open elements, -1 if not recorded
-		activeUses                                      []string // ids of the definitions being instantiated
-		mask                                            *SvgMask
+		section
+		svg                             *Svg
+		styleStack                      []PathStyle
+		grad                            *Gradient
+		inTitleText, inDescText, inGrad bool
+		activeUses                      []string  // ids of the definitions being instantiated
+		outer                           []section // what the current section is nested in
+	}
+
+	// section is what the innermost open defs or mask element collects
+	section struct {
+		inDefs, inMask bool
+		currentDef     []definition
+		openDefs       []int // start in currentDef of the open elements, -1 if not recorded
+		mask           *SvgMask
 	}
 
 	// definition is used to store what's given in a def tag
@@ -349,7 +356,7 @@ func splitOnCommaOrSpace(s string) []string {
 func (c *svgCursor) readStartElement(se xml.StartElement) (err error) {
 	var skipDef bool
 	if se.Name.Local == "radialGradient" || se.Name.Local == "linearGradient" || c.inGrad ||
-		se.Name.Local == "mask" || c.inMask {
+		se.Name.Local == "mask" {
 		skipDef = true
 	}
 	if c.inDefs && skipDef {
@@ -385,10 +392,10 @@ func (c *svgCursor) readStartElement(se xml.StartElement) (err error) {
 	if len(c.path) > 0 {
 		// The svgCursor parsed a path from the xml element
 		pathCopy := append(Path{}, c.path...)
-		if c.inMask && c.mask != nil {
+		if c.inMask {
 			c.mask.SvgPaths = append(c.mask.SvgPaths,
 				SvgPath{Path: pathCopy, Style: c.styleStack[len(c.styleStack)-1]})
-		} else if !c.inMask {
+		} else {
 			c.svg.SvgPaths = append(c.svg.SvgPaths,
 				SvgPath{Path: pathCopy, Style: c.styleStack[len(c.styleStack)-1]})
 		}
@@ -400,6 +407,13 @@ func (c *svgCursor) readStartElement(se xml.StartElement) (err error) {
 func (c *svgCursor) readEndElement(tag string) {
 	// pop style
 	c.styleStack = c.styleStack[:len(c.styleStack)-1]
+	switch {
+	case tag == "mask" && c.inMask:
+		c.svg.SvgMasks[c.mask.ID] = c.mask
+		c.leave()
+	case tag == "defs" && c.inDefs && len(c.openDefs) == 0:
+		c.leave()
+	}
 	if c.inDefs && len(c.openDefs) > 0 {
 		start := c.openDefs[len(c.openDefs)-1]
 		c.openDefs = c.openDefs[:len(c.openDefs)-1]
@@ -410,25 +424,25 @@ func (c *svgCursor) readEndElement(tag string) {
 			}
 			return
 		}
-		if tag == "defs" {
-			return // nested in a gradient or mask: the outer element is still open
-		}
 	}
 	switch tag {
-	case "mask":
-		if c.mask != nil {
-			c.svg.SvgMasks[c.mask.ID] = c.mask
-			c.mask = nil
-		}
-		c.inMask = false
 	case "title":
 		c.inTitleText = false
 	case "desc":
 		c.inDescText = false
-	case "defs":
-		c.currentDef = make([]definition, 0)
-		c.inDefs = false
 	case "radialGradient", "linearGradient":
 		c.inGrad = false
 	}
 }
+
+// enter starts to collect in s until the matching leave
+func (c *svgCursor) enter(s section) {
+	c.outer = append(c.outer, c.section)
+	c.section = s
+}
+
+// leave continues with the enclosing section
+func (c *svgCursor) leave() {
+	c.section = c.outer[len(c.outer)-1]
+	c.outer = c.outer[:len(c.outer)-1]
+}
diff --git a/svg_elements.go b/svg_elements.go
index 6544e0f..6370232 100644
--- a/svg_elements.go
+++ b/svg_elements.go
@@ -137,8 +137,7 @@ func maskF(c *svgCursor, attrs []xml.Attr) error {
 		}
 	}
 
-	c.inMask = true
-	c.mask = &SvgMask{
+	c.enter(section{inMask: true, mask: &SvgMask{
 		ID:        id,
 		X:         x,
 		Y:         y,
@@ -146,7 +145,7 @@ func maskF(c *svgCursor, attrs []xml.Attr) error {
 		H:         h,
 		SvgPaths:  make([]SvgPath, 0),
 		Transform: Identity,
-	}
+	}})
 	return nil
 }
 
@@ -272,7 +271,7 @@ func titleF(c *svgCursor, attrs []xml.Attr) error {
 }
 
 func defsF(c *svgCursor, attrs []xml.Attr) error {
-	c.inDefs = true
+	c.enter(section{inDefs: true})
 	return nil
 }
 
-- 
2.43.0


From 00f403db553fdb3dd00038dd8032e4627a610471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:17:25 +0000
Subject: [PATCH 27/27] fix: using a definition does not add empty titles and
 descriptions

---
 svg_elements.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/svg_elements.go b/svg_elements.go
index 6370232..175f325 100644
--- a/svg_elements.go
+++ b/svg_elements.go
@@ -259,12 +259,18 @@ func pathF(c *svgCursor, attrs []xml.Attr) error {
 }
 
 func descF(c *svgCursor, attrs []xml.Attr) error {
+	if len(c.activeUses) > 0 {
+		return nil // an instance of a definition has no text
+	}
 	c.inDescText = true
 	c.svg.Descriptions = append(c.svg.Descriptions, "")
 	return nil
 }
 
 func titleF(c *svgCursor, attrs []xml.Attr) error {
+	if len(c.activeUses) > 0 {
+		return nil // an instance of a definition has no text
+	}
 	c.inTitleText = true
 	c.svg.Titles = append(c.svg.Titles, "")
 	return nil
-- 
2.43.0

