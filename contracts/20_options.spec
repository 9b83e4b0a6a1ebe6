// Render options (C18).

spec targetMap(vb svg.Bounds, x, y, w, h float64) Matrix2D =
  Matrix2D{A: w/vb.W, B: 0, C: 0, D: h/vb.H, E: x - vb.X*(w/vb.W), F: y - vb.Y*(h/vb.H)}

func renderer.Opacity.apply(o, s, r)
  modifies *r
  ensures [C18 opacity as given] r.Opacity == float64(o)
  ensures [C18 target kept] r.Target == old(r.Target)

func renderer.targetOption.apply(o, s, r)
  modifies *r
  ensures [C18 target transform] r.Target == targetMap(s.ViewBox, o.X, o.Y, o.W, o.H)
  ensures [C18 opacity kept] r.Opacity == old(r.Opacity)

func renderer.Target(x, y, w, h) (o)
  ensures [C18 target option] is(o, renderer.targetOption) && as(o, renderer.targetOption) == renderer.targetOption{X: x, Y: y, W: w, H: h}

// the corners of the viewBox go to the corners of the rectangle
lemma [C18 corners] targetCorners(vb svg.Bounds, x, y, w, h float64)
  requires vb.W > 0 && vb.H > 0
  ensures mx(targetMap(vb, x, y, w, h), vb.X, vb.Y) == x
  ensures my(targetMap(vb, x, y, w, h), vb.X, vb.Y) == y
  ensures mx(targetMap(vb, x, y, w, h), vb.X + vb.W, vb.Y) == x + w
  ensures my(targetMap(vb, x, y, w, h), vb.X, vb.Y + vb.H) == y + h
  ensures mx(targetMap(vb, x, y, w, h), vb.X + vb.W, vb.Y + vb.H) == x + w
  ensures my(targetMap(vb, x, y, w, h), vb.X + vb.W, vb.Y + vb.H) == y + h

rec optsOpacity(opts []renderer.RenderOption, n int) float64 =
  ite(n <= 0, 1, ite(is(opts[n-1], renderer.Opacity), float64(as(opts[n-1], renderer.Opacity)), optsOpacity(opts, n-1)))
rec optsTarget(vb svg.Bounds, opts []renderer.RenderOption, n int) Matrix2D =
  ite(n <= 0, midentity(), ite(is(opts[n-1], renderer.targetOption), targetMap(vb, as(opts[n-1], renderer.targetOption).X, as(opts[n-1], renderer.targetOption).Y, as(opts[n-1], renderer.targetOption).W, as(opts[n-1], renderer.targetOption).H), optsTarget(vb, opts, n-1)))

func renderer.Options(s, opts) (r)
  newresult
  requires forall(i, 0, len(opts), opts[i] != nil)
  ensures [C18 later options win] r.Opacity == optsOpacity(opts, len(opts))
  ensures [C18 later targets win] r.Target == optsTarget(s.ViewBox, opts, len(opts))
  invariant V_r == optsOpacity(opts, K)
  invariant V_r == optsTarget(s.ViewBox, opts, K)
