------------------------------- MODULE FrustumGen -------------------------------
(* Pseudo-random frusta: two parallel rectangles, placed; points and spheres in relation to them. *)
EXTENDS RotGen, GenLoop

Ext == Pick(<<N("0.5"), N(1), N(2), N(3), N("0.1"), Abs(GGen) ++ N("0.01")>>)
Rect(x, y, hx, hy, z) == << <<x ++ hx, y ++ hy, z>>, <<x ++ hx, y -- hy, z>>, <<x -- hx, y -- hy, z>>, <<x -- hx, y ++ hy, z>> >>
\* perspective, parallel, oblique, pyramid, tapering
Corners == LET c == Rnd(1, 6) n == Ext d == Ext z == Neg(n) zf == Neg(n ++ d) hx == Ext hy == Ext k == (n ++ d) // n x == GGrid y == GGrid IN
  CASE c <= 2 -> Rect(Zero, Zero, hx, hy, z) \o Rect(Zero, Zero, hx ** k, hy ** k, zf)
    [] c = 3 -> Rect(Zero, Zero, hx, hy, z) \o Rect(Zero, Zero, hx, hy, zf)
    [] c = 4 -> Rect(x, y, hx, hy, z) \o Rect(x ** k, y ** k, hx ** k, hy ** k, zf)
    [] c = 5 -> Rect(Zero, Zero, Zero, Zero, Zero) \o Rect(Zero, Zero, hx, hy, zf)
    [] c = 6 -> Rect(Zero, y, hx, hy, z) \o Rect(x, Zero, Ext, Ext, zf)
RotCols == LET q == NZ4(GQuat) IN QMat(Normalized(q))
Perm == Pick(<< << <<0, 1, 0>>, <<-1, 0, 0>>, <<0, 0, 1>> >>, << <<0, 0, 1>>, <<1, 0, 0>>, <<0, 1, 0>> >>, << <<-1, 0, 0>>, <<0, 1, 0>>, <<0, 0, -1>> >>, << <<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>> >> >>)
PermCols == LET p == Perm IN Force([j \in 1..3 |-> [i \in 1..3 |-> N(p[j][i])]])
Shear == LET v == GVecOf(3, 2) IN << <<One, Zero, Zero>>, <<v[1], N(2), Zero>>, <<v[2], v[3], One>> >>
Cols == LET c == Rnd(1, 6) IN IF c <= 3 THEN RotCols ELSE IF c = 4 THEN PermCols ELSE IF c = 5 THEN MScaleK(RotCols, GPos) ELSE Shear
Place == LET c == Rnd(1, 3) IN IF c = 1 THEN VZero(3) ELSE GVecOf(3, 2)
\* a point of the hull, or of its faces' planes
Frac == Pick(<<N(0), N(1), N("0.5"), N("0.25"), N("0.75"), GUnit01>>)
FracOut == Pick(<<Frac, Frac, Frac, N("1.25"), N("-0.5"), N(3), N("1.001"), N("-0.001")>>)
At(c, u, v, w) == LET top == VLerp(VLerp(c[4], c[1], u), VLerp(c[8], c[5], u), w) bot == VLerp(VLerp(c[3], c[2], u), VLerp(c[7], c[6], u), w) IN VLerp(bot, top, v)
GQ(c) == LET k == Rnd(1, 3) IN IF k = 1 THEN At(c, Frac, Frac, Frac) ELSE IF k = 2 THEN At(c, FracOut, FracOut, FracOut) ELSE VAdd(c[Rnd(1, 8)], GVecOf(3, 2))
\* spheres that almost touch, or are almost covered by, a face
FaceOf == Pick(<< <<5, 6, 7>>, <<4, 8, 7>>, <<4, 5, 8>>, <<2, 6, 5>>, <<2, 7, 6>> >>)
Nearly == Pick(<<N("1.000001"), N("0.999999"), N("1.0000000001"), N("0.9999999999"), N(1)>>)
GRad(p, q) == LET f == FaceOf n == Cross(VSub(p[f[2]], p[f[1]]), VSub(p[f[3]], p[f[1]])) c == Rnd(1, 7) IN
  CASE c = 1 -> Zero [] c = 2 -> Pick(<<N("0.5"), N(1), N("0.1")>>) [] c = 3 -> Abs(GGrid) [] c = 4 -> Length(VSub(q, p[Rnd(1, 8)])) ** N("0.99")
    [] OTHER -> IF IsZeroV(n) THEN One ELSE Abs(Dot(Normalized(n), VSub(q, p[f[1]]))) ** Nearly
\* spheres of all sizes about points over, on or under a point of a face: touching it, covered by it, or not
Size == Pick(<<N(4), N(1), N("0.25"), N("1/64"), N("1/1024"), N("1/65536"), N(16), Abs(GGen)>>)
Beside == Pick(<<N("0.999"), N("1.001"), N("0.5"), N("0.75"), N("0.9"), N("1.1"), N("-0.5"), N("-0.9"), N("-0.999"), N("-1.001"), N("-1.1"), N("-2"), N(2)>>)
Over(p) == LET f == FaceOf n == Cross(VSub(p[f[2]], p[f[1]]), VSub(p[f[3]], p[f[1]])) r == Size b == VLerp(VLerp(p[f[1]], p[f[2]], GUnit01), p[f[3]], GUnit01)
           IN  IF IsZeroV(n) THEN <<p[1], One>> ELSE <<VAdd(b, VScale(Normalized(n), r ** Beside)), r>>
Ask(form) == LET c0 == Corners k == FarOf(Flat(c0), Exp2(N(Pick(<<-24, -18, 16, 20>>)))) c == Force([i \in 1..8 |-> VScale(c0[i], k)]) m == Cols t == VScale(Place, k)
                 p == IF form = 0 THEN c ELSE Force([i \in 1..8 |-> VAdd(MVec(m, c[i]), t)])
             IN  IF Rnd(1, 3) = 1 THEN LET o == Over(p) IN <<form, c, m, t>> \o o
                 ELSE LET q == GQ(p) IN <<form, c, m, t, q, GRad(p, q)>>
FrustumCase(op) ==
  CASE op = "fr.ask" -> <<op, Ty>> \o Ask(Rnd(0, 3))
================================================================================
