--------------------------------- MODULE GeomGen ---------------------------------
(* Pseudo-random planes, segments, rays and triangles within the contract Geom. *)
EXTENDS RotGen, GenLoop

Coord3 == Pick(<<N(1), N(-1)>>)
Pyth == Pick(<<<<N(3), N(4), N(0)>>, <<N(0), N(-3), N(4)>>, <<N(2), N(-1), N(2)>>, <<N(2), N(3), N(6)>>>>)
GNormal == LET c == Rnd(1, 5) IN IF c <= 2 THEN VScale(Unit(3, Rnd(1, 3)), Coord3) ELSE IF c = 3 THEN Pyth ELSE GNZ(3)
GPlane == <<GNormal, IF Rnd(1, 2) = 1 THEN GGrid ELSE GNum>>
\* a point at the given signed distance of the plane <<n, d>>
GAway(pl, t) == LET n == pl[1] u == Normalized(n) w == GVec(3) x == VSub(w, VScale(u, Dot(u, w))) IN VAdd(x, VScale(u, pl[2] ++ t))
GPointAt(pl) == LET c == Rnd(1, 6) IN
  CASE c <= 2 -> GVecOf(3, 2) [] c = 3 -> GVec(3) [] c = 4 -> GAway(pl, Zero) [] c = 5 -> GAway(pl, GNum) [] c = 6 -> GAway(pl, GGrid)
\* a direction with some relation to the normal
GDirOf(pl) == LET c == Rnd(1, 6) x == GNZ(3) y == Cross(pl[1], x) IN
  CASE c = 1 -> pl[1] [] c = 2 -> VNeg(pl[1]) [] c = 3 -> (IF IsZeroV(y) THEN x ELSE y) [] c = 4 -> VAdd(y, VScale(pl[1], Tiny)) [] c = 5 -> VScale(Unit(3, Rnd(1, 3)), Coord3) [] c = 6 -> x
GTol == Pick(<<Zero, N("0.25"), N(1), N("1e-3"), N(4)>>)
PlNames == <<"raw", "nd", "pn", "abc", "tan", "off", "move", "move", "flip">>
RECURSIVE GPlHist(_)
GPlHist(k) == IF k = 0 THEN <<>> ELSE LET w == Pick(PlNames) IN
  <<w>> \o (CASE w \in {"raw", "nd"} -> <<GNormal, GNum>>
              [] w = "pn" -> <<GVec(3), GNormal>>
              [] w = "abc" -> LET a == GVec(3) IN <<a, VAdd(a, GNZ(3)), VAdd(a, GNZ(3))>>
              [] w = "tan" -> <<GVec(3), GNZ(3), GNZ(3)>>
              [] w \in {"off", "move"} -> <<GNum>>
              [] w = "flip" -> <<>>) \o <<GVec(3), GTol>> \o GPlHist(k - 1)
\* a plane in some relation to two others: parallel to one, through their common line, nearly so
GThird(a, b) == LET c == Rnd(1, 6) IN
  CASE c = 1 -> <<a[1], GNum>> [] c = 2 -> <<VNeg(b[1]), GNum>>
    [] c = 3 -> <<NZ3(VAdd(a[1], b[1])), GNum>>
    [] c = 4 -> <<NZ3(VAdd(VAdd(a[1], b[1]), VScale(GNZ(3), Tiny))), GNum>>
    [] OTHER -> GPlane
Segment(pl) == LET c == Rnd(1, 5) s == IF c = 5 THEN GAway(pl, N(Rnd(-60, 60))) ELSE GPointAt(pl) IN <<s, IF c = 5 THEN GAway(pl, IF Rnd(1, 2) = 1 THEN Zero ELSE GGrid) ELSE IF c = 1 THEN VAdd(s, GDirOf(pl)) ELSE IF c = 2 THEN VSub(VScale(GAway(pl, Zero), 2), s) ELSE GPointAt(pl)>>
PointOn(s, t, n) == LET c == Rnd(1, 5) k == Pick(<<N(0), N(1), N("0.5"), N(-2), N("0.3"), N(3)>>) IN
  IF c <= 2 THEN VLerp(s, t, k) ELSE IF c = 3 THEN VAdd(VLerp(s, t, k), VScale(GVec(n), Tiny)) ELSE GVec(n)
SegN(n) == LET s == GVecOf(n, Pick(<<2, 3, 4, 5>>)) t == IF Rnd(1, 12) = 1 THEN s ELSE GRel(s) IN <<s, t, PointOn(s, t, n), GNum>>
RayN(n) == LET s == GVecOf(n, Pick(<<2, 3, 5>>)) d == GNZ(n) IN <<s, d, PointOn(s, VAdd(s, d), n), GNum>>
\* each of them far from the unit scale now and then: points and offsets scale, directions do not
Pts2(n, q) == LET k == FarOf(q[1] \o q[2] \o q[3], GFar) IN <<VScale(q[1], k), VScale(q[2], k), VScale(q[3], k), q[4]>>
RayS(n, q) == LET k == FarOf(q[1] \o q[2] \o q[3], GFar) IN <<VScale(q[1], k), q[2], VScale(q[3], k), q[4] ** k>>
PlS(pl, k) == <<pl[1], pl[2] ** k>>
\* points of a triangle: corners, edges, inside, just outside
GTriPoint(a, b, c) == LET k == Rnd(1, 9) t == GRatio u == GRatio IN
  CASE k = 1 -> VLerp(a, b, Pick(<<N(0), N("0.5"), N(1), N(2), N(-1)>>)) [] k = 2 -> VLerp(b, c, Pick(<<N("0.25"), N(1), N("1.5")>>))
    [] k = 3 -> VLerp(c, a, Pick(<<N("0.75"), N("0.5"), N("-0.5")>>)) [] k = 4 -> VLerp(VLerp(a, b, t), c, u) [] k \in {5, 6} -> VLerp(VLerp(a, b, N("0.5")), c, N("0.5"))
    [] OTHER -> GVecOf(2, Pick(<<2, 3>>))
Tri == LET cl == Pick(<<1, 1, 2, 2, 3>>) a == GVecOf(2, cl) b == GVecOf(2, cl) c == GVecOf(2, cl) IN <<a, b, c, GTriPoint(a, b, c)>>

GeomCase(op) ==
  CASE op = "pl.hist" -> <<op, Ty>> \o GPlHist(6)
    [] op = "pl.ask" -> LET pl == GPlane q == GPointAt(pl) r == Pick(<<Zero, One, Abs(GGrid), GPos>>) k == FarOf(pl[1] \o q \o <<pl[2], r>>, GFar) IN
         <<op, Ty, PlS(pl, k), VScale(q, k), GDirOf(pl), r ** k>>
    [] op = "pl.ray" -> LET pl == GPlane q == GPointAt(pl) k == FarOf(pl[1] \o q \o <<pl[2]>>, GFar) IN <<op, Ty, PlS(pl, k), VScale(q, k), GDirOf(pl)>>
    [] op = "pl.line" -> LET pl == GPlane q == Segment(pl) r == Pick(<<Zero, One, Abs(GGrid), GPos>>) k == FarOf(pl[1] \o q[1] \o q[2] \o <<pl[2], r>>, GFar) IN
         <<op, Ty, PlS(pl, k), VScale(q[1], k), VScale(q[2], k), r ** k>>
    [] op = "pl.three" -> LET a == GPlane b == IF Rnd(1, 4) = 1 THEN GThird(a, a) ELSE GPlane IN <<op, Ty, a, b, GThird(a, b)>>
    [] op \in {"m34.local", "m4.local"} -> <<op, Ty, GNZ(3), GNZ(3), GNZ(3), GVec(3)>>
    [] op = "l2.seg" -> <<op, Ty>> \o Pts2(2, SegN(2))
    [] op = "l3.seg" -> <<op, Ty>> \o Pts2(3, SegN(3))
    [] op = "r2.ray" -> <<op, Ty>> \o RayS(2, RayN(2))
    [] op = "r3.ray" -> <<op, Ty>> \o RayS(3, RayN(3))
    [] op = "t2.has" -> <<op, Ty>> \o (LET q == Tri k == IF OnGrid(q[1] \o q[2] \o q[3] \o q[4]) THEN Pick(<<One, One, GFar>>) ELSE One IN Force([i \in 1..4 |-> VScale(q[i], k)]))
================================================================================
