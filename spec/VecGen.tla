--------------------------------- MODULE VecGen ---------------------------------
(* Pseudo-random calls and histories within the contract Vec. *)
EXTENDS GenBase, GenLoop

GVecS(n) == IF Rnd(1, 10) = 1 THEN VScale(GVecOf(n, Rnd(1, 2)), GFar) ELSE GVec(n)
GPair(n) == LET a == GVec(n) b == GRel(a) k == IF Rnd(1, 10) = 1 /\ OnGrid(a) /\ OnGrid(b) THEN GFar ELSE One IN <<VScale(a, k), VScale(b, k)>>
\* non-null vectors at some angle: related as in GRel, or v = a known rotation of u
GTurnPair(n) ==
  LET u == GNZ(n) c == Rnd(1, 8)
      v == CASE c <= 3 -> GNZ(n)
             [] c = 4 -> VScale(u, GPos)
             [] c = 5 -> VNeg(VScale(u, GPos))
             [] c = 6 -> VAdd(VNeg(u), VScale(GNZ(n), N("1/64") ** Pick(<<One, N("1/16"), N(4)>>)))
             [] c = 7 -> VAdd(VScale(u, GPos), VScale(GNZ(n), N("1/64") ** Pick(<<One, N("1/16"), N(4)>>)))
             [] c = 8 -> IF n = 2 THEN MVec(Rot2(GAngle), u) ELSE MVec(RotCoord(Rnd(1, 3), GAngle), u)
      k == IF Rnd(1, 10) = 1 /\ OnGrid(u) /\ Le(MaxAbs(v), 16) /\ Le(N("1/8"), MaxAbs(v)) THEN GFar ELSE One
  IN IF IsZeroV(v) THEN <<u, u>> ELSE <<VScale(u, k), VScale(v, k)>>
GMaxAngle == LET c == Rnd(1, 8) IN IF c = 1 THEN N(0) ELSE IF c = 2 THEN N(4) ELSE IF c = 3 THEN Small ELSE GHalfTurn ++ N("1/256")

RECURSIVE GSteps(_, _)
GSteps(n, k) == IF k = 0 THEN <<>> ELSE
  LET c == Rnd(1, 7)
      st == CASE c \in {1, 2} -> <<Pick(<<"add", "sub">>), GVec(n)>>
              [] c = 3 -> <<"mul", Pick(<<GSpecial, GGrid>>)>>
              [] c = 4 -> <<"div", Pick(<<N(2), N(-1), N("0.5"), N(3), N("-0.25"), N("10")>>)>>
              [] c = 5 -> <<"neg">>
              [] c = 6 -> <<"dbl">>
              [] c = 7 -> <<"set", Rnd(1, n), GNum>>
  IN st \o GSteps(n, k - 1)

VecCase(op) ==
  CASE op = "v2.alg" -> <<op, Ty, GPair(2), GVec(2), GNum>>
    [] op = "v3.alg" -> <<op, Ty, GPair(3), GNum>>
    [] op = "v4.alg" -> <<op, Ty, GPair(4), GNum>>
    [] op = "v.conv" -> <<op, Ty, GVec(3), GVec(2)>>
    [] op = "v2.seg" -> LET ft == GPair(2) a == GVec(2) c == Rnd(1, 4) IN
         \* crossing, parallel and collinear segments
         <<op, Ty, ft, a, CASE c = 1 -> VAdd(a, VScale(VSub(ft[2], ft[1]), GInt(3))) [] c = 2 -> ft[1] [] OTHER -> GVec(2)>>
    [] op = "v2.hist" -> <<op, Ty, GVec(2), GSteps(2, 8)>>
    [] op = "v3.hist" -> <<op, Ty, GVec(3), GSteps(3, 8)>>
    [] op = "v4.hist" -> <<op, Ty, GVec(4), GSteps(4, 8)>>
    [] op = "v2.rot" -> <<op, Ty, GPair(2), GAngle, GNum>>
    [] op = "v3.rot" -> <<op, Ty, GVecS(3), GAngle, GNum>>
    [] op = "v2.clerp" -> <<op, Ty, GTurnPair(2), GRatio>>
    [] op = "v2.clerpmax" -> <<op, Ty, GTurnPair(2), GMaxAngle>>
    [] op = "v3.slerp" -> <<op, Ty, IF Rnd(1, 20) = 1 THEN Pick(<< <<GVec(3), VZero(3)>>, <<VZero(3), GVec(3)>> >>) ELSE GTurnPair(3), GRatio>>
    [] op = "v3.slerpmax" -> <<op, Ty, IF Rnd(1, 20) = 1 THEN Pick(<< <<GVec(3), VZero(3)>>, <<VZero(3), GVec(3)>> >>) ELSE GTurnPair(3), GMaxAngle>>
================================================================================
