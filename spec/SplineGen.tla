-------------------------------- MODULE SplineGen --------------------------------
(* Pseudo-random segments (straight, with loops, with coinciding points, plane) and point sequences. *)
EXTENDS GenBase, GenLoop

GPoint == GVecOf(3, Pick(<<1, 2, 2, 3, 4, 5>>))
Four_ == LET c == Rnd(1, 8) a == GPoint d == GVec(3) IN
  CASE c = 1 -> LET w == GVecOf(3, 1) h == GVecOf(3, 1) IN Force([i \in 1..4 |-> VAdd(w, VScale(h, GInt(3)))])   \* on a line
    [] c = 2 -> Force([i \in 1..4 |-> VAdd(a, VScale(d, N(i)))])
    [] c = 3 -> LET b == GPoint e == GPoint IN Pick(<< <<a, a, b, e>>, <<a, b, e, e>>, <<a, b, b, a>>, <<a, a, a, b>>, <<a, b, b, b>>, <<a, a, b, b>>, <<a, a, a, a>> >>)
    [] c = 4 -> Force([i \in 1..4 |-> LET v == GVecOf(3, 2) IN <<v[1], v[2], Zero>>])
    [] c = 5 -> Force([i \in 1..4 |-> VAdd(a, VScale(GVecOf(3, 3), N("1/1024")))])
    [] OTHER -> Force([i \in 1..4 |-> GPoint])
Four == LET q == Four_ k == FarOf(Flat(q), GFarS) IN Force([i \in 1..4 |-> VScale(q[i], k)])
T01_ == IF Rnd(1, 8) = 1 THEN Pick(<<N(2), N(-1), N("1.5"), N("-0.25"), N(3)>>) ELSE Pick(<<N(0), N(1), N("0.5"), N("0.25"), N("0.75"), GUnit01, GUnit01, N("1/3"), N("0.999"), N("1e-5")>>)
RECURSIVE Points(_)
Points(n) == IF n = 0 THEN <<>> ELSE <<GPoint>> \o Points(n - 1)
\* distinct, repeated, collinear, equally spaced
PtSeq(n) == LET c == Rnd(1, 6) a == GPoint d == GVec(3) IN
  CASE c = 1 -> Force([i \in 1..n |-> VAdd(a, VScale(d, N(i)))])
    [] c = 2 -> Force([i \in 1..n |-> IF i % 2 = 1 THEN a ELSE d])
    [] c = 3 -> Force([i \in 1..n |-> IF i = 1 THEN d ELSE a])
    [] OTHER -> Points(n)
PtSeqFar(n) == LET q == Force(PtSeq(n)) k == FarOf(Flat(q), GFarS) IN Force([i \in 1..n |-> VScale(q[i], k)])
Count_ == Pick(<<2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 12, 17, 20, 33>>)
EndCtl(p, n) == Pick(<<GPoint, GPoint, p[1], p[n], p[2], p[n - 1], VLerp(p[1], p[n], N("1/3"))>>)
SplineCase(op) ==
  CASE op \in {"sp.herm", "sp.bez"} -> <<op, Ty, Four, T01_>> \o (IF op = "sp.bez" THEN <<T01_>> ELSE <<>>)
    [] op = "sp.len" -> <<op, Ty, Four, Pick(<<1, 2, 3, 4, 5, 7, 10, 10, 16, 33>>)>>
    [] op = "sp.frame" -> <<op, Ty, Four, T01_>>
    [] op = "sp.fwd" -> LET n == Pick(<<1, 2, 4, 8, 10, 16>>) IN <<op, Ty, Four, Pick(<<One // N(n), One // N(n), N("0.0625"), N("0.05")>>), n>>
    [] op \in {"sp.nat", "sp.closed"} -> LET n == Count_ IN <<op, Ty, n, PtSeqFar(n)>>
    [] op = "sp.clamp" -> LET n == Count_ p == PtSeqFar(n) IN LET e == EndCtl(p, n) IN <<op, Ty, n, p, Pick(<<e, p[1]>>), IF Rnd(1, 6) = 1 THEN e ELSE Pick(<<EndCtl(p, n), p[n]>>)>>
================================================================================
