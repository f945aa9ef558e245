--------------------------------- MODULE BoxGen ---------------------------------
(* Pseudo-random boxes, circles, rays and histories within the contract Box. *)
EXTENDS GenBase, GenLoop

GSize(n) == VAbs(GVec(n))
GLen == LET x == Abs(GNum) IN IF Rnd(1, 8) = 1 THEN Zero ELSE x
\* the corners of a box
GBox(n) == LET lo == GVec(n) s == VAbs(lo) c == Rnd(1, 16) IN
  \* centred at the origin, a corner at the origin, a cube
  IF c = 1 THEN <<VNeg(s), s>> ELSE IF c = 2 THEN <<VZero(n), s>> ELSE IF c = 3 THEN <<VNeg(s), VZero(n)>>
  ELSE IF c = 4 THEN LET k == Abs(GNum) IN <<lo, VAdd(lo, [i \in 1..n |-> k])>> ELSE <<lo, VAdd(lo, GSize(n))>>
GBoxOf(n, cl) == LET lo == GVecOf(n, cl) s == VAbs(lo) IN IF Rnd(1, 10) = 1 THEN <<VNeg(s), s>> ELSE <<lo, VAdd(lo, VAbs(GVecOf(n, cl)))>>
\* boxes that share corners or faces with b, lie inside it, or touch it
GBoxNear(b) == LET n == Len(b[1]) c == Rnd(1, 8) IN
  CASE c = 1 -> b
    [] c = 2 -> <<b[2], VAdd(b[2], GSize(n))>>
    [] c = 3 -> LET s == VScale(VSub(b[2], b[1]), N("0.25")) IN <<VAdd(b[1], s), VSub(b[2], s)>>
    [] c = 4 -> LET lo == Force([i \in 1..n |-> IF Rnd(0, 1) = 0 THEN b[1][i] ELSE b[2][i]]) IN <<lo, VAdd(lo, GSize(n))>>
    [] c = 5 -> LET hi == Force([i \in 1..n |-> IF Rnd(0, 1) = 0 THEN b[1][i] ELSE b[2][i]]) IN <<VSub(hi, GSize(n)), hi>>
    [] c = 6 -> <<Force([i \in 1..n |-> IF Rnd(0, 2) = 0 THEN b[1][i] -- 1 ELSE b[1][i]]), Force([i \in 1..n |-> IF Rnd(0, 2) = 0 THEN b[2][i] ++ 1 ELSE b[2][i]])>>
    [] OTHER -> GBox(n)
\* points at the corners, on the faces, inside, outside
GPointOf(b) == LET n == Len(b[1]) c == Rnd(1, 4) IN
  IF c = 1 THEN (IF Rnd(1, 6) = 1 THEN VZero(n) ELSE GVec(n)) ELSE
  Force([i \in 1..n |-> LET d == Rnd(1, 7) IN
    CASE d = 1 -> b[1][i] [] d = 2 -> b[2][i] [] d \in {3, 4} -> b[1][i] ++ ((b[2][i] -- b[1][i]) ** (N(Rnd(1, 7)) // 8))
      [] d = 5 -> b[1][i] -- (N(Rnd(1, 8)) // 4) [] d = 6 -> b[2][i] ++ (N(Rnd(1, 8)) // 4)
      [] d = 7 -> IF c = 2 THEN b[1][i] ELSE GNum])
RECURSIVE GPts(_, _)
GPts(n, k) == IF k = 0 THEN <<>> ELSE GVec(n) \o GPts(n, k - 1)
GPoints(n) == LET k == Pick(<<1, 2, 3, 4, 5, 7, 9, 12>>) IN <<k, Rnd(0, 2)>> \o GPts(n, k)
GPosFact == Pick(<<N(2), N("0.5"), N(1), N(3), N("1/3"), N("0.25"), N("10")>>)
GBoxStep(n, w) ==
  CASE w \in {"pt", "add", "move", "back"} -> <<w, GVec(n)>>
    [] w = "pts" -> <<w>> \o GPoints(n)
    [] w \in {"mul", "scale"} -> <<w, IF Rnd(1, 8) = 1 THEN Zero ELSE GPosFact>>
    [] w = "div" -> <<w, GPosFact>>
    [] w \in {"union", "inter"} -> <<w, GBox(n)>>
ANames == <<"pt", "pair", "pts", "pts", "add", "add", "add", "add", "move", "back", "mul", "div", "union", "union", "union", "inter", "inter", "scale", "form">>
KNames == <<"pt", "pair", "pts", "pts", "add", "add", "add", "add", "move", "back", "mul", "div", "form">>
RECURSIVE GAHist(_, _)
GAHist(n, k) == IF k = 0 THEN <<>> ELSE LET w == Pick(ANames) IN
  (CASE w = "pair" -> LET b == IF Rnd(1, 2) = 1 THEN GBoxOf(n, Pick(<<1, 2>>)) ELSE GBox(n) IN
                     IF Rnd(1, 3) = 1 THEN <<w, b>> ELSE <<w, b, Pick(<<"inter", "inter", "union">>), GBoxNear(b)>>
     [] w = "form" -> <<w, GVec(n), GSize(n)>> [] OTHER -> GBoxStep(n, w)) \o GAHist(n, k - 1)
RECURSIVE GKHist(_, _)
GKHist(n, k) == IF k = 0 THEN <<>> ELSE LET w == Pick(KNames) IN
  (CASE w = "pair" -> <<w, GVec(n), GSize(n)>> [] w = "form" -> <<w, GBox(n)>> [] OTHER -> GBoxStep(n, w)) \o GKHist(n, k - 1)
\* rays towards a point of the box, or anywhere
GDirTo(n, s, q) == LET d == VSub(q, s) c == Rnd(1, 8) IN
  IF c <= 5 /\ ~IsZeroV(d) THEN d ELSE IF c = 6 THEN VScale(Unit(n, Rnd(1, n)), Pick(<<N(1), N(-1), N("0.25"), N(-3)>>)) ELSE GNZ(n)
GBallTail(n) == IF n = 3 THEN <<GVec(3), GLen>> ELSE <<>>
AskA(n) == LET b == IF Rnd(1, 2) = 1 THEN GBoxOf(n, 2) ELSE GBox(n) IN
  <<b, GBoxNear(b), GPointOf(b)>> \o (IF n = 3 THEN <<GPointOf(b), GLen>> ELSE <<>>)
ToK(b) == <<VScale(VAdd(b[1], b[2]), N("0.5")), VScale(VSub(b[2], b[1]), N("0.5"))>>
AskK(n) == LET b == IF Rnd(1, 2) = 1 THEN GBoxOf(n, 1) ELSE GBox(n) IN
  <<ToK(b), ToK(GBoxNear(b)), GPointOf(b)>> \o (IF n = 3 THEN <<GPointOf(b), GLen>> ELSE <<>>)
RayA(n) == LET b == IF Rnd(1, 2) = 1 THEN GBoxOf(n, 2) ELSE GBox(n) s == GPointOf(b) IN <<b, s, GDirTo(n, s, GPointOf(b))>>
LineA(n) == LET b == IF Rnd(1, 2) = 1 THEN GBoxOf(n, 2) ELSE GBox(n) s == GPointOf(b) q == GPointOf(b)
            IN <<b, s, IF Rnd(1, 3) = 1 THEN VAdd(s, VScale(VSub(q, s), Pick(<<N("0.5"), N(2), N(4), N("0.9")>>))) ELSE q>>
\* circles: a point or circle at a Pythagorean distance, touching, inside, concentric
Trip2 == Pick(<<<<3, 4, 5>>, <<4, -3, 5>>, <<-6, 8, 10>>, <<0, 5, 5>>, <<-12, 5, 13>>, <<0, 0, 0>>>>)
Trip3 == Pick(<<<<1, 2, 2, 3>>, <<-2, 3, 6, 7>>, <<0, 3, -4, 5>>, <<2, -1, 2, 3>>, <<0, 0, 2, 2>>, <<0, 0, 0, 0>>>>)
GTouch(n) == LET t == IF n = 2 THEN Trip2 ELSE Trip3 x == GVecOf(n, 2) d == Force([i \in 1..n |-> N(t[i])]) l == N(t[n + 1]) q == N(Rnd(0, 8)) // 4 c == Rnd(1, 3)
             r == IF c = 1 THEN Abs(l -- q) ELSE IF c = 2 THEN l ++ q ELSE l
             IN <<x, r, VAdd(x, d), q, VAdd(x, VScale(d, Pick(<<N(1), N(-1), N("0.5"), N("0.75")>>))), GPosFact>>
GBalls(n) == IF Rnd(1, 2) = 1 THEN GTouch(n) ELSE
  LET x == GVec(n) IN <<x, GLen, GRel(x), GLen, GRel(x), Pick(<<GPosFact, Zero>>)>>
\* small and large ones that a segment passes at some multiple of the radius
GPassLine(n) == LET x == GVec(n) r == Pick(<<N("1/65536"), N("1/1024"), N("1/64"), N("0.25"), N(2), N(32)>>) x3 == IF n = 2 THEN x \o <<GNum>> ELSE x
                    y == VAdd(x3, VScale(GNZ(3), r ** Pick(<<N(0), N("0.25"), N("0.5"), N(1)>>))) s == VAdd(x3, GNZ(3))
                IN <<x, r, s, VAdd(y, VScale(VSub(y, s), Pick(<<N(0), N("0.5"), N(1), N("-0.25"), N("0.01"), N(3)>>)))>>
\* short ones across the boundary, from outside
GCrossLine(n) == LET x == IF Rnd(0, 1) = 0 THEN VZero(n) ELSE Force([i \in 1..n |-> N(Rnd(-4, 4))]) r == N(Pick(<<1, 2, 3>>)) i == Rnd(1, n)
                     h == Exp2(N(-Rnd(5, 12))) sg == N(Pick(<<1, -1>>)) x3 == IF n = 2 THEN x \o <<GInt(3)>> ELSE x
                     at(k) == [j \in 1..3 |-> IF j = i THEN x3[j] ++ (sg ** (r ++ k)) ELSE x3[j]]
                 IN <<x, r, at(h), at(h ** Pick(<<N(-1), N("-0.5"), N(-3), N("0.5"), N(2)>>))>>
GBallLine(n) == IF Rnd(1, 8) = 1 THEN GCrossLine(n) ELSE IF Rnd(1, 3) = 1 THEN GPassLine(n) ELSE LET x == GVec(n) r == GPos u == GVec(3) c == Rnd(1, 3)
                    x3 == IF n = 2 THEN x \o <<GNum>> ELSE x
                    s == VAdd(x3, VScale(GNZ(3), r)) q == VAdd(x3, VScale(u, r // 2))
                IN <<x, r, s, IF c = 1 THEN q ELSE IF c = 2 THEN VAdd(s, VScale(VSub(q, s), Pick(<<N("0.5"), N(2), N("1.2"), N(-1)>>))) ELSE GVec(3)>>

\* each of them far from the unit scale now and then
BoxS(q) == LET k == FarOf(Flat(q), GFar) IN Force([i \in 1..Len(q) |-> VScale(q[i], k)])
LineS(n) == LET q == LineA(n) IN BoxS(<<q[1][1], q[1][2], q[2], q[3]>>)
BallS(q) == LET k == FarOf(q[1] \o q[3] \o q[5] \o <<q[2], q[4]>>, GFar) IN <<VScale(q[1], k), q[2] ** k, VScale(q[3], k), q[4] ** k, VScale(q[5], k), q[6]>>
BallLineS(q) == LET k == FarOf(q[1] \o q[3] \o q[4] \o <<q[2]>>, GFarS) IN <<VScale(q[1], k), q[2] ** k, VScale(q[3], k), VScale(q[4], k)>>

BoxCase(op) ==
  CASE op = "a2.hist" -> <<op, Ty>> \o GAHist(2, 6)
    [] op = "a3.hist" -> <<op, Ty>> \o GAHist(3, 6)
    [] op = "k2.hist" -> <<op, Ty>> \o GKHist(2, 6)
    [] op = "k3.hist" -> <<op, Ty>> \o GKHist(3, 6)
    [] op = "a2.ask" -> <<op, Ty>> \o AskA(2)
    [] op = "a3.ask" -> <<op, Ty>> \o AskA(3)
    [] op = "k2.ask" -> <<op, Ty>> \o AskK(2)
    [] op = "k3.ask" -> <<op, Ty>> \o AskK(3)
    [] op = "a2.ray" -> <<op, Ty>> \o RayA(2)
    [] op = "a3.ray" -> <<op, Ty>> \o RayA(3)
    [] op = "a2.line" -> <<op, Ty>> \o LineS(2)
    [] op = "a3.line" -> <<op, Ty>> \o LineS(3)
    [] op = "c2.ball" -> <<op, Ty>> \o BallS(GBalls(2))
    [] op = "c3.ball" -> <<op, Ty>> \o BallS(GBalls(3))
    [] op = "c2.pts" -> <<op, Ty>> \o GPoints(2)
    [] op = "c3.pts" -> <<op, Ty>> \o GPoints(3)
    [] op = "c2.line" -> <<op, Ty>> \o BallLineS(GBallLine(2))
    [] op = "c3.line" -> <<op, Ty>> \o BallLineS(GBallLine(3))
================================================================================
