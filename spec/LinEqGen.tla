-------------------------------- MODULE LinEqGen --------------------------------
(* Pseudo-random linear systems: well-conditioned, badly scaled, needing pivoting, singular. *)
EXTENDS GenBase, GenLoop

Seq_(n, cl) == IF n = 0 THEN <<>> ELSE GVecOf(n, cl)
\* dominant diagonals, of either sign; small integers; with zeros; with vanishing pivots
TriSys(n) == LET c == Rnd(1, 6) cl == Pick(<<1, 2, 3>>) a == Seq_(n - 1, cl) u == Seq_(n - 1, cl) IN
  CASE c <= 2 -> <<a, Force([i \in 1..n |-> LET s == (IF i = 1 THEN Zero ELSE Abs(a[i - 1])) ++ (IF i = n THEN Zero ELSE Abs(u[i])) IN (s ++ Pick(<<N("0.5"), N(1), N(3)>>)) ** Pick(<<N(1), N(-1)>>)]), u>>
    [] c = 3 -> <<Seq_(n - 1, 1), Seq_(n, 1), Seq_(n - 1, 1)>>
    [] c = 4 -> <<Force([i \in 1..(n - 1) |-> One]), Force([i \in 1..n |-> Pick(<<N(1), N(2), N(-1), N("0.5")>>)]), Force([i \in 1..(n - 1) |-> Pick(<<N(0), N(1)>>)])>>
    [] c = 5 -> <<Force([i \in 1..(n - 1) |-> One]), Force([i \in 1..n |-> IF i = 1 \/ i = n THEN N(2) ELSE N(4)]), Force([i \in 1..(n - 1) |-> One])>>
    [] c = 6 -> <<a, GVecOf(n, cl), u>>
\* rows of very different sizes, now and then
Graded(q) == IF Rnd(1, 5) # 1 THEN q ELSE
  LET n == Len(q[2]) f == Rnd(0, 1) k == Force([i \in 1..n |-> Exp2(N(IF f = 0 THEN Pick(<<-24, 0, 20, -12>>) ELSE -24))]) IN
  <<Force([i \in 1..(n - 1) |-> q[1][i] ** k[i + 1]]), Force([i \in 1..n |-> q[2][i] ** k[i]]), Force([i \in 1..(n - 1) |-> q[3][i] ** k[i]])>>
Rhs(n) == GVecOf(n, Pick(<<1, 2, 3, 4, 5>>))
Size == IF Rnd(1, 12) = 1 THEN Pick(<<9, 12, 17, 33>>) ELSE Pick(<<1, 2, 3, 4, 5, 6, 8>>)
Corner_ == Pick(<<N(0), N(1), N(-1), N("0.5"), GNum, GGrid>>)
\* the cyclic second difference and its like are singular
CycSys(n) == IF Rnd(1, 6) = 1
  THEN LET k == Pick(<<N(2), N(-2), N("2.5"), N(3)>>) o == Pick(<<N(-1), N(1)>>) IN
       <<Force([i \in 1..(n - 1) |-> o]), Force([i \in 1..n |-> k]), Force([i \in 1..(n - 1) |-> o]), o, o>>
  ELSE IF Rnd(1, 4) = 1
  THEN LET S(m) == Force([i \in 1..m |-> N(Pick(<<0, 1, -1, 2, -2, 1, -1>>))]) IN
       <<S(n - 1), Force([i \in 1..n |-> N(Pick(<<1, -1, 2, -2>>))]), S(n - 1), N(Pick(<<1, -1, 2, -2>>)), N(Pick(<<0, 1, -1, 2, -2>>))>>
  ELSE <<TriSys(n), Corner_, Corner_>>

\* dense matrices, as rows
PermRows(n) == LET s == Rnd(0, n - 1) f == Rnd(0, 1) IN \* cyclic shifts and reversals
  Force([i \in 1..n |-> Unit(n, LET x == ((i - 1 + s) % n) + 1 IN IF f = 0 THEN x ELSE n + 1 - x)])
RowsOf(n, cl) == Force([i \in 1..n |-> GVecOf(n, cl)])
ScaleRows(m) == Force([i \in 1..Len(m) |-> VScale(m[i], Exp2(N(Rnd(-6, 6))))])
Huge == Pick(<<Exp2(N(-40)), Exp2(N(40)), Exp2(N(-60)), Exp2(N(30))>>)
Dense(n) == LET c == Rnd(1, 10) m == RowsOf(n, Pick(<<1, 2, 3>>)) IN
  CASE c <= 3 -> m
    [] c = 4 -> PermRows(n)
    [] c = 5 -> MScaleK(PermRows(n), GNonZero)
    [] c = 6 -> ScaleRows(m)
    [] c = 7 -> Force([i \in 1..n |-> VAdd(PermRows(n)[i], VScale(m[i], N("1/64")))])
    [] c = 8 -> LET z == Rnd(1, n) r == Rnd(0, 1) IN Force([i \in 1..n |-> IF r = 0 THEN (IF i = z THEN VZero(n) ELSE m[i]) ELSE [m[i] EXCEPT ![z] = Zero]])
    [] c = 9 -> Force([i \in 1..n |-> Force([j \in 1..n |-> Pick(<<N(0), N(1), N(-1)>>)])])
    [] c = 10 -> MScaleK(m, Huge)
DenseSize == IF Rnd(1, 16) = 1 THEN Pick(<<6, 7, 8>>) ELSE Pick(<<1, 2, 2, 3, 3, 3, 4, 4, 5>>)
RECURSIVE Many(_, _)
Many(n, k) == IF k = 0 THEN <<>> ELSE GVecOf(n, Pick(<<1, 2, 3>>)) \o Many(n, k - 1)
LinEqCase(op) ==
  CASE op = "tri.solve" -> LET n == Size IN <<op, Ty, n, Graded(TriSys(n)), Rhs(n), Rhs(n), Rhs(n), Rhs(n)>>
    [] op = "tri.cyclic" -> LET n == IF Rnd(1, 12) = 1 THEN Rnd(1, 2) ELSE IF Rnd(1, 12) = 1 THEN Pick(<<7, 8, 11, 16>>) ELSE Pick(<<3, 3, 4, 5, 6>>) IN <<op, Ty, n, CycSys(n), Rhs(n)>>
    [] op = "gj.solve" /\ Rnd(1, 10) = 1 -> \* beyond single precision
       LET n == DenseSize IN <<op, "d", n, 1, MScaleK(IF Rnd(1, 2) = 1 THEN RowsOf(n, 2) ELSE PermRows(n), Exp2(N(Pick(<<-200, 200, -160>>)))), GVecOf(n, 2)>>
    [] op = "gj.solve" -> LET n == DenseSize k == IF Rnd(1, 12) = 1 THEN 7 ELSE Rnd(0, 4) IN <<op, Ty, n, k, Dense(n), Many(n, k)>>
================================================================================
