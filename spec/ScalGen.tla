--------------------------------- MODULE ScalGen ---------------------------------
(* Pseudo-random calls within the contract Scal. *)
EXTENDS GenBase, GenLoop
GT == LET c == Rnd(1, 12) IN
      CASE c = 1 -> Pick(<<N(0), N(1), N("1/2"), N(-1), N(2), N("-1/1000"), N("1001/1000")>>)
        [] c = 2 -> Exp2(N(0 - Rnd(1, 24)))
        [] c = 3 -> 1 -- Exp2(N(0 - Rnd(1, 23)))
        [] c = 4 -> N("1/2") ++ (Exp2(N(0 - Rnd(2, 22))) ** Pick(<<1, -1>>))
        [] OTHER -> N(Rnd(0, 65536)) // 65536
\* angles: generic, and pairs differing by special multiples of pi with several turns
GAng == LET c == Rnd(1, 4) IN IF c = 1 THEN (Pi ** N(Rnd(-24, 24))) // 4 ELSE IF c = 2 THEN N(Rnd(-40, 40)) ELSE GGen // 16
GPosNum == LET x == Abs(GNum) IN IF Eq(x, 0) THEN N(1) ELSE x
ScalCase(op) ==
  CASE op = "ip.ratio" -> <<op, Ty, Rnd(0, 28), GT>>
    [] op = "ip.lerp" -> LET x == GNum v2 == GVec(2) v3 == GVec(3) i == Rnd(-5000, 5000) IN <<op, Ty, Rnd(0, 28), IF Rnd(1, 4) = 1 THEN Pick(<<N(0), N(1)>>) ELSE N(Rnd(0, 65536)) // 65536, x, IF Rnd(1, 8) = 1 THEN x ELSE GNum, v2, GRel(v2), v3, GRel(v3), i, IF Rnd(1, 8) = 1 THEN i ELSE Rnd(-5000, 5000)>>
    [] op = "ip.clerp" -> LET x == GAng c == Rnd(1, 6) IN
         <<op, Ty, x, CASE c = 1 -> x [] c = 2 -> x ++ (Pi ** N(Rnd(-12, 12))) [] c = 3 -> x ++ ((Pi ** N(Rnd(-24, 24))) // 6) [] OTHER -> GAng, GRatio,
           LET k == Rnd(1, 6) IN IF k = 1 THEN N(0) ELSE IF k = 2 THEN N(40) ELSE IF k = 3 THEN Small ELSE GHalfTurn ++ N("1/256")>>
    [] op = "fn.basic" -> LET x == GNum lo == GNum c == Rnd(1, 4) hi == NMax(lo, GNum) IN
         <<op, Ty, IF c = 1 THEN lo ELSE IF c = 2 THEN hi ELSE x, GNum, lo, hi, Rnd(-10, 10), Rnd(-10, 10)>>
    [] op = "fn.asin" -> <<op, Ty, Pick(<<N(Rnd(-4096, 4096)) // 4096, Pick(<<N(1), N(-1), N(0), N("1.0001"), N("-1.0001"), N(3), N("-7"), N("0.9999999"), N("-0.9999999")>>)>>)>>
    [] op = "fn.fmod" -> LET y == Pick(<<GPosNum, N(10), Pi ** 2, N(1), N(6)>>) c == Rnd(1, 6) IN
         <<op, Ty, CASE c = 1 -> y ** GInt(9) [] c = 2 -> Neg(Exp2(N(0 - Rnd(20, 100)))) [] c = 3 -> (y // 2) ** GInt(9) [] c = 4 -> GWide ** Exp2(N(Rnd(8, 24))) [] OTHER -> GNum, y>>
    [] op = "fn.eval" -> LET th == Pick(<<N(0), N("1/4"), N(Rnd(0, 60)) // 64, N("0.1")>>) c == Rnd(1, 8) IN
         <<op, Ty, CASE c = 1 -> th [] c = 2 -> Neg(th) [] c = 3 -> N(Pick(<<1, -1>>)) [] OTHER -> N(Rnd(-1024, 1024)) // 1024, th, Rnd(0, 5)>>
    [] op = "fn.rand" -> LET i0 == Rnd(1, 20) from == Abs(GInt(9)) IN
         <<op, Ty, Rnd(1, 1000000), 200, Rnd(1, 50), GPosNum, from, from ++ GPosNum, i0, i0 + Rnd(1, 30)>>
================================================================================
