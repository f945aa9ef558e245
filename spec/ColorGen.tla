-------------------------------- MODULE ColorGen --------------------------------
(* Pseudo-random colours: of the cube, its faces and corners, nearly grey, nearly pure; hues of any size. *)
EXTENDS GenBase, GenLoop

SmallC == Pick(<<N("1/1000000000"), N("1/16777216"), N("1/100000"), N("1e-20")>>)
Ch == LET c == Rnd(1, 6) IN IF c <= 2 THEN GUnit01 ELSE IF c = 3 THEN N(Rnd(0, 255)) // 255 ELSE IF c = 4 THEN Pick(<<SmallC, One -- SmallC>>) ELSE Pick(<<N(0), N(1), N("0.5")>>)
Cube == LET c == Rnd(1, 6) k == Ch IN
  CASE c = 1 -> <<k, k, k>>
    [] c = 2 -> LET d == SmallC IN Force([i \in 1..3 |-> IF i = Rnd(1, 3) THEN NMin(One, k ++ d) ELSE k])
    [] c = 3 -> LET i == Rnd(1, 3) j == Rnd(1, 3) x == SmallC IN Force([l \in 1..3 |-> IF l = i THEN k ELSE IF l = j THEN x ** k ELSE Zero])
    [] OTHER -> <<Ch, Ch, Ch>>
\* far outside, multiples of the sectors, just beside them
Hue == LET c == Rnd(1, 7) IN
  CASE c = 1 -> N(Rnd(-24, 24) * 30)
    [] c = 2 -> N(Rnd(-12, 12) * 60) ++ (Pick(<<N(1), N(-1)>>) ** SmallC)
    [] c = 3 -> N(Rnd(-12, 12) * 60) ++ N(Rnd(-20, 20))
    [] c = 4 -> N(Rnd(-30000, 30000)) // 7
    [] c = 5 -> Pick(<<Neg(SmallC), SmallC, N(360) -- SmallC, Zero, N(360), N(-360)>>)
    [] OTHER -> GUnit01 ** 360
HueNear(h) == LET c == Rnd(1, 5) IN
  CASE c = 1 -> h ++ N(Rnd(-12, 12) * 30)
    [] c = 2 -> (h ++ N(Rnd(-3, 3) * 180)) ++ (Pick(<<N(1), N(-1)>>) ** Pick(<<N("1/100"), SmallC, Zero>>))
    [] OTHER -> Hue
SV == <<Pick(<<N(0), N(1), GUnit01, Ch>>), Pick(<<N(0), N(1), GUnit01, Ch>>)>>
Opacity == Pick(<<GUnit01, GUnit01, GUnit01, N(0), N(1), GNum>>)
ColorCase(op) ==
  CASE op = "co.rgb" -> LET a == Pick(<<GVecOf(3, Pick(<<2, 3, 5>>)), GVec(3), Cube>>) IN <<op, Ty, a, Pick(<<GRel(Cube), GRel(a), Cube>>), GNum, GRatio, Opacity>>
    [] op = "co.rgba" -> LET a == <<Opacity>> b == Pick(<< <<Opacity>>, a>>) IN
                         LET c == Pick(<<Cube, GVecOf(3, 5), GVec(3)>>) IN <<op, Ty, c \o a, Pick(<<Cube, GVecOf(3, 5), GRel(c)>>) \o b, GNum, GRatio>>
    [] op = "co.conv" -> <<op, Ty, Cube, Opacity>>
    [] op = "co.hue" -> <<op, Ty, Hue, SV, Opacity>>
    [] op = "co.mix" -> LET h == Hue IN <<op, Ty, h, SV, HueNear(h), SV, GRatio>>
    [] op = "co.int" -> <<op, Ty, Rnd(0, 255), Pick(<<0, 255, Rnd(0, 255)>>), Rnd(0, 255), Pick(<<0, 255, Rnd(0, 255)>>)>>
================================================================================
