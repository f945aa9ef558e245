--------------------------------- MODULE Color ---------------------------------
(***************************************************************************)
(* Contract of ColorRGB, ColorRGBA and ColorHSV (property K01).            *)
(*                                                                         *)
(* Hue is an angle in degrees on the colour hexagon.  A colour of hue h,   *)
(* saturation s and value v has the channels v (1 - s w(h/60 + n)) where w *)
(* is the trapezoid wave of period 6 and n is 5, 3, 1 for red, green, blue.*)
(***************************************************************************)
EXTENDS Geo

V(e, n) == NumSeq(e.a[n])
K(e, n) == N(e.a[n][1])
Frame(e) == BadBool(e.b, [frame |-> {TRUE}])
Self(e) == BadBool(e.b, [self |-> {TRUE}])
Within01(x, p) == IsFin(x) /\ ~Lt(x, Neg(Exp2(N(3 - p)))) /\ ~Lt(One ++ Exp2(N(3 - p)), x)

--------------------------------------------------------------------------------
Mod(x, y) == x -- (Floor(x // y) ** y)
\* rises from 0 to 1, stays, and falls back to 0
Wave(k) == NMax(Zero, NMin(One, NMin(k, N(4) -- k)))
Channel(h, s, v, n) == v -- ((v ** s) ** Wave(Mod((h // 60) ++ N(n), N(6))))
Rgb(c) == Force(<<Channel(c[1], c[2], c[3], 5), Channel(c[1], c[2], c[3], 3), Channel(c[1], c[2], c[3], 1)>>)
\* hue, saturation and value
Hsv(c) ==
  LET hi == NMax(NMax(c[1], c[2]), c[3]) lo == NMin(NMin(c[1], c[2]), c[3]) d == hi -- lo IN
  IF Eq(hi, lo) THEN <<Zero, Zero, hi>> ELSE
  LET h == CASE Eq(hi, c[1]) -> Mod((c[2] -- c[3]) // d, N(6))
             [] Eq(hi, c[2]) -> N(2) ++ ((c[3] -- c[1]) // d)
             [] Eq(hi, c[3]) -> N(4) ++ ((c[1] -- c[2]) // d)
  IN  Force(<<Widen(h ** 60, N(360)), d // hi, hi>>)
\* the turn from hue a to hue b by the shorter way, in degrees: -180 < d <= 180
Short(a, b) == LET d == Mod(b -- a, N(360)) IN IF Lt(N(180), d) THEN d -- N(360) ELSE d
\* hues agree when they differ by whole turns
SameHue(out, exp, k, p) == IsFin(out) /\ Sgn(Widen(Short(Exact(out), Exact(exp)), Mag(exp)), k, p) = 0
InTurn(h) == IsFin(h) /\ ~Lt(h, Zero) /\ Lt(h, N(360))
Every(obs, ok(_)) == \A i \in 1..Len(obs) : ok(NumSeq(obs[i]))

--------------------------------------------------------------------------------
\* channels combine; what follows them (the opacity) is that of the left colour
Chan(f, c) == IF Len(c) = 4 THEN f \o <<c[4]>> ELSE f
C3(c) == SubSeq(c, 1, 3)
Ops(e) ==
  LET c == V(e, "c") d == V(e, "d") k == K(e, "k") t == K(e, "t") a == C3(c) b == C3(d) IN
  Self(e) \cup Frame(e)
  \cup BadOut(e.o, [c |-> VExact(c), mix0 |-> VExact(c), mix1 |-> VExact(d), neg |-> Chan(VNeg(a), c), none |-> Chan(VZero(3), c)], 0, e.p)
  \cup BadOut(e.o, [sum |-> Chan(VAdd(a, b), c), dif |-> Chan(VSub(a, b), c), mul |-> Chan(VScale(a, k), c),
                    twice |-> Chan(VScale(a, N(2)), c), mix |-> VAdd(VScale(c, One -- t), VScale(d, t)), same |-> c], 4, e.p)
  \* the opacity is not computed with
  \cup (IF Len(c) = 3 THEN {} ELSE LET keeps(o) == Every(o, LAMBDA x : Eq(x[4], c[4])) IN
          BadIf([sum |-> keeps(e.o.sum), dif |-> keeps(e.o.dif), mul |-> keeps(e.o.mul), neg |-> keeps(e.o.neg), twice |-> keeps(e.o.twice), none |-> keeps(e.o.none)]))
  \cup (IF Eq(k, 0) THEN {} ELSE BadOut(e.o, [div |-> Chan(VDiv(a, k), c)], 4, e.p))
RgbStep(e) == LET c == V(e, "c") k == K(e, "k") IN
  Ops(e) \cup BadOut(e.o, [k |-> <<k, k, k>>, rgba1 |-> VExact(c) \o <<One>>, rgba |-> VExact(c) \o <<K(e, "al")>>], 0, e.p)
RgbaStep(e) == LET c == V(e, "c") d == V(e, "d") k == K(e, "k") h == Hsv(c) IN
  Ops(e) \cup BadOut(e.o, [k |-> <<k, k, k, d[4]>>, k1 |-> <<k, k, k, One>>, c1 |-> C3(c) \o <<One>>, rgb |-> C3(c)], 0, e.p)

\* a and b are hue, saturation, value
HsvOk(o, h, p) == Every(o, LAMBDA x : /\ InTurn(x[1]) /\ SameHue(x[1], h[1], 4, p) /\ Within(x[2], h[2], 8, p) /\ Within(x[3], h[3], 0, p))
ConvStep(e) == LET c == V(e, "c") h == Hsv(c) al == K(e, "al") t == VWiden(VExact(c), h[3] ** 8) IN
  Frame(e) \cup BadIf([hsv |-> HsvOk(e.o.hsv, h, e.p)])
  \cup BadOut(e.o, [back |-> t, backa |-> t \o <<al>>, backa1 |-> t \o <<One>>], 4, e.p)
HueStep(e) == LET c == V(e, "c") r == Rgb(c) al == K(e, "al") cube(o) == Every(o, LAMBDA x : \A i \in 1..3 : Within01(x[i], e.p)) IN
  Frame(e) \cup Self(e) \cup BadOut(e.o, [c |-> c], 0, e.p) \cup BadOut(e.o, [rgb |-> r, rgba |-> r \o <<al>>, rgba1 |-> r \o <<One>>], 16, e.p)
  \cup BadIf([rgb |-> cube(e.o.rgb), rgba |-> cube(e.o.rgba), rgba1 |-> cube(e.o.rgba1)])
\* hue, the short way: either way at half a turn
Blend(a, b, t) == a ++ (Short(a, b) ** t)
BlendOther(a, b, t) == LET d == Short(a, b) IN a ++ ((IF Lt(d, Zero) THEN d ++ N(360) ELSE d -- N(360)) ** t)
Half(a, b, p) == Sgn(Widen(N(180) -- Abs(Exact(Short(a, b))), Abs(a) ++ Abs(b)), 16, p) <= 0
MixStep(e) ==
  LET c == V(e, "c") d == V(e, "d") t == K(e, "t") big == (N(360) ++ Abs(c[1])) ++ Abs(d[1]) IN
  Self(e) \cup Frame(e) \cup BadOut(e.o, [mix0 |-> VExact(c), mix1 |-> VExact(d)], 0, e.p)
  \cup BadIf([mix |-> Every(e.o.mix, LAMBDA x :
       \/ Eq(t, 0) /\ WithinSeq(x, VExact(c), 0, e.p)
       \/ Eq(t, 1) /\ WithinSeq(x, VExact(d), 0, e.p)
       \/ /\ InTurn(x[1])
          /\ \/ SameHue(x[1], Widen(Blend(c[1], d[1], t), big), 8, e.p)
             \/ (Half(c[1], d[1], e.p) /\ SameHue(x[1], Widen(BlendOther(c[1], d[1], t), big), 8, e.p))
          /\ Within(x[2], (c[2] ** (One -- t)) ++ (d[2] ** t), 4, e.p) /\ Within(x[3], (c[3] ** (One -- t)) ++ (d[3] ** t), 4, e.p))])
IntStep(e) ==
  LET c == V(e, "c") al == K(e, "al") x == VDiv(c, N(255)) o == One z == Zero
      named == <<z, z, z, o, o, o, o, z, z, z, o, z, z, z, o>>
      unit(obs) == Every(obs, LAMBDA y : \A i \in 1..Len(y) : Within01(y[i], e.p)) IN
  BadOut(e.o, [rgb |-> C3(x), rgba |-> x, rgba1 |-> C3(x) \o <<One>>, named |-> named], 2, e.p)
  \cup BadOut(e.o, [nameda |-> <<z, z, z, o, o, o, o, o, o, z, z, o, z, o, z, o, z, z, o, o>>], 0, e.p)
  \cup BadIf([rnd |-> unit(e.o.rnd), rnda |-> Every(e.o.rnda, LAMBDA y : Eq(y[4], al) /\ \A i \in 1..3 : Within01(y[i], e.p)),
              rnda1 |-> unit(e.o.rnda1) /\ Every(e.o.rnda1, LAMBDA y : Eq(y[4], One)),
              rndh |-> Every(e.o.rndh, LAMBDA y : Within01(y[1] // 360, e.p) /\ Within01(y[2], e.p) /\ Within01(y[3], e.p))])
--------------------------------------------------------------------------------
ColorS0 == <<>>
ColorStep(s, e) == [s |-> s, bad |->
  CASE e.op = "co.rgb" -> RgbStep(e)
    [] e.op = "co.rgba" -> RgbaStep(e)
    [] e.op = "co.conv" -> ConvStep(e)
    [] e.op = "co.hue" -> HueStep(e)
    [] e.op = "co.mix" -> MixStep(e)
    [] e.op = "co.int" -> IntStep(e)
    [] e.op = "crash" -> {"crash"}]
================================================================================
