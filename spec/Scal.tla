---------------------------------- MODULE Scal ----------------------------------
(***************************************************************************)
(* Contract of interpolation.h and functions.h: I01, I02, S01.             *)
(***************************************************************************)
EXTENDS Geo
V(e, n) == NumSeq(e.a[n])
K(e, n) == N(e.a[n][1])
Half == N("1/2")

--------------------------------------------------------------------------------
(* I01: the easing curves on 0 < t < 1.  In-out curves are two half-size   *)
(* copies of the "in" curve, the second one mirrored.                      *)
Pow(t, n) == CASE n = 1 -> t [] n = 2 -> t ** t [] n = 3 -> (t ** t) ** t
               [] n = 4 -> (t ** t) ** (t ** t) [] n = 5 -> ((t ** t) ** (t ** t)) ** t
InCurve(f, t) ==
  CASE f = "linear" -> t
    [] f = "quadratic" -> Pow(t, 2) [] f = "cubic" -> Pow(t, 3) [] f = "quartic" -> Pow(t, 4) [] f = "quintic" -> Pow(t, 5)
    [] f = "sinusoidal" -> 1 -- Cos((t ** Pi) // 2)
    [] f = "exponential" -> (Exp2((t -- 1) ** 10) -- N("1/1024")) ** N("1024/1023")   \* rescaled to start at 0
    [] f = "exponential2" -> Exp2((t -- 1) ** 20)
    [] f = "circular" -> 1 -- Sqrt(1 -- (t ** t))
    [] f = "pow2" -> Exp2(t) -- 1
Mirror(f, t) == 1 -- InCurve(f, 1 -- t)
InOut(f, t) == IF Lt(t, Half) THEN InCurve(f, t ** 2) // 2 ELSE (1 -- (InCurve(f, 2 -- (t ** 2)) // 2))
\* the modes, in the order of the enumeration
Modes == << <<"linear", "in">>, <<"quadratic", "in">>, <<"cubic", "in">>, <<"pow2", "in">>, <<"sinusoidal", "in">>,
            <<"quadratic", "in">>, <<"quadratic", "out">>, <<"quadratic", "inout">>,
            <<"cubic", "in">>, <<"cubic", "out">>, <<"cubic", "inout">>,
            <<"quartic", "in">>, <<"quartic", "out">>, <<"quartic", "inout">>,
            <<"quintic", "in">>, <<"quintic", "out">>, <<"quintic", "inout">>,
            <<"sinusoidal", "in">>, <<"sinusoidal", "out">>, <<"sinusoidal", "inout">>,
            <<"exponential", "in">>, <<"exponential", "out">>, <<"exponential", "inout">>,
            <<"exponential2", "in">>, <<"exponential2", "out">>, <<"exponential2", "inout">>,
            <<"circular", "in">>, <<"circular", "out">>, <<"circular", "inout">> >>
Ease(m, t) ==
  IF Le(t, 0) THEN Zero ELSE IF Le(1, t) THEN One
  ELSE LET md == Modes[m + 1] IN
       CASE md[2] = "in" -> InCurve(md[1], t) [] md[2] = "out" -> Mirror(md[1], t) [] md[2] = "inout" -> InOut(md[1], t)
Inside(t) == Lt(0, t) /\ Lt(t, 1)
\* every evaluation may add numbers of size about ten; the exponential modes are documented (and
\* tested) with constants rounded to six digits, which costs them 3e-6
EaseX(m, t, p) ==
  IF ~Inside(t) THEN Ease(m, t)
  ELSE IF m \in 20..22 THEN Widen(Ease(m, t), 8 ++ (N("4e-7") ** Exp2(N(p))))
  ELSE Widen(Ease(m, t), 8)
IpRatio(e) == LET t == K(e, "t") IN
  BadOut(e.o, [r |-> <<EaseX(e.a.m, t, e.p)>>], IF Inside(t) THEN 8 ELSE 0, e.p)
  \cup BadIf([range |-> LET r == N(e.o.r[1][1]) w == IF e.a.m \in 20..22 THEN One ++ (N("4e-7") ** Exp2(N(e.p))) ELSE One
                     IN Sgn(Widen(r, w), 8, e.p) >= 0 /\ Sgn(Widen(1 -- r, w), 8, e.p) >= 0])

LerpS(x, y, t) == x ++ ((y -- x) ** t)
\* whole numbers: the part of the way that is completed, rounded towards the start
IntOk(r, i0, i1, t, p) ==
  LET way == (N(i1) -- i0) ** t  done == N(r) -- i0  d == Abs(way) -- Abs(done) IN
  /\ (Eq(t, 0) => r = i0) /\ (Eq(t, 1) => r = i1)
  /\ (Eq(done, 0) \/ Eq(way, 0) \/ (Lt(done, 0) <=> Lt(way, 0)))
  /\ Sgn(Widen(d, Abs(way)), 64, p) >= 0 /\ Sgn(Widen(1 -- d, Abs(way)), 64, p) >= 0
IpLerp(e) ==
  LET t == K(e, "t") x == K(e, "x") y == K(e, "y") u == EaseX(e.a.m, t, e.p)
      a2 == V(e, "a2") b2 == V(e, "b2") a3 == V(e, "a3") b3 == V(e, "b3")
  IN  BadOut(e.o, [s |-> <<LerpS(x, y, t)>>, v2 |-> VLerp(a2, b2, t), v3 |-> VLerp(a3, b3, t),
                   sm |-> <<LerpS(x, y, u)>>, v2m |-> VLerp(a2, b2, u), v3m |-> VLerp(a3, b3, u)], 16, e.p)
      \cup BadOut(e.o, [self |-> <<x>>], 4, e.p)
      \cup BadIf([int |-> IntOk(e.i.int[1], e.a.i0, e.a.i1, t, e.p), intm |-> IntOk(e.i.intm[1], e.a.i0, e.a.i1, u, e.p)])

--------------------------------------------------------------------------------
(* I02: the turns from angle x to angle y that are at most half a turn     *)
(* (two of them when the angles are opposite up to rounding)               *)
TwoPi == Pi ** 2
Turns(x, y, p) ==
  LET raw == y -- x
      d == raw -- (TwoPi ** Floor((raw ++ Pi) // TwoPi))
      near == Sgn(Widen(Abs(d) -- Pi, Mag(raw) ++ Pi), 8, p) = 0
  IN  IF ~near THEN {d} ELSE {d, IF Lt(d, 0) THEN d ++ TwoPi ELSE d -- TwoPi}
Clamp(d, m) == IF Lt(m, d) THEN m ELSE IF Lt(d, Neg(m)) THEN Neg(m) ELSE d
AnyNum(o, n, choices, k, p) == BadIf([i \in {n} |-> \A j \in 1..Len(o[n]) : \E c \in choices : Within(N(o[n][j][1]), c, k, p)])
IpClerp(e) ==
  LET x == K(e, "x") y == K(e, "y") t == K(e, "t") m == K(e, "m")
      ds == Turns(x, y, e.p)
      big == Mag(x) ++ Mag(y) ++ Pi
      W(z) == Widen(z, big)
      f == N(e.o.ratio[1][1])
  IN  AnyNum(e.o, "r", {W(x ++ (d ** t)) : d \in ds}, 16, e.p)
      \cup AnyNum(e.o, "max", {W(x ++ Clamp(d, m)) : d \in ds}, 16, e.p)
      \cup AnyNum(e.o, "r1", {W(x ++ d) : d \in ds}, 16, e.p)
      \cup BadOut(e.o, [r0 |-> <<x>>], 0, e.p)
      \cup BadIf([ratio |-> \E d \in ds :
             IF Sgn(W(d), 16, e.p) = 0 THEN IsFin(f) /\ Le(0, f) /\ Le(f, 1)
             ELSE LET q == IF Le(Abs(d), m) THEN One ELSE m // Abs(d)
                  IN Within(f, Widen(q, 1 ++ ((q ** big) // Abs(d))), 16, e.p)])

--------------------------------------------------------------------------------
(* S01 *)
FnBasic(e) ==
  LET x == K(e, "x") y == K(e, "y") lo == K(e, "lo") hi == K(e, "hi") i == e.a.i j == e.a.j
      Min(a, b) == IF a < b THEN a ELSE b Max(a, b) == IF a > b THEN a ELSE b
  IN  BadOut(e.o, [min |-> <<NMin(x, y)>>, max |-> <<NMax(x, y)>>, abs |-> <<Abs(x)>>,
                   clip |-> <<IF Lt(hi, x) THEN hi ELSE IF Lt(x, lo) THEN lo ELSE x>>], 0, e.p)
      \cup BadOut(e.o, [rad |-> <<(x ** Pi) // 180>>, deg |-> <<(x ** 180) // Pi>>, deground |-> <<x>>,
                        consts |-> <<Pi, Pi ** 2, Pi // 2, Pi // 4, Pi // 8, Pi // 16, Pi // 3, Pi // 6>>], 8, e.p)
      \cup BadInt(e.i, [imin |-> {Min(i, j)}, imax |-> {Max(i, j)}, iabs |-> {Max(i, 0 - i)}, iclip |-> {Max(Min(i, 7), 0 - 5)},
                        n2x |-> {2}, n2y |-> {1}, n3x |-> {2}, n3y |-> {3}, n3z |-> {1}])
      \cup BadBool(e.b, [limits |-> {TRUE}])
\* arguments beyond the domain count as its ends
FnAsin(e) ==
  LET x == K(e, "x") y == NMax(N(-1), NMin(One, x)) s == Sqrt(1 -- (y ** y))
  IN  BadOut(e.o, [asin |-> <<Widen(Exact(Atan2(y, s)), One)>>, acos |-> <<Widen(Exact(Atan2(s, y)), One)>>], 16, e.p)
Rem(x, y) == x -- (y ** Floor(x // y))             \* in [0, y)
Trunc(x) == IF Lt(x, 0) THEN Neg(Floor(Neg(x))) ELSE Floor(x)
Congruent(r, x, y, w, k, p) == LET d == (x -- r) // y n == Floor(d ++ Half) IN Within(r ++ (y ** n), Widen(Exact(x), w), k, p)
FnFmod(e) ==
  LET x == K(e, "x") y == K(e, "y") pos == N(e.o.pos[1][1]) cen == N(e.o.cen[1][1]) IN
  BadOut(e.o, [fmod |-> <<Exact(x -- (y ** Trunc(x // y)))>>], 0, e.p)
  \cup BadIf([pos |-> IsFin(pos) /\ Le(0, pos) /\ Lt(pos, y) /\ Congruent(pos, x, y, y, 4, e.p),
              cen |-> IsFin(cen) /\ Le(Neg(y // 2), cen) /\ Le(cen, y // 2) /\ Congruent(cen, x, y, y, 4, e.p)])
\* response curves: dead zone, then the full range of the curve over the rest
Curve(k, v) == CASE k = 0 -> Zero [] k = 1 -> v [] k = 2 -> Pow(v, 2) [] k = 3 -> Pow(v, 3) [] k = 4 -> InCurve("pow2", v)
                 [] k = 5 -> Widen(InCurve("sinusoidal", v), 1)
Eval(k, x, th) ==
  IF Le(Abs(x), th) THEN Zero
  ELSE LET v == (Abs(x) -- th) // (1 -- th) r == Curve(k, v) IN IF Lt(x, 0) THEN Neg(r) ELSE r
FnEval(e) ==
  LET x == K(e, "x") th == K(e, "th") r == Eval(e.a.k, x, th)
      \* the documented quarter turn 1.57079633 is good to nine digits
      w == IF e.a.k = 5 /\ e.p > 40 THEN Widen(r, N("4e7")) ELSE r
  IN  BadOut(e.o, [r |-> <<w>>, neg |-> <<Neg(w)>>], 16, e.p)
      \cup (IF Eq(Abs(x), 1) /\ e.a.k > 0 THEN BadOut(e.o, [r |-> <<x>>, neg |-> <<Neg(x)>>], 2, e.p) ELSE {})
      \cup (IF Le(Abs(x), th) THEN BadOut(e.o, [r |-> <<Zero>>, neg |-> <<Zero>>], 0, e.p) ELSE {})
FnRand(e) ==
  LET f == K(e, "f") from == K(e, "from") to == K(e, "to")
      In(n, lo, hi) == LET v == NumSeq(e.o[n][1]) IN /\ Sgn(Widen(v[1] -- lo, Mag(lo) ++ Mag(hi)), 4, e.p) >= 0
                                                    /\ Sgn(Widen(hi -- v[2], Mag(lo) ++ Mag(hi)), 4, e.p) >= 0
      InI(l, h, lo, hi) == e.i[l][1] >= lo /\ e.i[h][1] <= hi
  IN  BadIf([rand |-> In("rand", Zero, f), between |-> In("between", from, to), amp |-> In("amp", Neg(f), f), ampft |-> In("ampft", from, to),
             irand |-> InI("irandlo", "irandhi", 0, e.a.k - 1), ibet |-> InI("ibetlo", "ibethi", e.a.ifrom, e.a.ito - 1),
             iamp |-> InI("iamplo", "iamphi", 0 - e.a.k, e.a.k), iamft |-> InI("iamftlo", "iamfthi", e.a.ifrom, e.a.ito)])
      \cup BadBool(e.b, [ampsigns |-> {TRUE}, iampsigns |-> {TRUE}, unit |-> {TRUE}])

--------------------------------------------------------------------------------
ScalS0 == <<>>
Stateless(bad) == [s |-> <<>>, bad |-> bad]
ScalStep(s, e) ==
  CASE e.op = "ip.ratio" -> Stateless(IpRatio(e))
    [] e.op = "ip.lerp" -> Stateless(IpLerp(e))
    [] e.op = "ip.clerp" -> Stateless(IpClerp(e))
    [] e.op = "fn.basic" -> Stateless(FnBasic(e))
    [] e.op = "fn.asin" -> Stateless(FnAsin(e))
    [] e.op = "fn.fmod" -> Stateless(FnFmod(e))
    [] e.op = "fn.eval" -> Stateless(FnEval(e))
    [] e.op = "fn.rand" -> Stateless(FnRand(e))
    [] e.op = "crash" -> Stateless({"crash"})
================================================================================
