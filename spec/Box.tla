---------------------------------- MODULE Box ----------------------------------
(***************************************************************************)
(* Contract of AABB2/AABB3 (corner form), CAABB2/CAABB3 (centre form),     *)
(* Circle and Sphere (properties B01, B02, B03, C01).                      *)
(*                                                                         *)
(* A box is the set of points between its corners lo and hi, boundary      *)
(* included.  The abstract state of a history is the box object: the       *)
(* sequence of its stored components (lo and hi, or centre and half size). *)
(***************************************************************************)
EXTENDS Geo

V(e, n) == NumSeq(e.a[n])
K(e, n) == N(e.a[n][1])
Frame(e) == BadBool(e.b, [frame |-> {TRUE}])
Self(e)  == BadBool(e.b, [self |-> {TRUE}])

Flat2 == {"a2.hist", "k2.hist", "a2.ask", "k2.ask", "a2.ray", "a2.line", "c2.ball", "c2.pts", "c2.line"}
Centred == {"k2.hist", "k3.hist", "k2.ask", "k3.ask"}
Dim(e) == IF e.op \in Flat2 THEN 2 ELSE 3
Fst(r) == SubSeq(r, 1, Len(r) \div 2)
Snd(r) == SubSeq(r, (Len(r) \div 2) + 1, Len(r))
Half == N("0.5")
Mid(lo, hi)  == VScale(VAdd(lo, hi), Half)
HalfSize(lo, hi) == VScale(VSub(hi, lo), Half)

\* point sets, by their corners: exact
Has(lo, hi, p) == \A i \in 1..Len(p) : Le(lo[i], p[i]) /\ Le(p[i], hi[i])
Covers(lo, hi, lo2, hi2) == Has(lo, hi, lo2) /\ Has(lo, hi, hi2)
Meet(lo, hi, lo2, hi2) == \A i \in 1..Len(lo) : Le(lo[i], hi2[i]) /\ Le(lo2[i], hi[i])
RECURSIVE MinOf(_, _)
MinOf(pts, n) == IF n = 1 THEN pts[1] ELSE VMin(MinOf(pts, n - 1), pts[n])
RECURSIVE MaxOf(_, _)
MaxOf(pts, n) == IF n = 1 THEN pts[1] ELSE VMax(MaxOf(pts, n - 1), pts[n])
Hull(pts) == <<MinOf(pts, Len(pts)), MaxOf(pts, Len(pts))>>

\* three-valued: the truths that evaluation in floating point may give to x >= 0
AtLeast0(x, exact, p) == IF exact THEN {Le(Zero, x)} ELSE Decide(x, 8, p)
AllOf(sets) == IF {FALSE} \in sets THEN {FALSE} ELSE IF sets \subseteq {{TRUE}} THEN {TRUE} ELSE BOOLEAN

--------------------------------------------------------------------------------
(* B01, B02: the box after a step, as its stored components *)
CenterForm(lo, hi) == Mid(lo, hi) \o HalfSize(lo, hi)
ANext(r, e) ==
  LET lo == Fst(r) hi == Snd(r) c == Mid(lo, hi) IN
  CASE e.w = "start" -> Force([i \in 1..Dim(e) |-> Neg(Half)]) \o Force([i \in 1..Dim(e) |-> Half])
    [] e.w = "pt" -> V(e, "x") \o V(e, "x")
    [] e.w = "pair" -> V(e, "x") \o V(e, "y")
    [] e.w = "pts" -> LET h == Hull(UnFlat(V(e, "pts"), Dim(e))) IN h[1] \o h[2]
    [] e.w = "add" -> VMin(lo, V(e, "x")) \o VMax(hi, V(e, "x"))
    [] e.w = "union" -> VMin(lo, V(e, "x")) \o VMax(hi, V(e, "y"))
    [] e.w = "inter" -> IF Meet(lo, hi, V(e, "x"), V(e, "y")) THEN VMax(lo, V(e, "x")) \o VMin(hi, V(e, "y")) ELSE VZero(2 * Dim(e))
    [] e.w = "move" -> VAdd(lo, V(e, "x")) \o VAdd(hi, V(e, "x"))
    [] e.w = "back" -> VSub(lo, V(e, "x")) \o VSub(hi, V(e, "x"))
    [] e.w \in {"mul", "scale"} -> LET h == VScale(HalfSize(lo, hi), K(e, "k")) IN VSub(c, h) \o VAdd(c, h)
    [] e.w = "div" -> LET h == VDiv(HalfSize(lo, hi), K(e, "k")) IN VSub(c, h) \o VAdd(c, h)
    [] e.w = "form" -> VSub(V(e, "x"), V(e, "y")) \o VAdd(V(e, "x"), V(e, "y"))
KNext(r, e) ==
  LET c == Fst(r) h == Snd(r) IN
  CASE e.w = "start" -> VZero(Dim(e)) \o Force([i \in 1..Dim(e) |-> Half])
    [] e.w = "pt" -> V(e, "x") \o VZero(Dim(e))
    [] e.w = "pair" -> V(e, "x") \o VScale(V(e, "y"), Half)
    [] e.w = "pts" -> LET b == Hull(UnFlat(V(e, "pts"), Dim(e))) IN CenterForm(b[1], b[2])
    [] e.w = "add" -> CenterForm(VMin(VSub(c, h), V(e, "x")), VMax(VAdd(c, h), V(e, "x")))
    [] e.w = "move" -> VAdd(c, V(e, "x")) \o h
    [] e.w = "back" -> VSub(c, V(e, "x")) \o h
    [] e.w = "mul" -> c \o VScale(h, K(e, "k"))
    [] e.w = "div" -> c \o VDiv(h, K(e, "k"))
    [] e.w = "form" -> CenterForm(V(e, "x"), V(e, "y"))
\* steps that only choose among or store the given numbers are exact
StepTol(e) == IF e.w \in {"start", "pt", "pair", "union", "inter"} THEN 0
              ELSE IF e.op \notin Centred /\ e.w \in {"pts", "add"} THEN 0 ELSE 8
\* the measures of a box with the components r
Sizes(e, r) == IF e.op \in Centred THEN VScale(Snd(r), 2) ELSE VExact(VSub(Snd(r), Fst(r)))
RECURSIVE Prod(_, _)
Prod(v, n) == IF n = 1 THEN v[1] ELSE Prod(v, n - 1) ** v[n]
BadLook(e, r) ==
  LET k == e.op \in Centred s == Sizes(e, r) h == VScale(s, Half)
      mid == IF k THEN Fst(r) ELSE Mid(Fst(r), Snd(r))
  IN  BadOut(e.o, [lo |-> IF k THEN VSub(Fst(r), h) ELSE Fst(r), hi |-> IF k THEN VAdd(Fst(r), h) ELSE Snd(r),
                   size |-> s, half |-> h, mid |-> mid], 4, e.p)
      \cup BadOut(e.o, [vol |-> <<Prod(s, Dim(e))>>, rin |-> <<Neg(MaxOver(VNeg(h), Dim(e)))>>, rout |-> <<Length(h)>>], 16, e.p)
      \cup BadBool(e.b, [null |-> {IsZeroV(s)}])
BoxHist(s, e) ==
  LET r == NumSeq(e.o.r[1])
      want == IF e.op \in Centred THEN KNext(s.r, e) ELSE ANext(s.r, e)
      fin == VFin(r) /\ VFin(IF e.w = "start" THEN r ELSE s.r)
  IN  [s |-> [s EXCEPT !.r = r],
       bad |-> IF ~fin THEN (IF e.w \in {"start", "pt", "pair"} THEN {"finite"} ELSE {}) ELSE
               BadOut(e.o, [r |-> want], StepTol(e), e.p) \cup BadLook(e, r)
               \cup (IF "self" \in DOMAIN e.b THEN Self(e) ELSE {})
               \cup (IF "meet" \in DOMAIN e.b THEN BadBool(e.b, [meet |-> {Meet(Fst(s.r), Snd(s.r), V(e, "x"), V(e, "y"))}]) ELSE {})
               \cup (IF "zero" \in DOMAIN e.o THEN BadOut(e.o, [zero |-> VZero(2 * Dim(e))], 0, e.p) ELSE {})]

(* containment and overlap *)
BadBall(e, lo, hi, grid) ==
  IF "q" \notin DOMAIN e.a THEN {} ELSE
  LET q == V(e, "q") r == K(e, "r") ex == grid /\ OnGrid(q \o <<r>>) IN
  BadBool(e.b, [ball |-> AllOf({AtLeast0((q[i] -- r) -- lo[i], ex, e.p) : i \in 1..3} \cup {AtLeast0(hi[i] -- (q[i] ++ r), ex, e.p) : i \in 1..3})])
AAsk(e) ==
  LET x == V(e, "x") y == V(e, "y") z == V(e, "z") w == V(e, "w") p == V(e, "p") IN
  BadBool(e.b, [has |-> {Has(x, y, p)}, covers |-> {Covers(x, y, z, w)}, meet |-> {Meet(x, y, z, w)},
                eq |-> {VEq(x \o y, z \o w)}, ne |-> {~VEq(x \o y, z \o w)}, same |-> {TRUE}, diff |-> {FALSE}])
  \cup BadOut(e.o, [at |-> VAdd(x, VProd(VSub(y, x), p))], 8, e.p)
  \cup BadBall(e, x, y, OnGrid(x \o y)) \cup Frame(e)
KAsk(e) ==
  LET x == V(e, "x") y == V(e, "y") z == V(e, "z") w == V(e, "w") p == V(e, "p")
      lo == VSub(x, y) hi == VAdd(x, y) lo2 == VSub(z, w) hi2 == VAdd(z, w)
      ex == OnGrid(x \o y \o z \o w \o p) I == 1..Dim(e)
      Ge(a, b) == AtLeast0(a -- b, ex, e.p)
  IN  BadBool(e.b, [has |-> AllOf({Ge(p[i], lo[i]) : i \in I} \cup {Ge(hi[i], p[i]) : i \in I}),
                    covers |-> AllOf({Ge(lo2[i], lo[i]) : i \in I} \cup {Ge(hi[i], hi2[i]) : i \in I}),
                    meet |-> AllOf({Ge(hi[i], lo2[i]) : i \in I} \cup {Ge(hi2[i], lo[i]) : i \in I}),
                    eq |-> {VEq(x \o y, z \o w)}, ne |-> {~VEq(x \o y, z \o w)}, same |-> {TRUE}, diff |-> {FALSE}])
      \cup BadOut(e.o, [at |-> VAdd(x, VProd(y, p))], 8, e.p)
      \cup BadBall(e, lo, hi, OnGrid(x \o y)) \cup Frame(e)

--------------------------------------------------------------------------------
(* B03: rays and segments.  Per coordinate, the parameters at which the line enters and leaves the slab. *)
Near(lo, hi, s, d) == Force([i \in 1..Len(s) |-> IF Eq(d[i], 0) THEN Zero ELSE (IF Lt(Zero, d[i]) THEN lo[i] -- s[i] ELSE hi[i] -- s[i]) // d[i]])
Far(lo, hi, s, d)  == Force([i \in 1..Len(s) |-> IF Eq(d[i], 0) THEN Zero ELSE (IF Lt(Zero, d[i]) THEN hi[i] -- s[i] ELSE lo[i] -- s[i]) // d[i]])
\* the best of the values of a set of coordinates, with the uncertainty of all of them
RECURSIVE MaxIn(_, _)
MaxIn(f, S) == LET i == CHOOSE i \in S : TRUE IN
  IF S = {i} THEN f[i] ELSE LET r == MaxIn(f, S \ {i}) b == NMax(f[i], r) IN Widen(b, Mag(f[i]) ++ Mag(r))
RECURSIVE MinIn(_, _)
MinIn(f, S) == LET i == CHOOSE i \in S : TRUE IN
  IF S = {i} THEN f[i] ELSE LET r == MinIn(f, S \ {i}) b == NMin(f[i], r) IN Widen(b, Mag(f[i]) ++ Mag(r))
RayFacts(lo, hi, s, d, seg, p) ==
  LET n == Len(s)
      \* division by powers of two is exact
      ex == OnGrid(lo \o hi \o s \o d) /\ \A i \in 1..n : Eq(d[i], 0) \/ \E k \in -2..5 : Eq(Abs(d[i]), Exp2(N(k)))
      I == {i \in 1..n : ~Eq(d[i], 0)}
      outside == \E i \in (1..n) \ I : Lt(s[i], lo[i]) \/ Lt(hi[i], s[i])
      near == Near(lo, hi, s, d) far == Far(lo, hi, s, d)
      \* the line through the ray meets the box
      crosses == {AtLeast0(far[j] -- near[i], ex, p) : <<i, j>> \in {x \in I \X I : x[1] # x[2]}}
      T1 == MaxIn(near, I) T2 == MinIn(far, I)
      \* starting exactly on the boundary is left open
      enters == IF I = {} THEN {FALSE} ELSE IF Eq(T1, 0) THEN BOOLEAN ELSE AtLeast0(T1, ex, p)
      before == IF seg /\ I # {} THEN {AtLeast0(One -- near[i], ex, p) : i \in I} ELSE {}
      ahead  == {AtLeast0(far[i], ex, p) : i \in I}
  IN  [hit  |-> IF outside THEN {FALSE} ELSE AllOf(crosses \cup before \cup {enters}),
       meet |-> IF outside THEN {FALSE} ELSE AllOf(crosses \cup before \cup ahead),
       t |-> IF I = {} THEN Zero ELSE T1,
       t1 |-> IF I = {} THEN Zero ELSE NMax(Zero, T1),
       t2 |-> IF I = {} THEN One ELSE IF seg THEN NMin(One, T2) ELSE T2]
BadRay(e, lo, hi, s, d, seg) ==
  LET f == RayFacts(lo, hi, s, d, seg, e.p) IN
  BadBool(e.b, [hit |-> f.hit, meet |-> f.meet]) \cup Frame(e)
  \cup (IF e.b.hit[1] /\ TRUE \in f.hit THEN BadOut(e.o, [t |-> <<f.t>>], 8, e.p) ELSE {})
  \cup (IF e.b.meet[1] /\ TRUE \in f.meet THEN BadOut(e.o, [t1 |-> <<f.t1>>, t2 |-> <<f.t2>>], 8, e.p) ELSE {})
ARay(e)  == BadRay(e, V(e, "lo"), V(e, "hi"), V(e, "s"), V(e, "d"), FALSE)
ALine(e) == BadRay(e, V(e, "lo"), V(e, "hi"), V(e, "s"), VExact(VSub(V(e, "e"), V(e, "s"))), TRUE)

--------------------------------------------------------------------------------
(* C01 *)
CBall(e) ==
  LET x == V(e, "x") y == V(e, "y") r == K(e, "r") q == K(e, "q") p == V(e, "p") k == K(e, "k")
      d == Length(VSub(x, y)) far == Length(VSub(p, x))
      ex == OnGrid(x \o y \o p \o <<r, q>>)
      meet == AtLeast0((r ++ q) -- d, ex, e.p)
  IN  BadOut(e.o, [id |-> x \o <<r>>, one |-> VZero(Dim(e)) \o <<One>>], 0, e.p)
      \cup BadOut(e.o, [move |-> VAdd(x, p) \o <<r>>, back |-> VSub(x, p) \o <<r>>, mul |-> x \o <<r ** k>>], 2, e.p)
      \cup (IF Eq(k, 0) THEN {} ELSE BadOut(e.o, [div |-> x \o <<r // k>>], 2, e.p))
      \cup BadBool(e.b, [has |-> AtLeast0(r -- far, ex, e.p), covers |-> AtLeast0((r -- q) -- d, ex, e.p), meet |-> meet,
                         eq |-> {VEq(x, y) /\ Eq(r, q)}, ne |-> {~(VEq(x, y) /\ Eq(r, q))}, same |-> {TRUE}, diff |-> {FALSE}])
      \* the point of the other boundary that faces the centre, and the depth of the overlap
      \cup (IF meet # {TRUE} THEN {} ELSE
            BadOut(e.o, [depth |-> <<(r ++ q) -- d>>], 16, e.p)
            \cup (IF Eq(d, 0) THEN {} ELSE BadOut(e.o, [hit |-> VAdd(y, VScale(VDiv(VSub(x, y), d), q))], 16, e.p)))
      \cup Self(e) \cup Frame(e)
CPts(e) ==
  LET ps == UnFlat(V(e, "pts"), Dim(e)) h == Hull(ps) c == Mid(h[1], h[2])
      ds == Force([i \in 1..Len(ps) |-> Length(VSub(ps[i], c))])
      r == MaxOver(ds, Len(ps))
  IN  BadOut(e.o, [r |-> c \o <<Widen(r, MaxAbs(c))>>], 8, e.p) \cup Self(e)
\* along a segment (seen along z for a circle)
BallFacts(x, r, s, t, p) ==
  LET f == VExact(VSub(t, s)) w == VSub(s, x)
      f2 == LenSqr(f) w2 == LenSqr(w) fw == Dot(f, w)
      disc == (fw ** fw) -- (f2 ** (w2 -- (r ** r)))
      out == Sgn(w2 -- (r ** r), 16, p)
      at == (Neg(fw) -- Sqrt(disc)) // f2
  IN  [t |-> at, inside |-> Sgn(w2 -- (r ** r), 16, p) < 0,
       hit |-> IF IsZeroV(f) THEN {FALSE} ELSE IF out <= 0 THEN BOOLEAN
               ELSE IF Sgn(disc, 32, p) < 0 THEN {FALSE} ELSE IF Lt(disc, Zero) THEN BOOLEAN
               ELSE AllOf({Decide(disc, 32, p), Decide(at, 32, p), Decide(One -- at, 32, p)})]
CLine(e) ==
  LET n == Dim(e) s == SubSeq(V(e, "s"), 1, n) t == SubSeq(V(e, "e"), 1, n)
      f == BallFacts(V(e, "x"), K(e, "r"), s, t, e.p)
  IN  BadBool(e.b, [hit |-> f.hit]) \cup Frame(e)
      \* from the inside nothing is promised but that the forms with and without the point agree
      \cup (IF f.inside /\ {e.b.hit[i] : i \in 1..Len(e.b.hit)} = BOOLEAN THEN {"agree"} ELSE {})
      \cup (IF f.hit # {TRUE} THEN {} ELSE BadOut(e.o, [t |-> <<f.t>>, at |-> VLerp(s, t, f.t)], 32, e.p))

--------------------------------------------------------------------------------
BoxS0 == [r |-> <<>>]
BoxStep(s, e) ==
  IF e.op \in {"a2.hist", "a3.hist", "k2.hist", "k3.hist"} THEN BoxHist(s, e)
  ELSE [s |-> s, bad |->
  CASE e.op \in {"a2.ask", "a3.ask"} -> AAsk(e)
    [] e.op \in {"k2.ask", "k3.ask"} -> KAsk(e)
    [] e.op \in {"a2.ray", "a3.ray"} -> ARay(e)
    [] e.op \in {"a2.line", "a3.line"} -> ALine(e)
    [] e.op \in {"c2.ball", "c3.ball"} -> CBall(e)
    [] e.op \in {"c2.pts", "c3.pts"} -> CPts(e)
    [] e.op \in {"c2.line", "c3.line"} -> CLine(e)
    [] e.op = "crash" -> {"crash"}]
================================================================================
