--------------------------------- MODULE Spline ---------------------------------
(***************************************************************************)
(* Contract of cubic segments (property P01) and of the splines fitted     *)
(* through points (property P02).                                          *)
(*                                                                         *)
(* A curve is the sequence of its four Bezier control points; its points   *)
(* are defined by de Casteljau's repeated interpolation, its derivatives   *)
(* by the differences of the control points.                               *)
(***************************************************************************)
EXTENDS Geo

V(e, n) == NumSeq(e.a[n])
K(e, n) == N(e.a[n][1])
Frame(e) == BadBool(e.b, [frame |-> {TRUE}])

--------------------------------------------------------------------------------
\* one round of interpolation between neighbours
Between(P, t) == Force([i \in 1..(Len(P) - 1) |-> VLerp(P[i], P[i + 1], t)])
RECURSIVE Casteljau(_, _)
Casteljau(P, t) == IF Len(P) = 1 THEN P[1] ELSE Casteljau(Between(P, t), t)
Differences(P) == Force([i \in 1..(Len(P) - 1) |-> VSub(P[i + 1], P[i])])
\* the size that rounding relates to
Size(P) == MaxAbs(Flat(P))
At(P, t) == VWiden(Casteljau(P, t), Size(P))
Tangent(P, t) == VWiden(VScale(Casteljau(Differences(P), t), N(3)), Size(P) ** 4)
Bend(P, t) == VWiden(VScale(Casteljau(Differences(Differences(P)), t), N(6)), Size(P) ** 8)
\* the two halves of a subdivision at a: the first and the last points of every round
RECURSIVE FirstOf(_, _)
FirstOf(P, a) == IF Len(P) = 1 THEN <<P[1]>> ELSE <<P[1]>> \o FirstOf(Between(P, a), a)
RECURSIVE LastOf(_, _)
LastOf(P, a) == IF Len(P) = 1 THEN <<P[1]>> ELSE LastOf(Between(P, a), a) \o <<P[Len(P)]>>
Flat4(P) == VWiden(Flat(P), Size(P))
\* the curve with given ends and end tangents
FromHermite(p1, p4, r1, r4) == << p1, VAdd(p1, VDiv(r1, N(3))), VSub(p4, VDiv(r4, N(3))), p4 >>
\* the weights of a point: its coordinates along the control points
OneHot(i) == Force([j \in 1..4 |-> <<IF i = j THEN One ELSE Zero>>])
Weights(t) == Force([i \in 1..4 |-> At(OneHot(i), t)[1]])
DWeights(t) == Force([i \in 1..4 |-> Tangent(OneHot(i), t)[1]])
HermiteOf(i) == LET u == OneHot(i) IN FromHermite(u[1], u[2], u[3], u[4])
HWeights(t) == Force([i \in 1..4 |-> At(HermiteOf(i), t)[1]])
DHWeights(t) == Force([i \in 1..4 |-> Tangent(HermiteOf(i), t)[1]])

HermStep(e) ==
  LET p1 == V(e, "p1") p4 == V(e, "p4") r1 == V(e, "r1") r4 == V(e, "r4") t == K(e, "t")
      P == FromHermite(p1, p4, r1, r4) big == Size(<<p1, p4, r1, r4>>) IN
  BadOut(e.o, [ctl |-> VExact(Flat(<<p1, p4, r1, r4>>)), rev |-> VExact(Flat(<<r4, r1, p4, p1>>)), own |-> VExact(Flat(<<p4, p4, r4, r4>>))], 0, e.p)
  \cup BadOut(e.o, [at |-> VWiden(At(P, t), big), tan |-> VWiden(Tangent(P, t), big ** 4), w |-> HWeights(t), dw |-> DHWeights(t)], 16, e.p)
BezStep(e) ==
  LET P == <<V(e, "p1"), V(e, "p2"), V(e, "p3"), V(e, "p4")>> t == K(e, "t") a == K(e, "a") IN
  BadOut(e.o, [ctl |-> VExact(Flat(P))], 0, e.p)
  \cup BadOut(e.o, [r1 |-> Tangent(P, Zero), r4 |-> Tangent(P, One), at |-> At(P, t), tan |-> Tangent(P, t), w |-> Weights(t), dw |-> DWeights(t),
                    lo |-> Flat4(FirstOf(P, a)), hi |-> Flat4(LastOf(P, a))], 16, e.p)
  \cup Frame(e)
\* the length of the chain of chords between points at equal steps of the parameter
Chord(P, i, n) == Length(VExact(VSub(Casteljau(P, N(i) // N(n)), Casteljau(P, N(i - 1) // N(n)))))
LenStep(e) ==
  LET P == <<V(e, "p1"), V(e, "p2"), V(e, "p3"), V(e, "p4")>> n == e.a.n IN
  BadOut(e.o, [len |-> << Widen(Exact(SumSeq(Force([i \in 1..n |-> Chord(P, i, n)]))), Size(P) ** N(n + 4)) >>], 32, e.p)
\* binormal, tangent, normal
FrenetOk(e, P, t) ==
  LET d == Tangent(P, t) b == Cross(d, Bend(P, t))
      moves == \E i \in 1..3 : Sgn(d[i], 64, e.p) # 0
      bends == \E i \in 1..3 : Sgn(b[i], 64, e.p) # 0 IN
  IF moves /\ bends THEN
     LET dn == Normalized(d) bn == Normalized(b) IN
     BadBool(e.b, [ok |-> {TRUE}]) \cup
     (IF e.b.ok # <<TRUE>> THEN {} ELSE
        BadOut(e.o, [m |-> bn \o dn \o VWiden(Cross(bn, dn), One)], 64, e.p)
        \cup (IF \A i \in 1..3 : Le(Mag(bn[i]) ** 64, Exp2(N(e.p - 12))) THEN BadBool(e.b, [ortho |-> {TRUE}]) ELSE {}))
  \* straight (or standing still), and computed without rounding
  ELSE IF OnGrid(Flat(P)) /\ Eq(Floor(t ** 4), t ** 4) /\ (IsZeroV(d) \/ IsZeroV(b)) THEN BadBool(e.b, [ok |-> {FALSE}])
  ELSE {}
FrameStep(e) ==
  FrenetOk(e, <<V(e, "p1"), V(e, "p2"), V(e, "p3"), V(e, "p4")>>, K(e, "t")) \cup BadBool(e.b, [kept |-> {TRUE}])
\* stepping along: after i steps of d, the point and the tangent at i d
FwdStep(s, e) ==
  LET P == UnFlat(V(e, "p"), 3) d == K(e, "d") i == IF e.w = "start" THEN 0 ELSE s.i + 1 t == N(i) ** d big == Size(P) ** N(8 * (i + 4)) IN
  [s |-> [i |-> i],
   bad |-> BadOut(e.o, [at |-> VWiden(Casteljau(P, t), big), tan |-> VWiden(VScale(Casteljau(Differences(P), t), N(3)), big ** 4)], 4, e.p)
           \cup BadBool(e.b, [alias |-> {TRUE}])]

--------------------------------------------------------------------------------
(* Fitted splines: segment i runs from p[i] by p2[i] and p3[i] to the next point. *)
\* the points the segments run to
Ends(p, closed) == IF closed THEN Tail(p) \o <<p[1]>> ELSE Tail(p)
\* the tangent, and the second derivative, at the end of segment i less those at the start of segment j
TanGap(p, q, x, y, i, j)  == VSub(VSub(q[i], y[i]), VSub(x[j], p[j]))
BendGap(p, q, x, y, i, j) == VSub(VAdd(VSub(q[i], VScale(y[i], N(2))), x[i]), VAdd(VSub(p[j], VScale(x[j], N(2))), y[j]))
StartBend(p, x, y, i) == VAdd(VSub(p[i], VScale(x[i], N(2))), y[i])
EndBend(q, x, y, i)   == VAdd(VSub(q[i], VScale(y[i], N(2))), x[i])
Vanish(v, size, k, p) == \A i \in 1..Len(v) : IsFin(v[i]) /\ Sgn(Widen(v[i], size), k, p) = 0
\* smooth where segments meet
Smooth(p, q, x, y, closed, size, prec) ==
  LET n == Len(x) IN
  \A i \in 1..n : (i < n \/ closed) =>
     LET j == (i % n) + 1 IN
     Vanish(TanGap(p, q, x, y, i, j), size, 64, prec) /\ Vanish(BendGap(p, q, x, y, i, j), size, 64, prec)
Natural(p, q, x, y, size, prec) ==
  LET n == Len(x) IN Vanish(StartBend(p, x, y, 1), size, 64, prec) /\ Vanish(EndBend(q, x, y, n), size, 64, prec)
Clamped(x, y, s, f, size, prec) ==
  LET n == Len(x) IN Vanish(VSub(x[1], s), size, 64, prec) /\ Vanish(VSub(y[n], f), size, 64, prec)
FitStep(e, closed) ==
  LET p == UnFlat(V(e, "p"), 3) q == Ends(p, closed) x == UnFlat(NumSeq(e.o.p2[1]), 3) y == UnFlat(NumSeq(e.o.p3[1]), 3) IN
  Frame(e) \cup BadBool(e.b, [ok |-> {TRUE}]) \cup
  (IF e.b.ok # <<TRUE>> THEN {} ELSE
   IF ~VFin(Flat(x)) \/ ~VFin(Flat(y)) \/ Len(x) # Len(q) \/ Len(y) # Len(q) THEN {"finite"} ELSE
   CASE e.op = "sp.closed" -> LET size == Size(p) IN BadIf([smooth |-> Smooth(p, q, x, y, TRUE, size, e.p)])
     [] e.op = "sp.nat"    -> LET size == Size(p) IN
          BadIf([smooth |-> Smooth(p, q, x, y, FALSE, size, e.p), ends |-> Natural(p, q, x, y, size, e.p)])
     [] e.op = "sp.clamp"  -> LET s == V(e, "s") f == V(e, "e") size == Size(p \o <<s, f>>) IN
          BadIf([smooth |-> Smooth(p, q, x, y, FALSE, size, e.p), ends |-> Clamped(x, y, s, f, size, e.p)]))
--------------------------------------------------------------------------------
SplineS0 == [i |-> 0]
SplineStep(s, e) ==
  IF e.op = "sp.fwd" THEN FwdStep(s, e) ELSE [s |-> s, bad |->
  CASE e.op = "sp.herm" -> HermStep(e)
    [] e.op = "sp.bez" -> BezStep(e)
    [] e.op = "sp.len" -> LenStep(e)
    [] e.op = "sp.frame" -> FrameStep(e)
    [] e.op \in {"sp.nat", "sp.clamp"} -> FitStep(e, FALSE)
    [] e.op = "sp.closed" -> FitStep(e, TRUE)
    [] e.op = "crash" -> {"crash"}]
================================================================================
