-------------------------------- MODULE SplineMC --------------------------------
(***************************************************************************)
(* A cubic segment and its evaluation by forward differences, as a state   *)
(* machine: the registers of the difference scheme advance by additions    *)
(* only.  Over all choices of control points from a small set:             *)
(*   - the registers always hold the point and the tangent at i d;         *)
(*   - the curve is the weighted mean of its control points, with weights  *)
(*     that are not negative and add up to 1 (so it stays in their hull);  *)
(*   - the tangent is the derivative of the curve, the bend that of the    *)
(*     tangent (central differences, exact for cubics up to a known term); *)
(*   - the two parts of a subdivision trace the same curve;                *)
(*   - a segment by ends and end tangents meets them, and its weights are  *)
(*     the cubic ones;                                                     *)
(*   - chords never get longer when the steps get coarser.                 *)
(***************************************************************************)
EXTENDS Spline
CONSTANTS Pts, Steps
VARIABLES P, n, i, pt, d1, d2, d3, tn, e1, e2
vars == <<P, n, i, pt, d1, d2, d3, tn, e1, e2>>
VN(x) == Force([k \in 1..Len(x) |-> N(x[k])])
Exacts(v) == VExact(v)
Cv(q) == Force([k \in 1..4 |-> VN(q[k])])
AtR(q, t) == Exacts(Casteljau(q, t))
TanR(q, t) == Exacts(VScale(Casteljau(Differences(q), t), N(3)))
BendR(q, t) == Exacts(VScale(Casteljau(Differences(Differences(q)), t), N(6)))
\* the third derivative is constant
JerkR(q) == LET d == Differences(Differences(Differences(q))) IN Exacts(VScale(d[1], N(6)))
Init == /\ P \in [1..4 -> Pts] /\ n \in Steps /\ i = 0
        /\ LET q == Cv(P) h == One // N(n) a == TanR(q, Zero) b == BendR(q, Zero) j == JerkR(q) IN
           /\ pt = Exacts(q[1])
           /\ d1 = Exacts(VAdd(VAdd(VScale(a, h), VScale(b, (h ** h) // 2)), VScale(j, ((h ** h) ** h) // 6)))
           /\ d2 = Exacts(VAdd(VScale(b, h ** h), VScale(j, (h ** h) ** h)))
           /\ d3 = Exacts(VScale(j, (h ** h) ** h))
           /\ tn = a
           /\ e1 = Exacts(VAdd(VScale(b, h), VScale(j, (h ** h) // 2)))
           /\ e2 = Exacts(VScale(j, h ** h))
Say == LET ty == Pick(<<"f", "d">>) t == One // N(n) IN
       /\ Emit(<<"sp.fwd", ty, P, t, n>>) /\ Emit(<<"sp.len", ty, P, n>>)
       /\ Emit(<<"sp.bez", ty, P, t, One -- t>>) /\ Emit(<<"sp.frame", ty, P, t>>) /\ Emit(<<"sp.frame", ty, P, Pick(<<0, 1>>)>>)
       /\ Emit(<<"sp.herm", ty, P, t>>)
Step == /\ i < n
        /\ IF i = 0 THEN Say ELSE TRUE
        /\ i' = i + 1
        /\ pt' = Exacts(VAdd(pt, d1)) /\ d1' = Exacts(VAdd(d1, d2)) /\ d2' = Exacts(VAdd(d2, d3))
        /\ tn' = Exacts(VAdd(tn, e1)) /\ e1' = Exacts(VAdd(e1, e2))
        /\ UNCHANGED <<P, n, d3, e2>>
Next == Step
Spec == Init /\ [][Next]_vars
--------------------------------------------------------------------------------
T == N(i) // N(n)
Registers(q) == VEq(AtR(q, T), pt) /\ VEq(TanR(q, T), tn)
WeightsOk(q) == LET w == Weights(T) IN
  /\ \A k \in 1..4 : ~Lt(w[k], Zero)
  /\ Eq(SumSeq(w), One) /\ Eq(SumSeq(DWeights(T)), Zero)
  /\ VEq(VAdd(VAdd(VScale(q[1], w[1]), VScale(q[2], w[2])), VAdd(VScale(q[3], w[3]), VScale(q[4], w[4]))), pt)
\* C(t+h) - C(t-h) = 2h C'(t) + h^3/3 C''', C'(t+h) - C'(t-h) = 2h C''(t)
Derivative(q) == LET h == N("1/8") IN
  /\ VEq(VSub(AtR(q, T ++ h), AtR(q, T -- h)), VAdd(VScale(TanR(q, T), h ** 2), VScale(JerkR(q), ((h ** h) ** h) // 3)))
  /\ VEq(VSub(TanR(q, T ++ h), TanR(q, T -- h)), VScale(BendR(q, T), h ** 2))
Ends_(q) == /\ VEq(AtR(q, Zero), q[1]) /\ VEq(AtR(q, One), q[4])
            /\ VEq(TanR(q, Zero), VScale(VSub(q[2], q[1]), N(3))) /\ VEq(TanR(q, One), VScale(VSub(q[4], q[3]), N(3)))
Halves(q) == LET lo == FirstOf(q, T) hi == LastOf(q, T) IN
  \A s \in {Zero, N("1/3"), N("1/2"), One} :
     /\ VEq(AtR(lo, s), AtR(q, s ** T)) /\ VEq(AtR(hi, s), AtR(q, T ++ (s ** (One -- T))))
Reversed(q) == VEq(AtR(<<q[4], q[3], q[2], q[1]>>, One -- T), pt)
HermiteLaw(q) == LET h == FromHermite(q[1], q[2], q[3], q[4]) w == HWeights(T) t2 == T ** T t3 == (T ** T) ** T IN
  /\ VEq(AtR(h, Zero), q[1]) /\ VEq(AtR(h, One), q[2]) /\ VEq(TanR(h, Zero), q[3]) /\ VEq(TanR(h, One), q[4])
  /\ Eq(w[1] ++ w[2], One) /\ Eq(w[2], (t2 ** 3) -- (t3 ** 2)) /\ Eq(w[3], (t3 -- (t2 ** 2)) ++ T) /\ Eq(w[4], t3 -- t2)
  /\ LET b == FromHermite(q[1], q[4], VScale(VSub(q[2], q[1]), N(3)), VScale(VSub(q[4], q[3]), N(3))) IN \A k \in 1..4 : VEq(b[k], q[k])
ChordsOf(q, k) == SumSeq(Force([j \in 1..k |-> Chord(q, j, k)]))
Refined(q) == i = 0 => LET a == ChordsOf(q, n) b == ChordsOf(q, 2 * n)
                           hull == SumSeq(Force([j \in 1..3 |-> Length(VSub(q[j + 1], q[j]))])) IN
  /\ Sgn(b -- a, 256, 100) >= 0 /\ Sgn(hull -- b, 256, 100) >= 0 /\ Sgn(a -- Length(VSub(q[4], q[1])), 256, 100) >= 0
Inv == LET q == Cv(P) IN Registers(q) /\ WeightsOk(q) /\ Derivative(q) /\ Ends_(q) /\ Halves(q) /\ Reversed(q) /\ HermiteLaw(q) /\ Refined(q)
================================================================================
