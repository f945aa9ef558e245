---------------------------------- MODULE BallMC ----------------------------------
(***************************************************************************)
(* Small-scope model of segments against a circle (and a sphere) about the *)
(* origin: ends on a grid.  Law: the reported point is on the boundary and *)
(* everything before it outside; without a hit, the nearest point of the   *)
(* segment is not inside.                                                  *)
(***************************************************************************)
EXTENDS Box
CONSTANTS G, Radii
VARIABLES s, t, r
vars == <<s, t, r>>
Nil == <<0, 0>>
Init == s \in [1..2 -> G] /\ r \in Radii /\ t = Nil
Next == /\ t = Nil /\ t' \in [1..2 -> G] /\ UNCHANGED <<s, r>>
        /\ LET ty == Pick(<<"f", "d">>) IN
           Emit(<<"c2.line", ty, Nil, r, s, Rnd(-2, 2), t', Rnd(-2, 2)>>) /\ Emit(<<"c3.line", ty, 0, Nil, r, Rnd(0, 1), s, 0, t'>>)
           /\ Emit(<<"c2.ball", ty, s, r, t', Rnd(0, 4), s[2], t'[1], 2>>) /\ Emit(<<"c3.ball", ty, s, 1, r, t', Rnd(0, 2), Rnd(0, 4), s[2], 1, t'[1], N("0.5")>>)
Spec == Init /\ [][Next]_vars
S == [i \in 1..2 |-> N(s[i])]
T == [i \in 1..2 |-> N(t[i])]
F == VSub(T, S)
Facts == BallFacts(VZero(2), N(r), S, T, 150)
At(k) == VAdd(S, VScale(F, k))
Clamp(x) == NMin(One, NMax(Zero, x))
Nearest == IF IsZeroV(F) THEN S ELSE At(Clamp(Neg(Dot(F, S)) // LenSqr(F)))
R2 == N(r * r)
Out == Lt(R2, LenSqr(S))
Touch == Facts.hit = {TRUE} => /\ Same(<<LenSqr(At(Facts.t))>>, <<R2>>)
                               /\ \A k \in 0..7 : Lt(R2, LenSqr(At((Facts.t ** N(k)) // 8)))
Decided == (Out /\ ~IsZeroV(F)) => (IF Lt(LenSqr(Nearest), R2) THEN TRUE \in Facts.hit ELSE IF Lt(R2, LenSqr(Nearest)) THEN Facts.hit = {FALSE} ELSE TRUE \in Facts.hit)
Inv == Touch /\ Decided
================================================================================
