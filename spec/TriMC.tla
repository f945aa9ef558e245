--------------------------------- MODULE TriMC ---------------------------------
(***************************************************************************)
(* All triangles with corners on a grid and all points of the half grid    *)
(* around them.  Law: the sides test agrees with barycentric coordinates   *)
(* (the point is a convex combination of the corners), for every order of  *)
(* the corners; lines: the distance is that of the nearest point, zero     *)
(* exactly on the line, and no point of the line is nearer.                *)
(***************************************************************************)
EXTENDS Geom
CONSTANTS Top
VARIABLES a, b, c, p
vars == <<a, b, c, p>>
Grid == (0..Top) \X (0..Top)
HalfGrid == (-1..(2 * Top + 1)) \X (-1..(2 * Top + 1))
Init == a \in Grid /\ b \in Grid /\ c \in Grid /\ p = <<>>
Next == /\ p = <<>> /\ p' \in HalfGrid /\ UNCHANGED <<a, b, c>>
        /\ LET ty == Pick(<<"f", "d">>) q == Force([i \in 1..2 |-> N(p'[i]) // 2]) IN
           /\ Emit(<<"t2.has", ty, a, b, c, q>>)
           /\ IF c # <<0, 0>> THEN TRUE ELSE
              /\ Emit(<<"l2.seg", ty, a, b, q, Pick(<<0, 1, N("0.5"), 2>>)>>)
              /\ Emit(<<"l3.seg", ty, a, 1, b, Pick(<<1, 0>>), q, Pick(<<1, 0>>), Pick(<<0, 1, N("0.5"), 2>>)>>)
              /\ IF a = b THEN TRUE ELSE
                 /\ Emit(<<"r2.ray", ty, a, VSub(Force([i \in 1..2 |-> N(b[i])]), Force([i \in 1..2 |-> N(a[i])])), q, Rnd(-2, 2)>>)
                 /\ Emit(<<"r3.ray", ty, 1, a, Rnd(0, 1), VSub(Force([i \in 1..2 |-> N(b[i])]), Force([i \in 1..2 |-> N(a[i])])), 1, q, Rnd(-2, 2)>>)
Spec == Init /\ [][Next]_vars
Vec(x) == Force([i \in 1..2 |-> N(x[i])])
A == Vec(a)
B == Vec(b)
C == Vec(c)
Q == Force([i \in 1..2 |-> N(p[i]) // 2])
Done == p # <<>>
Flat3 == Eq(Area2(A, B, C), 0)
Bary == MVec(MInv(<<VSub(B, A), VSub(C, A)>>), VSub(Q, A))
Convex == Le(Zero, Bary[1]) /\ Le(Zero, Bary[2]) /\ Le(Bary[1] ++ Bary[2], One)
Agree == (Done /\ ~Flat3) => \A t \in {InTri(A, B, C, Q, 24), InTri(A, C, B, Q, 24), InTri(B, C, A, Q, 53)} : t = {Convex}
Foot2 == LET d == VSub(B, A) IN VAdd(A, VScale(d, Dot(VSub(Q, A), d) // LenSqr(d)))
D2 == Off(VSub(B, A), VSub(Q, A))
D3 == Off(VSub(B, A) \o <<Zero>>, VSub(Q, A) \o <<Zero>>)
LineLaw == (Done /\ a # b /\ c = <<0, 0>>) =>
  /\ Same(<<D2 ** D2>>, <<LenSqr(VSub(Q, Foot2))>>) /\ Same(<<D3>>, <<D2>>)
  /\ (Eq(Area2(A, B, Q), 0) <=> Eq(D2, 0))
  /\ \A k \in -2..6 : Le(LenSqr(VSub(Q, Foot2)), LenSqr(VSub(Q, VLerp(A, B, N(k) // 4))))
Inv == Agree /\ LineLaw
================================================================================
