--------------------------------- MODULE RotGen ---------------------------------
(* Pseudo-random quaternions, axes and pairs of rotations. *)
EXTENDS GenBase

Tiny == Pick(<<N("1/64"), N("1/1024"), N("1/65536"), N("1/16777216")>>)
\* quaternions of any length (the driver normalises them): half turns, near-identities, coordinate ones
GQuat == LET c == Rnd(1, 10) IN
  CASE c <= 2 -> LET q == Force([i \in 1..4 |-> GInt(1)]) IN IF IsZeroV(q) THEN <<Zero, Zero, Zero, One>> ELSE q
    [] c = 3 -> GNZ(3) \o <<Zero>>
    [] c = 4 -> VScale(GNZ(3), Tiny) \o <<Pick(<<N(1), N(-1), N(3)>>)>>
    [] c = 5 -> GNZ(3) \o <<Tiny>>
    [] OTHER -> GNZ(4)
\* quaternions related to q: same, opposite, near either, perpendicular, independent
GQuatNear(q) == LET c == Rnd(1, 9) r == GQuat IN
  CASE c = 1 -> q
    [] c = 2 -> VNeg(q)
    [] c = 3 -> VAdd(q, VScale(r, Tiny))
    [] c = 4 -> VNeg(VAdd(q, VScale(r, Tiny)))
    [] c = 5 -> <<Neg(q[2]), q[1], Neg(q[4]), q[3]>>
    [] c = 6 -> VAdd(<<Neg(q[2]), q[1], Neg(q[4]), q[3]>>, VScale(r, Tiny))
    [] OTHER -> r
NZ4(q) == IF IsZeroV(q) \/ Lt(LenSqr(q), N("1e-12")) THEN <<One, Zero, Zero, Zero>> ELSE q
GQuatPair == LET q == NZ4(GQuat) IN <<q, NZ4(GQuatNear(q))>>
\* directions at any angle to u: equal, opposite, nearly so
GDirNear(u) == LET c == Rnd(1, 9) IN
  CASE c = 1 -> VScale(u, GPos)
    [] c = 2 -> VNeg(VScale(u, GPos))
    [] c = 3 -> VAdd(u, VScale(GNZ(3), Tiny ** Length(u)))
    [] c \in {4, 5} -> VSub(VScale(GNZ(3), Tiny ** Length(u)), u)
    [] OTHER -> GNZ(3)
NZ3(v) == IF IsZeroV(v) THEN <<One, Zero, Zero>> ELSE v
\* axes of any length
GAxis == LET v == GNZ(3) IN VScale(v, FarOf(v, GFar))
\* angle limits
GLimit == LET c == Rnd(1, 6) IN IF c = 1 THEN N(0) ELSE IF c = 2 THEN N(4) ELSE GHalfTurn
================================================================================
