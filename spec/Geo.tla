---------------------------------- MODULE Geo ----------------------------------
(***************************************************************************)
(* Vectors, matrices and quaternions over the numbers of module Num.       *)
(* A vector is the sequence of its components.  A matrix is the sequence   *)
(* of its COLUMNS (the images of the coordinate axes), which is how the    *)
(* library stores it: M * v = v[1] M[1] + v[2] M[2] + ...  A quaternion is *)
(* <<x, y, z, w>> with w the scalar part.                                  *)
(***************************************************************************)
EXTENDS Num, FiniteSets, TLC

Zero == N(0)
One  == N(1)

RECURSIVE SumTo(_, _)
SumTo(s, n) == IF n = 1 THEN s[1] ELSE SumTo(s, n - 1) ++ s[n]
SumSeq(s) == SumTo(s, Len(s))

--------------------------------------------------------------------------------
(* vectors *)
VAdd(a, b)  == Force([i \in 1..Len(a) |-> a[i] ++ b[i]])
VSub(a, b)  == Force([i \in 1..Len(a) |-> a[i] -- b[i]])
VNeg(a)     == Force([i \in 1..Len(a) |-> Neg(a[i])])
VScale(a, k) == Force([i \in 1..Len(a) |-> a[i] ** k])
VDiv(a, k)  == Force([i \in 1..Len(a) |-> a[i] // k])
VProd(a, b) == Force([i \in 1..Len(a) |-> a[i] ** b[i]])
VMin(a, b)  == Force([i \in 1..Len(a) |-> NMin(a[i], b[i])])
VMax(a, b)  == Force([i \in 1..Len(a) |-> NMax(a[i], b[i])])
VAbs(a)     == Force([i \in 1..Len(a) |-> Abs(a[i])])
Dot(a, b)   == SumSeq(VProd(a, b))
LenSqr(a)   == Dot(a, a)
Length(a)   == Sqrt(LenSqr(a))
Perp(a, b)  == (a[1] ** b[2]) -- (a[2] ** b[1])          \* the 2D cross product
Cross(a, b) == << (a[2] ** b[3]) -- (a[3] ** b[2]),
                  (a[3] ** b[1]) -- (a[1] ** b[3]),
                  (a[1] ** b[2]) -- (a[2] ** b[1]) >>
VZero(n) == Force([i \in 1..n |-> Zero])
Unit(n, c) == Force([i \in 1..n |-> IF i = c THEN One ELSE Zero])
IsZeroV(a) == \A i \in 1..Len(a) : Eq(a[i], 0)
VEq(a, b) == \A i \in 1..Len(a) : Eq(a[i], b[i])
VFin(a) == \A i \in 1..Len(a) : IsFin(a[i])
Normalized(a) == VDiv(a, Length(a))
VExact(a) == Force([i \in 1..Len(a) |-> Exact(a[i])])
VWiden(a, e) == Force([i \in 1..Len(a) |-> Widen(a[i], e)])
\* interpolation, in the symmetric form
VLerp(a, b, t) == Force([i \in 1..Len(a) |-> a[i] ++ ((b[i] -- a[i]) ** t)])
RECURSIVE MaxOver(_, _)
MaxOver(s, n) == IF n = 1 THEN s[1] ELSE NMax(MaxOver(s, n - 1), s[n])
MaxAbs(a) == MaxOver(VAbs(a), Len(a))
\* components are small multiples of 1/4: sums and products of a few of them are exact in floating point
OnGrid(a) == \A i \in 1..Len(a) : Le(Abs(a[i]), 64) /\ Eq(Floor(a[i] ** 4), a[i] ** 4)

--------------------------------------------------------------------------------
(* matrices *)
MVec(m, v)  == \* m * v
  Force([i \in 1..Len(m[1]) |-> SumSeq(Force([j \in 1..Len(m) |-> m[j][i] ** v[j]]))])
VMat(v, m)  == Force([j \in 1..Len(m) |-> Dot(v, m[j])])        \* the row vector v times m
MMul(a, b)  == Force([j \in 1..Len(b) |-> MVec(a, b[j])])
MTrans(m)   == Force([j \in 1..Len(m[1]) |-> [i \in 1..Len(m) |-> m[i][j]]])
MScaleK(m, k) == Force([j \in 1..Len(m) |-> VScale(m[j], k)])
MIdent(n)   == Force([j \in 1..n |-> Unit(n, j)])
MDiag(v)    == Force([j \in 1..Len(v) |-> [i \in 1..Len(v) |-> IF i = j THEN v[i] ELSE Zero]])
Trace_(m)   == SumSeq([j \in 1..Len(m) |-> m[j][j]])
MMinor(m, r, c) == \* m without row r and column c
  Force([j \in 1..(Len(m) - 1) |-> [i \in 1..(Len(m) - 1) |->
     m[IF j < c THEN j ELSE j + 1][IF i < r THEN i ELSE i + 1]]])
RECURSIVE Det(_)
Det(m) == IF Len(m) = 1 THEN m[1][1]
          ELSE IF Len(m) = 2 THEN (m[1][1] ** m[2][2]) -- (m[2][1] ** m[1][2])
          ELSE SumSeq(Force([j \in 1..Len(m) |->
                 LET t == m[j][1] ** Det(MMinor(m, 1, j)) IN IF j % 2 = 1 THEN t ELSE Neg(t)]))
\* the adjugate: column j, row i
Adj(m) == Force([j \in 1..Len(m) |-> [i \in 1..Len(m) |->
            LET d == IF Len(m) = 1 THEN One ELSE Det(MMinor(m, j, i)) IN IF (i + j) % 2 = 0 THEN d ELSE Neg(d)]])
MInv(m) == LET d == Det(m) a == Adj(m) IN Force([j \in 1..Len(m) |-> VDiv(a[j], d)])
RECURSIVE Flat(_)
Flat(m) == IF Len(m) = 0 THEN <<>> ELSE m[1] \o Flat(Tail(m))
UnFlat(s, rows) == Force([j \in 1..(Len(s) \div rows) |-> SubSeq(s, (j - 1) * rows + 1, j * rows)])
MExact(m) == Force([j \in 1..Len(m) |-> VExact(m[j])])
MWiden(m, e) == Force([j \in 1..Len(m) |-> VWiden(m[j], e)])
MMaxAbs(m) == MaxAbs(Flat(m))

--------------------------------------------------------------------------------
(* rotations *)
Rot2(a)  == LET c == Cos(a) s == Sin(a) IN << <<c, s>>, <<Neg(s), c>> >>
\* rotation about the coordinate axis i (1, 2, 3) by the angle a, positive sense
RotCoord(i, a) ==
  LET c == Cos(a) s == Sin(a) IN
  CASE i = 1 -> << <<One, Zero, Zero>>, <<Zero, c, s>>, <<Zero, Neg(s), c>> >>
    [] i = 2 -> << <<c, Zero, Neg(s)>>, <<Zero, One, Zero>>, <<s, Zero, c>> >>
    [] i = 3 -> << <<c, s, Zero>>, <<Neg(s), c, Zero>>, <<Zero, Zero, One>> >>
\* Rodrigues: u is a unit vector, c and s the cosine and sine of the angle
RotVecCS(u, c, s, v) ==
  VAdd(VAdd(VScale(v, c), VScale(Cross(u, v), s)), VScale(u, Dot(u, v) ** (1 -- c)))
RotVec(u, a, v) == RotVecCS(u, Cos(a), Sin(a), v)
RotAxis(u, a) == Force([j \in 1..3 |-> RotVec(u, a, Unit(3, j))])

(* quaternions *)
QMul(p, q) ==
  << (((p[4] ** q[1]) ++ (p[1] ** q[4])) ++ (p[2] ** q[3])) -- (p[3] ** q[2]),
     (((p[4] ** q[2]) ++ (p[2] ** q[4])) ++ (p[3] ** q[1])) -- (p[1] ** q[3]),
     (((p[4] ** q[3]) ++ (p[3] ** q[4])) ++ (p[1] ** q[2])) -- (p[2] ** q[1]),
     (((p[4] ** q[4]) -- (p[1] ** q[1])) -- (p[2] ** q[2])) -- (p[3] ** q[3]) >>
QConj(q) == <<Neg(q[1]), Neg(q[2]), Neg(q[3]), q[4]>>
\* the rotation of v by the (unit) quaternion q: the vector part of q v q*
QRot(q, v) == SubSeq(QMul(QMul(q, <<v[1], v[2], v[3], Zero>>), QConj(q)), 1, 3)
QMat(q) == Force([j \in 1..3 |-> QRot(q, Unit(3, j))])
QAxisAngle(u, a) == LET s == Sin(a // 2) IN <<u[1] ** s, u[2] ** s, u[3] ** s, Cos(a // 2)>>

--------------------------------------------------------------------------------
\* equal up to the precision that square roots and transcendental functions are evaluated to (laws)
Same(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Sgn(a[i] -- b[i], 256, 100) = 0

--------------------------------------------------------------------------------
(* acceptance; a result that the contract speaks of and the observation does not have is a bad one *)
\* o: record of observed results; each is a sequence of variants (the API forms
\* that must agree), each variant a sequence of numerals.  E: the expected vector
\* for some of the names.  The names whose observation is not within tolerance:
BadOut(o, E, k, p) == {n \in DOMAIN E : n \notin DOMAIN o \/ ~ \A i \in 1..Len(o[n]) : WithinSeq(o[n][i], E[n], k, p)}
\* b: record of observed truth values (sequences of variants); A: allowed values
BadBool(b, A) == {n \in DOMAIN A : n \notin DOMAIN b \/ ~ \A i \in 1..Len(b[n]) : b[n][i] \in A[n]}
\* i: record of observed integers; A: allowed values
BadInt(r, A) == {n \in DOMAIN A : n \notin DOMAIN r \/ ~ \A j \in 1..Len(r[n]) : r[n][j] \in A[n]}
BadIf(c) == {n \in DOMAIN c : ~c[n]}
\* the truth of "x > 0" when x carries rounding: only decided outside the bound
Decide(x, k, p) == LET s == Sgn(x, k, p) IN IF s > 0 THEN {TRUE} ELSE IF s < 0 THEN {FALSE} ELSE BOOLEAN
================================================================================
