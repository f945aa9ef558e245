---------------------------------- MODULE VecMC ----------------------------------
(***************************************************************************)
(* Small-scope model of the vector contract: every pair of vectors with    *)
(* components in Grid (and every factor in Factors).  Checked here: the    *)
(* algebraic laws that make the definitions of Geo the intended ones.      *)
(* Every state is also emitted as calls, so that the implementation is     *)
(* exercised on the whole scope.                                           *)
(***************************************************************************)
EXTENDS Geo
CONSTANTS Dim, Grid, Factors
VARIABLES a, b, k
vars == <<a, b, k>>

Vals == [1..Dim -> Grid]
A == [i \in 1..Dim |-> N(a[i])]
B == [i \in 1..Dim |-> N(b[i])]
KK == N(k)
Init == a \in Vals /\ b = [i \in 1..Dim |-> 0] /\ k = 1
Next == /\ b' \in Vals /\ k' \in Factors /\ a' = a
        /\ b = [i \in 1..Dim |-> 0] /\ k = 1 \* one step from each start
        /\ IF Dim = 2 THEN Emit(<<"v2.alg", Pick(<<"f", "d">>), a, b', b, k'>>) /\ Emit(<<"v2.seg", "d", a, b', b', <<k', 1>> >>)
           ELSE IF Dim = 3 THEN Emit(<<"v3.alg", Pick(<<"f", "d">>), a, b', k'>>) /\ Emit(<<"v.conv", "d", a, b'[1], b'[2]>>)
           ELSE Emit(<<"v4.alg", Pick(<<"f", "d">>), a, b', k'>>)
Spec == Init /\ [][Next]_vars

Commutes == VEq(VAdd(A, B), VAdd(B, A)) /\ Eq(Dot(A, B), Dot(B, A))
Linear == /\ VEq(VScale(VAdd(A, B), KK), VAdd(VScale(A, KK), VScale(B, KK)))
          /\ Eq(Dot(VScale(A, KK), B), Dot(A, B) ** KK)
Inverse == VEq(VSub(VAdd(A, B), B), A) /\ (k # 0 => VEq(VDiv(VScale(A, KK), KK), A))
CauchySchwarz == Le(Dot(A, B) ** Dot(A, B), LenSqr(A) ** LenSqr(B))
Norm == Eq(Length(A) ** Length(A), LenSqr(A)) \/ ~Eq(Sgn((Length(A) ** Length(A)) -- LenSqr(A), 1, 90), 1)
Polarisation == Eq(LenSqr(VAdd(A, B)) -- LenSqr(VSub(A, B)), Dot(A, B) ** 4)
CrossLaws == Dim = 3 => /\ VEq(Cross(A, B), VNeg(Cross(B, A)))
                        /\ Eq(Dot(Cross(A, B), A), 0) /\ Eq(Dot(Cross(A, B), B), 0)
                        /\ Eq(LenSqr(Cross(A, B)), (LenSqr(A) ** LenSqr(B)) -- (Dot(A, B) ** Dot(A, B)))
                        /\ VEq(Cross(Unit(3, 1), Unit(3, 2)), Unit(3, 3))
PerpLaws == Dim = 2 => /\ Eq(Perp(A, B), Neg(Perp(B, A)))
                       /\ Eq(Perp(A, B) ** Perp(A, B), (LenSqr(A) ** LenSqr(B)) -- (Dot(A, B) ** Dot(A, B)))
MinMax == /\ VEq(VAdd(VMin(A, B), VMax(A, B)), VAdd(A, B))
          /\ \A i \in 1..Dim : Le(VMin(A, B)[i], VMax(A, B)[i])
Inv == Commutes /\ Linear /\ Inverse /\ CauchySchwarz /\ Polarisation /\ CrossLaws /\ PerpLaws /\ MinMax
================================================================================
