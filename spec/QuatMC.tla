--------------------------------- MODULE QuatMC ---------------------------------
(***************************************************************************)
(* Small-scope model: all quaternions with components in -1..1 (they       *)
(* include the octahedral rotations once normalised), all pairs.  The laws *)
(* make QMul, QConj, QRot and QSlerp the intended operations.              *)
(***************************************************************************)
EXTENDS Quat
CONSTANTS Comp, Steps, Arcs
VARIABLES a, b, k
Qs == {q \in [1..4 -> Comp] : \E i \in 1..4 : q[i] # 0}
A == [i \in 1..4 |-> N(a[i])]
B == [i \in 1..4 |-> N(b[i])]
AU == QUnit(A)
BU == QUnit(B)
T == N(k) // Steps
W == <<N(1), N(-2), N(3)>>
Init == a \in Qs /\ b = <<0, 0, 0, 1>> /\ k = 0
Next == /\ b' \in Qs /\ k' \in 0..Steps /\ a' = a /\ b = <<0, 0, 0, 1>> /\ k = 0
        /\ IF Arcs THEN /\ Emit(<<"q.lerp", Pick(<<"f", "d">>), a, b', N(k') // Steps>>)
                        /\ Emit(<<"q.max", Pick(<<"f", "d">>), a, b', (N(k') ** 7) // N(2 * Steps)>>)
           ELSE k' = 0 /\ Emit(<<"q.alg", Pick(<<"f", "d">>), a, b', <<1, -2, 3>> >>)
                /\ (IF b'[4] # 0 THEN TRUE ELSE Emit(<<"q.conv", Pick(<<"f", "d">>), a, SubSeq(b', 1, 3), a[4]>>))
Spec == Init /\ [][Next]_<<a, b, k>>

Norms == Eq(LenSqr(QMul(A, B)), LenSqr(A) ** LenSqr(B))
Homomorphism == VEq(QRot(QMul(A, B), W), QRot(A, QRot(B, W)))
Inverse == VEq(QMul(A, QConj(A)), VScale(QOne, LenSqr(A)))
Isometry == Same(<<Length(QRot(AU, W))>>, <<Length(W)>>)
SameRotation == VEq(QRot(VNeg(A), W), QRot(A, W))
AxisFixed == VEq(Cross(QRot(A, SubSeq(A, 1, 3)), SubSeq(A, 1, 3)), VZero(3))
Positive == Same(QRot(QAxisAngle(Unit(3, 3), Pi // 2), Unit(3, 1)), Unit(3, 2))
\* interpolation: ends, unit length, and equal arcs
Opp == Eq(Dot(AU, BU), -1) \/ Sgn(Dot(AU, BU) ++ 1, 256, 100) = 0
Ends == Opp \/ (/\ Same(QSlerp(AU, BU, Zero), AU) /\ Same(QSlerp(AU, BU, One), BU)
                /\ Same(<<Length(QSlerp(AU, BU, T))>>, <<One>>)
                /\ Same(<<Dot(QSlerp(AU, BU, T), AU)>>, <<Cos(QArcAngle(AU, BU) ** T)>>))
\* the exponential inverts the logarithm
\* (the logarithm of a full turn, w < 0 with no axis, is not defined)
LogExp == (IsZeroV(SubSeq(AU, 1, 3)) /\ Lt(AU[4], Zero)) \/ Same(QExp(QLog(AU)), AU)
Inv == Norms /\ Homomorphism /\ Inverse /\ Isometry /\ SameRotation /\ AxisFixed /\ Positive /\ Ends /\ LogExp
================================================================================
