---------------------------------- MODULE RotMC ----------------------------------
(***************************************************************************)
(* Model of M02: an orientation is turned again and again about the axes,  *)
(* by multiples of a Parts-th of a turn.  The orientation is kept both as  *)
(* a matrix and as a quaternion; every path of at most Depth turns is a    *)
(* state.  Invariants: both stand for the same rotation, turning about an  *)
(* axis, about the axis given as a vector and with a quaternion are the    *)
(* same, and everything stays a rotation.  Every state is emitted as calls *)
(* of all the routes the implementation has.                               *)
(***************************************************************************)
EXTENDS Quat
CONSTANTS Parts, Depth, Turns
VARIABLES path, q, was
vars == <<path, q, was>>

Angle(k) == (Pi ** N(2 * k)) // Parts
W == <<N(1), N(-2), N(3)>>
T3 == <<N(2), N(0), N(-1)>>
QC(c, k) == QAxisAngle(Unit(3, c), Angle(k))
Init == path = <<>> /\ q = QOne /\ was = QOne
Next == \E c \in 1..3, k \in Turns :
  /\ Len(path) < Depth
  /\ path' = Append(path, <<c, k>>) /\ was' = q /\ q' = VExact(QMul(QC(c, k), q))
  /\ Emit(<<"m.quat", Pick(<<"f", "d">>), q', T3, W>>)
  /\ Emit(<<"m.slerp", Pick(<<"f", "d">>), q, q', Pick(<<Zero, One, N("0.5"), N("0.25")>>)>>)
  /\ Emit(<<"m.slerpmax", Pick(<<"f", "d">>), q, q', Pick(<<N("0.3"), N(1), N(2), N(4)>>)>>)
  /\ (IF Len(path) > 0 THEN TRUE ELSE
      /\ Emit(<<"m.coord", Pick(<<"f", "d">>), c, Angle(k), T3, W>>)
      /\ Emit(<<"m.axis", Pick(<<"f", "d">>), VScale(Unit(3, c), Pick(<<One, N(2), N("0.25")>>)), Angle(k), T3, W>>)
      /\ \A j \in 1..3 : Emit(<<"m2.slerp", Pick(<<"f", "d">>), Angle(k), Angle(c * k), N(j - 1) // 2, N(j)>>))
  /\ (IF Len(path') # 2 THEN TRUE ELSE
      LET m == QMat(q') i == c j == (c % 3) + 1 IN
      /\ Emit(<<"m.axes", Pick(<<"f", "d">>), i, j, m[i], m[j]>>)
      /\ Emit(<<"m.axes", Pick(<<"f", "d">>), j, i, VAdd(m[j], m[j]), VAdd(m[i], m[j])>>))
Spec == Init /\ [][Next]_vars

M == QMat(q)
C == path[Len(path)][1]
K1 == path[Len(path)][2]
MSame(a, b) == Same(Flat(a), Flat(b))
UnitLength == Same(<<LenSqr(q)>>, <<One>>)
IsRotation == MSame(MMul(M, MTrans(M)), MIdent(3)) /\ Same(<<Det(M)>>, <<One>>)
Composed == path = <<>> \/ MSame(M, MMul(RotCoord(C, Angle(K1)), QMat(was)))
Routes == path = <<>> \/ LET a == Angle(K1) IN
  /\ MSame(RotCoord(C, a), RotAxis(Unit(3, C), a)) /\ MSame(RotCoord(C, a), QMat(QC(C, K1)))
  /\ MSame(RotCoord(C, Neg(a)), MTrans(RotCoord(C, a))) /\ MSame(RotAxis(VNeg(Unit(3, C)), Neg(a)), RotCoord(C, a))
  /\ (C # 3 \/ LET r == RotCoord(3, a) p == Rot2(a) IN \A i, j \in 1..2 : Same(<<r[i][j]>>, <<p[i][j]>>))
Acts == Same(MVec(M, W), QRot(q, W)) /\ Same(<<Length(MVec(M, W))>>, <<Length(W)>>)
\* turning by the same amount about the turned axis, from the other side
Conjugate == path = <<>> \/ LET a == Angle(K1) r == QMat(was) IN MSame(MMul(RotAxis(MVec(r, Unit(3, C)), a), r), MMul(r, RotCoord(C, a)))
\* a quarter turn about z takes x to y
Sense == Same(MVec(RotCoord(3, Pi // 2), Unit(3, 1)), Unit(3, 2)) /\ Same(MVec(RotCoord(1, Pi // 2), Unit(3, 2)), Unit(3, 3))
         /\ Same(MVec(RotCoord(2, Pi // 2), Unit(3, 3)), Unit(3, 1))
Inv == UnitLength /\ IsRotation /\ Composed /\ Routes /\ Acts /\ Conjugate /\ Sense
================================================================================
