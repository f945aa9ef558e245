-------------------------------- MODULE VecTurnMC --------------------------------
(***************************************************************************)
(* Small-scope model of turning: a vector v of the grid is turned by steps *)
(* of pi/Parts about a coordinate axis (or in the plane); n counts the     *)
(* steps.  The laws tie the rotation definitions of Geo together.          *)
(***************************************************************************)
EXTENDS Geo
CONSTANTS Grid, Parts
VARIABLES v, ax, n
vars == <<v, ax, n>>
Ang(k) == (Pi ** k) // Parts
VV == NumSeq(v)
Init == v \in [1..3 -> Grid] /\ ax \in 1..3 /\ n = 0
Next == /\ n < 2 * Parts
        /\ n' = n + 1 /\ UNCHANGED <<v, ax>>
        /\ Emit(<<"v3.rot", "d", v, Ang(n'), n'>>)
        /\ Emit(<<"v2.rot", "f", v[1], v[2], v[2], v[3], Ang(n'), n'>>)
Spec == Init /\ [][Next]_vars

Rot(k) == RotCoord(ax, Ang(k))
Cur == MVec(Rot(n), VV)
KeepsLength == Same(<<LenSqr(Cur)>>, <<LenSqr(VV)>>)
KeepsAxis == Eq(Cur[ax], VV[ax])
FullTurn == n = 2 * Parts => Same(Cur, VV)
HalfTurn == n = Parts => Same(Cur, [i \in 1..3 |-> IF i = ax THEN VV[i] ELSE Neg(VV[i])])
Composes == n > 0 => Same(MVec(Rot(1), MVec(Rot(n - 1), VV)), Cur)
\* positive sense: a quarter turn about the axis is the cross product with it
Quarter == 2 * n = Parts => Same(Cur, VAdd(Cross(Unit(3, ax), VV), [i \in 1..3 |-> IF i = ax THEN VV[i] ELSE Zero]))
Rodrigues == Same(RotVec(Unit(3, ax), Ang(n), VV), Cur)
Quaternion == Same(QRot(QAxisAngle(Unit(3, ax), Ang(n)), VV), Cur)
Inv == KeepsLength /\ KeepsAxis /\ FullTurn /\ HalfTurn /\ Composes /\ Quarter /\ Rodrigues /\ Quaternion
================================================================================
