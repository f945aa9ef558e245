-------------------------------- MODULE VecLerpMC --------------------------------
(***************************************************************************)
(* Small-scope model of angular interpolation: all pairs of non-null grid  *)
(* vectors, the ratio moving from 0 to 1 in Steps steps.                   *)
(***************************************************************************)
EXTENDS Vec
CONSTANTS Grid, Steps
VARIABLES a, b, n
vars == <<a, b, n>>
Vals == [1..3 -> Grid] \ {[i \in 1..3 |-> 0]}
U == NumSeq(a)
W == NumSeq(b)
T(k) == N(k) // Steps
Init == a \in Vals /\ b \in Vals /\ n = 0
Next == /\ n < Steps /\ n' = n + 1 /\ UNCHANGED <<a, b>>
        /\ Emit(<<"v3.slerp", "f", a, b, T(n')>>)
        /\ Emit(<<"v3.slerpmax", "d", a, b, (Pi ** T(n')) ++ N("1/1024")>>)
        /\ IF a[3] = 0 /\ b[3] = 0 THEN Emit(<<"v2.clerp", "f", a[1], a[2], b[1], b[2], T(n')>>)
                                        /\ Emit(<<"v2.clerpmax", "d", a[1], a[2], b[1], b[2], (Pi ** T(n')) ++ N("1/1024")>>)
           ELSE TRUE
Spec == Init /\ [][Next]_vars
\* the interpolated vector, when the plane is determined
Th == AngleBetween3(U, W)
Determined == ~IsZeroV(Cross(U, W))
H == LerpK(Length(U), Length(W), T(n))
R == VScale(RotVec(Normalized(Cross(U, W)), Th ** T(n), Normalized(U)), H)
Ends == Determined => /\ (n = 0 => Same(R, U)) /\ (n = Steps => Same(R, W))
InPlane == Determined => Same(<<Dot(R, Cross(U, W))>>, <<Zero>>)
Proportional == Determined /\ n > 0 => Same(<<AngleBetween3(U, R)>>, <<Th ** T(n)>>)
AtMostHalf == Le(Th, Pi)
Inv == Ends /\ InPlane /\ Proportional /\ AtMostHalf
================================================================================
