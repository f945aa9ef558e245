--------------------------------- MODULE QuatGen ---------------------------------
(* Pseudo-random calls within the contract Quat. *)
EXTENDS RotGen, GenLoop

QuatCase(op) ==
  CASE op = "q.alg" -> <<op, Ty, GQuatPair, GVec(3)>>
    [] op = "q.conv" -> <<op, Ty, NZ4(GQuat), GAxis, GAngle>>
    [] op = "q.arc" -> LET u == GAxis IN <<op, Ty, u, NZ3(GDirNear(u))>>
    [] op = "q.lerp" -> <<op, Ty, GQuatPair, GRatio>>
    [] op = "q.max" -> <<op, Ty, GQuatPair, GLimit>>
    [] op = "q.squad" -> LET q == GQuatPair r == GQuatPair IN <<op, Ty, q, r, GRatio>>
================================================================================
