-------------------------------- MODULE ThreeMC --------------------------------
(***************************************************************************)
(* Small-scope model of building planes and meeting three of them: all     *)
(* triples of points of a grid and all triples of given planes.  Laws: the *)
(* plane through three points contains them and its normal sees them turn  *)
(* counterclockwise; three planes have a common point iff their normals    *)
(* are independent, and it lies on each, whatever their order.             *)
(***************************************************************************)
EXTENDS Geom
CONSTANTS Normals, Offsets, G
VARIABLES a, b, c, ph
vars == <<a, b, c, ph>>
Vec(x) == Force([i \in 1..3 |-> N(x[i])])
Pl(x) == Vec(x) \o <<N(x[4])>>
Planes == {<<n[1], n[2], n[3], d>> : n \in Normals, d \in Offsets}
Points == {<<x, y, z, 0>> : x \in G, y \in G, z \in G}
Set == IF ph = "planes" THEN Planes ELSE Points
Init == ph \in {"planes", "points"} /\ a \in Set /\ b = <<>> /\ c = <<>>
Next == /\ b = <<>> /\ b' \in Set /\ c' \in Set /\ UNCHANGED <<a, ph>>
        /\ LET ty == Pick(<<"f", "d">>) v(x) == SubSeq(x, 1, 3) IN
           IF ph = "planes" THEN Emit(<<"pl.three", ty, a, b', c'>>)
           ELSE Emit(<<"pl.hist", ty, "abc", v(a), v(b'), v(c'), v(b'), 0, "tan", v(a), v(b'), v(c'), v(c'), 1, "flip", v(a), 0, "move", 1, v(b'), 2>>)
Spec == Init /\ [][Next]_vars
Done == b # <<>>
Nrm(x, y, z) == Cross(VSub(Vec(y), Vec(x)), VSub(Vec(z), Vec(x)))
Contained == (Done /\ ph = "points") => LET n == Nrm(a, b, c) IN ~IsZeroV(n) =>
   LET r == Through(n, Vec(a)) IN \A x \in {a, b, c} : Same(<<Side(r, Vec(x))>>, <<Zero>>)
Ccw == (Done /\ ph = "points") => LET n == Nrm(a, b, c) IN ~IsZeroV(n) =>
   LET u == Normalized(n) IN Lt(Zero, Det(<<VSub(Vec(b), Vec(a)), VSub(Vec(c), Vec(a)), u>>)) /\ Same(<<LenSqr(u)>>, <<One>>)
                             /\ VEq(Nrm(b, c, a), n) /\ VEq(Nrm(b, a, c), VNeg(n))
X(p, q, r) == Common(Pl(p), Pl(q), Pl(r))
Meeting == (Done /\ ph = "planes") => LET x == X(a, b, c) IN ~Eq(x.det, 0) =>
   /\ \A p \in {a, b, c} : Eq(Side(Pl(p), x.at), 0)
   /\ \A q \in {X(b, c, a), X(b, a, c), X(c, a, b)} : VEq(q.at, x.at)
\* without: some combination of the normals vanishes
Dependent == (Done /\ ph = "planes") => (Eq(X(a, b, c).det, 0) <=> Eq(Det(<<Vec(a), Vec(b), Vec(c)>>), 0))
Inv == Contained /\ Ccw /\ Meeting /\ Dependent
================================================================================
