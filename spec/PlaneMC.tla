-------------------------------- MODULE PlaneMC --------------------------------
(***************************************************************************)
(* Small-scope model of a path against a plane: a point walks over a grid, *)
(* every step is a segment given to hits/intersects.  Laws: the number of  *)
(* hits of the walk is the number of times it changed from the closed      *)
(* front to the open back (so a path never slips through, even by way of   *)
(* points of the plane, and is never hit twice for one passage); a step    *)
(* meets the plane iff it has a point on it and is not parallel; the       *)
(* reported point is on the plane and on the step; a ray along the step    *)
(* meets the plane no later than the step does; flipping the plane negates *)
(* sides and keeps meetings.                                               *)
(***************************************************************************)
EXTENDS Geom
CONSTANTS Normals, Offsets, G, Depth, Rad
VARIABLES n, d, path, hits
vars == <<n, d, path, hits>>
\* normals are given with their length: <<x, y, z, length>>
Pl == Force([i \in 1..3 |-> N(n[i]) // N(n[4])]) \o <<N(d)>>
Vec(x) == Force([i \in 1..3 |-> N(x[i])])
P == 150
At(x) == Side(Pl, Vec(x))
Pass(x, y) == PassPlane(Pl, Vec(x), Vec(y), Zero, TRUE, P)
Points == {<<x, y, z>> : x \in G, y \in G, z \in {0, 1}}
IsHit(x, y) == Le(Zero, At(x)) /\ Lt(At(y), Zero)
Init == n \in Normals /\ d \in Offsets /\ path \in {<<x>> : x \in Points} /\ hits = 0
Step(x) ==
  LET s == path[Len(path)] ty == Pick(<<"f", "d">>) nn == SubSeq(n, 1, 3) IN
  /\ path' = Append(path, x)
  /\ hits' = hits + (IF TRUE \in Pass(s, x).hit THEN 1 ELSE 0)
  /\ UNCHANGED <<n, d>>
  /\ IF Len(path) > 1 THEN TRUE ELSE
       Emit(<<"pl.line", ty, nn, d, s, x, Rad>>)
       /\ (IF s = x THEN TRUE ELSE Emit(<<"pl.ray", ty, nn, d, s, VSub(Vec(x), Vec(s))>>))
       /\ Emit(<<"pl.ask", ty, nn, d, s, x, Rad>>)
Next == Len(path) <= Depth /\ \E x \in Points : Step(x)
Spec == Init /\ [][Next]_vars
S == path[Len(path) - 1]
T == path[Len(path)]
Moved == Len(path) > 1
RECURSIVE Changes(_)
Changes(k) == IF k = 1 THEN 0 ELSE Changes(k - 1) + (IF IsHit(path[k - 1], path[k]) THEN 1 ELSE 0)
Counted == hits = Changes(Len(path))
\* between two hits the walk came back to the front
Alternates == hits <= Cardinality({k \in 1..Len(path) : Le(Zero, At(path[k])) /\ (k = 1 \/ Lt(At(path[k - 1]), Zero))})
Last == Pass(S, T)
OnBoth == (Moved /\ Last.meet = {TRUE}) => LET x == VLerp(Vec(S), Vec(T), Last.t) IN
            Eq(Side(Pl, x), 0) /\ Le(Zero, Last.t) /\ Le(Last.t, One)
Meets == Moved => Last.meet = {~Eq(At(S), At(T)) /\ Le(At(S) ** At(T), Zero)}
HitMeets == Moved => (Last.hit = {TRUE} => Last.meet = {TRUE})
Flipped == Moved => LET f == PassPlane(VNeg(Pl), Vec(S), Vec(T), Zero, TRUE, P) IN f.meet = Last.meet /\ Eq(Side(VNeg(Pl), Vec(T)), Neg(At(T)))
RayFirst == (Moved /\ S # T) => LET r == RayPlane(Pl, Vec(S), VSub(Vec(T), Vec(S)), TRUE, P) IN
              /\ Last.hit = {TRUE} => r.hit = {TRUE} /\ Eq(r.t, Last.t)
              /\ Last.meet = {TRUE} => r.meet = {TRUE} /\ Eq(r.t, Last.t)
              /\ (r.meet = {TRUE} /\ Le(r.t, One)) => Last.meet = {TRUE}
FootLaw == Moved => LET f == Foot(Pl, Vec(S)) IN
             /\ Eq(Side(Pl, f), 0) /\ Eq(LenSqr(VSub(f, Vec(S))), At(S) ** At(S))
Inv == Counted /\ Alternates /\ OnBoth /\ Meets /\ HitMeets /\ Flipped /\ RayFirst /\ FootLaw
================================================================================
