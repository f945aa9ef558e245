---------------------------------- MODULE RayMC ----------------------------------
(***************************************************************************)
(* Small-scope model of rays and segments against the box 1..2 x 1..2:     *)
(* starts on a half grid around it and all directions on a grid.  The      *)
(* answer of the contract is compared with an independent one: the ray     *)
(* meets the box iff it starts inside or crosses one of the four sides.    *)
(***************************************************************************)
EXTENDS Box
CONSTANTS Far2, Dirs
VARIABLES s, d
vars == <<s, d>>
Lo == <<N(1), N(1)>>
Hi == <<N(2), N(2)>>
P == 150
S == [i \in 1..2 |-> N(s[i]) // 2]
Dv == [i \in 1..2 |-> N(d[i])]
Starts == [1..2 -> 0..Far2]
Ds == {x \in [1..2 -> Dirs] : x[1] # 0 \/ x[2] # 0}
Init == s \in Starts /\ d = <<0, 0>>
Next == /\ d = <<0, 0>> /\ d' \in Ds /\ s' = s
        /\ LET ty == Pick(<<"f", "d">>) z == Pick(<<One, N("1.5"), N(0)>>) w == Pick(<<Zero, Zero, N("0.5")>>) IN
           /\ Emit(<<"a2.ray", ty, Lo, Hi, S, d'>>)
           /\ Emit(<<"a2.line", ty, Lo, Hi, S, VAdd(S, Force([i \in 1..2 |-> N(d'[i])]))>>)
           /\ Emit(<<"a3.ray", ty, Lo, One, Hi, N(2), S, z, d', w>>)
           /\ Emit(<<"a3.ray", ty, One, Lo, N(2), Hi, z, S, w, d'>>)
           /\ Emit(<<"a3.line", ty, Lo, One, Hi, N(2), S, z, VAdd(S, Force([i \in 1..2 |-> N(d'[i])])), z ++ w>>)
Spec == Init /\ [][Next]_vars
R == RayFacts(Lo, Hi, S, Dv, FALSE, P)
L == RayFacts(Lo, Hi, S, Dv, TRUE, P)
\* crossing of the ray s + t d with the side from c to c + u (axis-parallel): t
Corner(i, j) == <<N(i), N(j)>>
Sides == {<<Corner(1, 1), 1>>, <<Corner(1, 2), 1>>, <<Corner(1, 1), 2>>, <<Corner(2, 1), 2>>}
\* the side lies in the line  x_k = c_k  with k the other coordinate
CrossT(x) == LET k == 3 - x[2] IN IF Eq(Dv[k], 0) THEN {} ELSE {(x[1][k] -- S[k]) // Dv[k]}
OnSide(x, t) == LET q == S[x[2]] ++ (Dv[x[2]] ** t) IN Le(x[1][x[2]], q) /\ Le(q, x[1][x[2]] ++ 1)
Crossings == UNION {{t \in CrossT(x) : Le(Zero, t) /\ OnSide(x, t)} : x \in Sides}
Inside == Has(Lo, Hi, S)
Moving == d # <<0, 0>>
RayMeets == Moving => (Inside \/ Crossings # {}) \in R.meet
SegMeets == Moving => (Inside \/ \E t \in Crossings : Le(t, One)) \in L.meet
RayHits == Moving => (IF Inside THEN TRUE \notin R.hit \/ R.hit = BOOLEAN ELSE (Crossings # {}) \in R.hit)
SegHits == Moving => (IF Inside THEN TRUE \notin L.hit \/ L.hit = BOOLEAN ELSE (\E t \in Crossings : Le(t, One)) \in L.hit)
First == (Moving /\ R.hit = {TRUE}) => /\ Has(Lo, Hi, VAdd(S, VScale(Dv, R.t)))
                                       /\ \A k \in 0..7 : ~Has(Lo, Hi, VAdd(S, VScale(Dv, (R.t ** N(k)) // 8)))
Interval == (Moving /\ R.meet = {TRUE}) => /\ Le(R.t1, R.t2)
                                           /\ Has(Lo, Hi, VAdd(S, VScale(Dv, R.t1))) /\ Has(Lo, Hi, VAdd(S, VScale(Dv, R.t2)))
                                           /\ ~Has(Lo, Hi, VAdd(S, VScale(Dv, R.t2 ++ N("1/64"))))
\* the undecided cases are grazing ones only
Strict == Moving => (R.meet = BOOLEAN => \E t \in Crossings : \E c \in {Corner(i, j) : i \in 1..2, j \in 1..2} : VEq(VAdd(S, VScale(Dv, t)), c))
                    \/ (\E i \in 1..2 : \E j \in 1..2 : Eq(Perp(VSub(Corner(i, j), S), Dv), 0)) \/ Inside \/ \E t \in Crossings : Eq(t, 0)
Inv == RayMeets /\ SegMeets /\ RayHits /\ SegHits /\ First /\ Interval /\ Strict
================================================================================
