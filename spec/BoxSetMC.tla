--------------------------------- MODULE BoxSetMC ---------------------------------
(***************************************************************************)
(* Small-scope model of containment and overlap: all pairs of boxes with   *)
(* corners on the grid 0..Top, against their sets of half-grid points.     *)
(***************************************************************************)
EXTENDS Box
CONSTANTS D, Top
VARIABLES a, b
vars == <<a, b>>
Boxes == {x \in [1..D -> 0..Top] \X [1..D -> 0..Top] : \A i \in 1..D : x[1][i] <= x[2][i]}
Rl(q) == [i \in 1..D |-> N(q[i])]
\* twice the half-grid points
Fine == [1..D -> 0..(2 * Top)]
In(x) == {q \in Fine : \A i \in 1..D : 2 * x[1][i] <= q[i] /\ q[i] <= 2 * x[2][i]}
Nil == <<[i \in 1..D |-> 0], [i \in 1..D |-> 0]>>
Init == a \in Boxes /\ b = Nil
Next == /\ b = Nil /\ b' \in Boxes /\ a' = a
        /\ LET ty == Pick(<<"f", "d">>) p == VScale(Rl(b'[2]), N("0.5"))
               tail == IF D = 3 THEN <<Rl(b'[1]), N(Rnd(0, 2)) // 2>> ELSE <<>>
               h(x) == <<VScale(VAdd(Rl(x[1]), Rl(x[2])), N("0.5")), VScale(VSub(Rl(x[2]), Rl(x[1])), N("0.5"))>>
           IN  /\ Emit(<<IF D = 2 THEN "a2.ask" ELSE "a3.ask", ty, a, b', p>> \o tail)
               /\ Emit(<<IF D = 2 THEN "k2.ask" ELSE "k3.ask", ty, h(a), h(b'), p>> \o tail)
               /\ Emit(<<IF D = 2 THEN "a2.hist" ELSE "a3.hist", ty, "pair", a, "inter", b', "union", b', "mul", N("0.5")>>)
Spec == Init /\ [][Next]_vars
A1 == Rl(a[1])
A2 == Rl(a[2])
B1 == Rl(b[1])
B2 == Rl(b[2])
SubsetLaw == Covers(A1, A2, B1, B2) <=> In(b) \subseteq In(a)
MeetLaw == Meet(A1, A2, B1, B2) <=> (In(a) \cap In(b) # {})
Symmetric == Meet(A1, A2, B1, B2) <=> Meet(B1, B2, A1, A2)
PointLaw == \A q \in Fine : Has(A1, A2, VScale(Rl(q), N("0.5"))) <=> q \in In(a)
Common == LET e == [op |-> IF D = 2 THEN "a2.hist" ELSE "a3.hist", w |-> "inter", a |-> [x |-> b[1], y |-> b[2]]] r == ANext(A1 \o A2, e)
          IN  Meet(A1, A2, B1, B2) => \A q \in Fine : Has(Fst(r), Snd(r), VScale(Rl(q), N("0.5"))) <=> q \in In(a) \cap In(b)
Merged == LET e == [op |-> IF D = 2 THEN "a2.hist" ELSE "a3.hist", w |-> "union", a |-> [x |-> b[1], y |-> b[2]]] r == ANext(A1 \o A2, e)
          IN  \A c \in Boxes : (In(a) \subseteq In(c) /\ In(b) \subseteq In(c)) => Covers(Rl(c[1]), Rl(c[2]), Fst(r), Snd(r))
Inv == SubsetLaw /\ MeetLaw /\ Symmetric /\ PointLaw /\ Common /\ Merged
================================================================================
