---------------------------------- MODULE BoxMC ----------------------------------
(***************************************************************************)
(* Small-scope model of accumulation: points of a grid are added to a box  *)
(* one by one, in every order.  pts is the set of points so far (the       *)
(* ghost); lo and hi the box that the steps of the contract produce.  Each *)
(* transition is replayed into the library: the box of the points so far,  *)
(* then the next point.                                                    *)
(***************************************************************************)
EXTENDS Box
CONSTANTS D, G
VARIABLES pts, lo, hi
vars == <<pts, lo, hi>>
Points == [1..D -> G]
Rl(q) == [i \in 1..D |-> N(q[i])]
RECURSIVE List(_)
List(S) == IF S = {} THEN <<>> ELSE LET q == CHOOSE q \in S : TRUE IN <<q>> \o List(S \ {q})
RECURSIVE Cat(_)
Cat(l) == IF l = <<>> THEN <<>> ELSE l[1] \o Cat(Tail(l))
Init == \E q \in Points : pts = {q} /\ lo = Rl(q) /\ hi = Rl(q)
Next == \E q \in Points :
  /\ pts' = pts \cup {q}
  /\ LET r == ANext(lo \o hi, [op |-> IF D = 2 THEN "a2.hist" ELSE "a3.hist", w |-> "add", a |-> [x |-> q]])
     IN  lo' = Fst(r) /\ hi' = Snd(r)
  /\ LET l == List(pts) n == Cardinality(pts) ty == Pick(<<"f", "d">>) h == <<"pts", n, n % 2>> \o Cat(l) \o <<"add">> \o q
     IN  Emit(<<IF D = 2 THEN "a2.hist" ELSE "a3.hist", ty>> \o h) /\ Emit(<<IF D = 2 THEN "k2.hist" ELSE "k3.hist", ty>> \o h)
Spec == Init /\ [][Next]_vars
VIEW_ == vars
Encloses == \A q \in pts : Has(lo, hi, Rl(q))
Smallest == \A i \in 1..D : (\E q \in pts : Eq(Rl(q)[i], lo[i])) /\ (\E q \in pts : Eq(Rl(q)[i], hi[i]))
\* the box depends on the set alone: neither on the order nor on repetitions
OrderFree == LET h == Hull([k \in 1..Cardinality(pts) |-> Rl(List(pts)[k])]) IN VEq(lo, h[1]) /\ VEq(hi, h[2])
BothForms == LET c == CenterForm(lo, hi) IN VEq(VSub(Fst(c), Snd(c)), lo) /\ VEq(VAdd(Fst(c), Snd(c)), hi)
Inv == Encloses /\ Smallest /\ OrderFree /\ BothForms
================================================================================
