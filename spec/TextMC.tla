-------------------------------- MODULE TextMC --------------------------------
(***************************************************************************)
(* A value whose components change one at a time, and its text. Laws: the  *)
(* text of a value is a text of it, and no text is that of two values that *)
(* differ by more than its digits can show; what is not shown (the planes  *)
(* of a frustum) does not matter. Every reachable value is also printed by *)
(* the library, for every type and component.                              *)
(***************************************************************************)
EXTENDS Plain
CONSTANTS Vals
VARIABLES t, a, b
Shown == Types \ {"tri2"}
Start(n) == [i \in 1..n |-> 2 * i + 1]
Init == t \in Shown /\ a = Start(Width[t]) /\ b = a
Say(x) == Emit(<<"ty.text", Pick(<<"f", "d">>), t, 0, N("0.125"), VDiv(NumSeq(x), N(16)), VDiv(NumSeq(x), N(16))>>)
Change == a = b /\ \E i \in 1..Width[t], k \in Vals : k # b[i] /\ b' = [b EXCEPT ![i] = k] /\ UNCHANGED <<t, a>> /\ IF Say(b') THEN TRUE ELSE FALSE
Swap == a = b /\ \E i \in 1..(Width[t] - 1) : b' = [b EXCEPT ![i] = b[i + 1], ![i + 1] = b[i]] /\ UNCHANGED <<t, a>> /\ IF Say(b') THEN TRUE ELSE FALSE
Back == a # b /\ b' = a /\ UNCHANGED <<t, a>>
Next == Change \/ Swap \/ Back
Spec == Init /\ [][Next]_<<t, a, b>>
--------------------------------------------------------------------------------
X == Judged(t, NumSeq(a))
Y == Judged(t, NumSeq(b))
Inv == /\ ShownOk(t, X, Judged(t, a)) /\ ShownOk(t, Y, Judged(t, b))
       /\ (ShownOk(t, X, Judged(t, b)) <=> X = Y)
================================================================================
