-------------------------------- MODULE PlainMC --------------------------------
(***************************************************************************)
(* Three values of one type; single components change, values are copied.  *)
(* Laws: equality is an equivalence relation that a change of any single   *)
(* component breaks and undoing it restores; closeness is reflexive and    *)
(* symmetric, holds for equal values whatever the margin, is implied by    *)
(* closeness within a smaller margin, and obeys the triangle inequality.   *)
(* Every reachable pair is also put to the library, for every type and     *)
(* every component.                                                        *)
(***************************************************************************)
EXTENDS Plain
CONSTANTS Vals, Margins
VARIABLES t, a, b
Start(n) == [i \in 1..n |-> 0]
Init == t \in Types /\ a = Start(Width[t]) /\ b = a
Say(x, y) == \A m \in Margins : Emit(<<"ty.any", Pick(<<"f", "d">>), t, Pick(<<0, 1>>), N(m) // 4, VDiv(NumSeq(x), N(4)), VDiv(NumSeq(y), N(4))>>)
Diff == {i \in 1..Width[t] : a[i] # b[i]}
\* at most one component is changed
Change == Diff = {} /\ \E i \in 1..Width[t], k \in Vals : k # b[i] /\ b' = [b EXCEPT ![i] = k] /\ UNCHANGED <<t, a>> /\ IF Say(a, b') THEN TRUE ELSE FALSE
Copy == Diff # {} /\ a' = b /\ UNCHANGED <<t, b>> /\ IF Say(b, b) THEN TRUE ELSE FALSE
Undo == Diff # {} /\ b' = a /\ UNCHANGED <<t, a>>
Next == Change \/ Undo \/ (Copy /\ Cardinality({i \in 1..Width[t] : b[i] # 0}) <= 1)
Spec == Init /\ [][Next]_<<t, a, b>>
--------------------------------------------------------------------------------
X == NumSeq(a)
Y == NumSeq(b)
\* a third value, between and beyond
Z == Force([i \in 1..Len(a) |-> IF i = 1 THEN Y[i] ++ N(1) ELSE X[i]])
Eqv == /\ Equal(X, X) /\ (Equal(X, Y) <=> Equal(Y, X)) /\ (Equal(X, Y) <=> Diff = {})
       /\ (Equal(X, Y) /\ Equal(Y, Z) => Equal(X, Z))
Close == \A m \in Margins : LET k == N(m) IN
  /\ Near(X, X, k) = {TRUE} /\ Near(X, Y, k) = Near(Y, X, k) /\ (Equal(X, Y) => Near(X, Y, Zero) = {TRUE})
  /\ \A l \in Margins : (l <= m /\ Near(X, Y, N(l)) = {TRUE} => Near(X, Y, k) = {TRUE})
                        /\ (Near(X, Y, k) = {TRUE} /\ Near(Y, Z, N(l)) = {TRUE} => Near(X, Z, k ++ N(l)) = {TRUE})
Inv == Eqv /\ Close
================================================================================
