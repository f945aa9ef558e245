-------------------------------- MODULE BoxAllenMC --------------------------------
(***************************************************************************)
(* Two boxes whose sides stand in every combination of the thirteen        *)
(* relations of intervals (before, meeting, overlapping, starting, inside, *)
(* finishing, equal, and their converses), axis by axis.                   *)
(* Laws: the boxes share a point exactly when no axis separates them, one  *)
(* covers the other exactly when it does so on every axis, and the common  *)
(* part and the hull are taken axis by axis.                               *)
(***************************************************************************)
EXTENDS Box
CONSTANTS D
VARIABLES rel
\* the first interval is 2..4
Rels == { <<0, 1>>, <<0, 2>>, <<0, 3>>, <<0, 4>>, <<0, 6>>, <<2, 3>>, <<2, 4>>, <<2, 6>>, <<3, 4>>, <<3, 6>>, <<4, 6>>, <<5, 6>> } \cup { <<1, 1>>, <<2, 2>>, <<3, 3>>, <<4, 4>>, <<3, 3>> }
Apart(r) == r[2] < 2 \/ r[1] > 4
Inside(r) == r[1] >= 2 /\ r[2] <= 4
Init == rel = <<>>
Seq_(k) == Force([i \in 1..D |-> N(rel'[i][k])])
A1 == Force([i \in 1..D |-> N(2)])
A2 == Force([i \in 1..D |-> N(4)])
HalfOf(lo, hi) == <<VScale(VAdd(lo, hi), N("0.5")), VScale(VSub(hi, lo), N("0.5"))>>
Say == LET ty == Pick(<<"f", "d">>) d == IF D = 2 THEN "2" ELSE "3" b1 == Seq_(1) b2 == Seq_(2)
           tail == IF D = 3 THEN <<b2, N(Rnd(0, 2)) // 2>> ELSE <<>>
       IN  /\ Emit(<<"a" \o d \o ".ask", ty, A1, A2, b1, b2, b1>> \o tail)
           /\ Emit(<<"k" \o d \o ".ask", ty, HalfOf(A1, A2), HalfOf(b1, b2), b1>> \o tail)
           /\ Emit(<<"a" \o d \o ".hist", ty, "pair", A1, A2, "inter", b1, b2, "pair", b1, b2, "inter", A1, A2, "pair", A1, A2, "union", b1, b2>>)
Next == Len(rel) < D /\ \E r \in Rels : rel' = Append(rel, r) /\ (IF Len(rel) = D - 1 THEN Say ELSE TRUE) = TRUE
Spec == Init /\ [][Next]_rel
--------------------------------------------------------------------------------
Laws == Len(rel) = D =>
  LET b1 == Force([i \in 1..D |-> N(rel[i][1])]) b2 == Force([i \in 1..D |-> N(rel[i][2])])
      op == IF D = 2 THEN "a2.hist" ELSE "a3.hist"
      e(w) == [op |-> op, w |-> w, a |-> [x |-> [i \in 1..D |-> rel[i][1]], y |-> [i \in 1..D |-> rel[i][2]]]]
      apart == \E i \in 1..D : Apart(rel[i])
      common == ANext(A1 \o A2, e("inter")) hull == ANext(A1 \o A2, e("union")) IN
  /\ Meet(A1, A2, b1, b2) <=> ~apart
  /\ Meet(b1, b2, A1, A2) <=> ~apart
  /\ Covers(A1, A2, b1, b2) <=> \A i \in 1..D : Inside(rel[i])
  /\ Has(A1, A2, b1) <=> \A i \in 1..D : rel[i][1] \in 2..4
  /\ \A i \in 1..D :
       /\ Eq(hull[i], NMin(N(2), b1[i])) /\ Eq(hull[D + i], NMax(N(4), b2[i]))
       /\ IF apart THEN Eq(common[i], 0) /\ Eq(common[D + i], 0)
          ELSE Eq(common[i], NMax(N(2), b1[i])) /\ Eq(common[D + i], NMin(N(4), b2[i]))
================================================================================
