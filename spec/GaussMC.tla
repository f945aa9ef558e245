--------------------------------- MODULE GaussMC ---------------------------------
(***************************************************************************)
(* Gauss-Jordan elimination in place, as a state machine over all small    *)
(* matrices and ALL orders of pivots: a step picks any remaining nonzero   *)
(* element, swaps its row to the diagonal, and replaces the matrix and the *)
(* right-hand side; at the end the recorded column interchanges are undone *)
(* in reverse.  Laws: if the elimination completes, the matrix has become  *)
(* its inverse and the right-hand side the solution; it gets stuck iff the *)
(* matrix is singular, whatever the order (so the answer does not depend   *)
(* on the choice of pivots); at every step the remaining system has the    *)
(* same solutions.                                                         *)
(***************************************************************************)
EXTENDS LinEq
CONSTANTS Dim, Entries
VARIABLES m0, m, b, done, swaps, ph, big  \* big: every pivot so far was a largest one
vars == <<m0, m, b, done, swaps, ph, big>>
Idx == 1..Dim
Mat(x) == Force([i \in Idx |-> Force([j \in Idx |-> N(x[i][j])])])
B0 == Force([i \in Idx |-> N(2 * i - 3)])
Init == /\ m0 \in [Idx -> [Idx -> Entries]] /\ m = Mat(m0) /\ b = B0 /\ done = {} /\ swaps = <<>> /\ ph = "pivot" /\ big = TRUE
        /\ Emit(<<"gj.solve", Pick(<<"f", "d">>), Dim, 2, m0, Force([i \in Idx |-> <<N(2 * i - 3), N(Rnd(-3, 3))>>])>>)
SwapAt(s, i, k) == Force([j \in DOMAIN s |-> IF j = i THEN s[k] ELSE IF j = k THEN s[i] ELSE s[j]])
Pivot(r, c) ==
  LET x == SwapAt(m, r, c) y == SwapAt(b, r, c) d == x[c][c]
      prow == VExact(VDiv(Force([x[c] EXCEPT ![c] = One]), d)) pb == Exact(y[c] // d)
      red(i) == VExact(VSub(Force([x[i] EXCEPT ![c] = Zero]), VScale(prow, x[i][c])))
  IN  /\ m' = Force([i \in Idx |-> IF i = c THEN prow ELSE red(i)])
      /\ b' = Force([i \in Idx |-> IF i = c THEN pb ELSE Exact(y[i] -- (pb ** x[i][c]))])
      /\ done' = done \cup {c} /\ swaps' = Append(swaps, <<r, c>>)
      /\ ph' = (IF Cardinality(done) + 1 = Dim THEN "unscramble" ELSE "pivot") /\ UNCHANGED m0
      /\ big' = (big /\ \A i \in Idx \ done, j \in Idx \ done : Le(Abs(m[i][j]), Abs(m[r][c])))
Next ==
  \/ ph = "pivot" /\ \E r \in Idx \ done, c \in Idx \ done : ~Eq(m[r][c], 0) /\ Pivot(r, c)
  \/ ph = "pivot" /\ (\A r \in Idx \ done, c \in Idx \ done : Eq(m[r][c], 0)) /\ ph' = "singular" /\ UNCHANGED <<m0, m, b, done, swaps, big>>
  \/ ph = "unscramble" /\ swaps # <<>> /\ LET s == swaps[Len(swaps)] IN
       /\ m' = Force([i \in Idx |-> SwapAt(m[i], s[1], s[2])])
       /\ swaps' = SubSeq(swaps, 1, Len(swaps) - 1) /\ UNCHANGED <<m0, b, done, ph, big>>
  \/ ph = "unscramble" /\ swaps = <<>> /\ ph' = "solved" /\ UNCHANGED <<m0, m, b, done, swaps, big>>
Spec == Init /\ [][Next]_vars
M0 == Mat(m0)
Singular == Eq(Det(M0), 0)
RowDot(r, x) == SumSeq(VProd(r, x))
Stuck == (ph = "singular" => Singular) /\ (ph = "solved" => ~Singular)
Solved == ph = "solved" =>
  /\ \A i \in Idx : Eq(RowDot(M0[i], b), B0[i])
  /\ \A i, j \in Idx : Eq(SumSeq(Force([k \in Idx |-> M0[i][k] ** m[k][j]])), IF i = j THEN 1 ELSE 0)
  /\ Flat(Inverse(M0)) # <<>> /\ VEq(Flat(Inverse(M0)), Flat(m))
Contract == ph = "singular" => Inverse(M0) = <<>>
Dyadic(x) == Eq(Floor(x ** 64), x ** 64)
Plain == (big /\ Singular /\ NoRounding(M0) /\ ~\E i \in Idx : IsZeroV(M0[i]) \/ \A j \in Idx : Eq(M0[j][i], 0)) => \A i, j \in Idx : Dyadic(m[i][j])
Inv == Stuck /\ Solved /\ Contract /\ Plain
================================================================================
