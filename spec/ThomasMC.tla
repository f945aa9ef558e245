-------------------------------- MODULE ThomasMC --------------------------------
(***************************************************************************)
(* Elimination of a tridiagonal system as a state machine, over all small  *)
(* systems: forward steps with pivots, then back substitution; and the     *)
(* cyclic system by a rank-one correction.  Laws: completion gives the     *)
(* solution of the full matrix; the pivots multiply up to the leading      *)
(* principal determinants (so the solver fails iff one of them vanishes);  *)
(* the corrected solution solves the cyclic system unless its denominator  *)
(* vanishes, which happens iff the cyclic matrix is singular.              *)
(***************************************************************************)
EXTENDS LinEq
CONSTANTS Dim, Offs, Diags, Corners
VARIABLES a, b, c, al, be, j, gam, bet, u, ph
vars == <<a, b, c, al, be, j, gam, bet, u, ph>>
Num_(x) == Force([i \in DOMAIN x |-> N(x[i])])
Init == /\ a \in [1..(Dim - 1) -> Offs] /\ c \in [1..(Dim - 1) -> Offs] /\ b \in [1..Dim -> Diags] /\ al \in Corners /\ be \in Corners
        /\ j = 0 /\ gam = <<>> /\ bet = <<>> /\ u = <<>> /\ ph = "start"
R == Force([i \in 1..Dim |-> N(i)])
A == Num_(a)
Bd == IF (al = 0 /\ be = 0) \/ b[1] = 0 THEN Num_(b) ELSE CycDiag(Num_(b), N(al), N(be))
C == Num_(c)
Begin == /\ ph = "start"
         /\ LET ty == Pick(<<"f", "d">>) r == Force([i \in 1..Dim |-> N(i)]) IN
            IF al = 0 /\ be = 0 THEN Emit(<<"tri.solve", ty, Dim, a, b, c, r, r, b, r>>)
            ELSE Emit(<<"tri.cyclic", ty, Dim, a, b, c, al, be, r>>)
         /\ IF Eq(Bd[1], 0) THEN ph' = "fail" /\ UNCHANGED <<j, gam, bet, u>>
            ELSE ph' = "fwd" /\ j' = 1 /\ gam' = <<Zero>> /\ bet' = <<Bd[1]>> /\ u' = <<R[1] // Bd[1]>>
Fwd == /\ ph = "fwd" /\ j < Dim
       /\ LET g == Exact(C[j] // bet[j]) p == Exact(Bd[j + 1] -- (A[j] ** g)) IN
          IF Eq(p, 0) THEN ph' = "fail" /\ UNCHANGED <<j, gam, bet, u>>
          ELSE /\ gam' = Append(gam, g) /\ bet' = Append(bet, p) /\ u' = Append(u, Exact((R[j + 1] -- (A[j] ** u[j])) // p))
               /\ j' = j + 1 /\ ph' = ph
Turn == ph = "fwd" /\ j = Dim /\ ph' = "back" /\ j' = Dim - 1 /\ UNCHANGED <<gam, bet, u>>
Back == /\ ph = "back" /\ j >= 1 /\ u' = Force([u EXCEPT ![j] = Exact(u[j] -- (gam[j + 1] ** u[j + 1]))])
        /\ j' = j - 1 /\ UNCHANGED <<gam, bet, ph>>
End == ph = "back" /\ j = 0 /\ ph' = "done" /\ UNCHANGED <<j, gam, bet, u>>
Next == (Begin \/ Fwd \/ Turn \/ Back \/ End) /\ UNCHANGED <<a, b, c, al, be>>
Spec == Init /\ [][Next]_vars
T == TriRows(A, Bd, C)
Lead(n) == Force([i \in 1..n |-> SubSeq(T[i], 1, n)])
Pivoted == \A n \in 1..Len(bet) : Eq(bet[n] ** (IF n = 1 THEN One ELSE Det(Lead(n - 1))), Det(Lead(n)))
Failed == ph = "fail" => \E n \in 1..Dim : Eq(Det(Lead(n)), 0)
Finished == ph = "done" => /\ \A n \in 1..Dim : Eq(SumSeq(VProd(T[n], u)), R[n])
                           /\ VEq(Force(Pivots(A, Bd, C)), bet) /\ Solves(A, Bd, C, u, R, 100)
Answer == ph \in {"fail", "done"} => (ph = "done") \in Solvable(A, Bd, C, 100)
\* the cyclic system, when its corners are not both zero
Cyc == CycRows(A, Num_(b), C, N(al), N(be))
Corrected == (ph = "done" /\ b[1] # 0 /\ (al # 0 \/ be # 0) /\ Dim > 2) =>
  LET x == CycSolve(A, Num_(b), C, N(al), N(be), R) IN
  /\ Eq(x.den, 0) <=> Eq(Det(Cyc), 0)
  /\ ~Eq(x.den, 0) => \A n \in 1..Dim : Eq(SumSeq(VProd(Cyc[n], x.x)), R[n])
Recursive == ph = "done" => VEq(TriSolution(A, Bd, C, R), u)
Inv == Pivoted /\ Failed /\ Finished /\ Answer /\ Corrected /\ Recursive
================================================================================
