---------------------------------- MODULE LinEq ----------------------------------
(***************************************************************************)
(* Contract of TriDiagonal and GaussJordan (property L01).                 *)
(*                                                                         *)
(* Tridiagonal systems are solved without pivoting: success is possible    *)
(* iff no pivot vanishes.  Accuracy is that of backward stability (the     *)
(* residual is small against |L||U||u|); for the cyclic and the dense      *)
(* solver the error is bounded by the conditioning of the system.          *)
(* A matrix here is the sequence of its ROWS, as the dense solver has it.  *)
(***************************************************************************)
EXTENDS Geo

V(e, n) == NumSeq(e.a[n])
K(e, n) == N(e.a[n][1])
Frame(e) == BadBool(e.b, [frame |-> {TRUE}])

--------------------------------------------------------------------------------
(* the pivots of a tridiagonal matrix: lower a, diagonal b, upper c *)
RECURSIVE PivotsTo(_, _, _, _)
PivotsTo(a, b, c, n) == \* the first n pivots, or those up to the first that vanishes
  IF n = 1 THEN <<b[1]>> ELSE
  LET r == PivotsTo(a, b, c, n - 1) l == Len(r) IN
  IF l < n - 1 \/ Eq(r[l], 0) THEN r ELSE Append(r, b[n] -- (a[n - 1] ** (c[n - 1] // r[l])))
Pivots(a, b, c) == Force(PivotsTo(a, b, c, Len(b)))
\* numbers with which elimination is exact in floating point
IsPow2(x) == \E k \in -4..4 : Eq(Abs(x), Exp2(N(k)))
\* whether the tridiagonal system can be solved: three-valued
Solvable(a, b, c, p) ==
  LET v == Pivots(a, b, c) n == Len(v) IN
  IF Eq(b[1], 0) THEN {FALSE}
  ELSE IF n = Len(b) /\ \A i \in 1..n : Sgn(v[i], 64, p) # 0 THEN {TRUE}
  ELSE IF OnGrid(a \o b \o c) /\ \A i \in 1..(n - 1) : IsPow2(v[i]) THEN {n = Len(b) /\ ~Eq(v[n], 0)}
  ELSE BOOLEAN
\* the residuals of u, with their tolerance as magnitude
Residual(a, b, c, v, u, r, i) ==
  LET n == Len(b)
      lo == IF i = 1 THEN Zero ELSE a[i - 1] ** u[i - 1]
      hi == IF i = n THEN Zero ELSE c[i] ** u[i + 1]
      fill == IF i = 1 THEN Zero ELSE (Exact(a[i - 1]) ** (Exact(c[i - 1]) // Exact(v[i - 1]))) ** u[i]
  IN  Widen(((lo ++ (b[i] ** u[i])) ++ hi) -- r[i], (Abs(fill) ** 2) ++ (Abs(v[i]) ** Abs(u[i])))
Solves(a, b, c, u, r, p) ==
  VFin(u) /\ LET v == Pivots(a, b, c) IN \A i \in 1..Len(b) : Sgn(Residual(a, b, c, v, u, r, i), 16, p) = 0
TriStep(e) ==
  LET a == V(e, "a") b == V(e, "b") c == V(e, "c") r == V(e, "r") ok == Solvable(a, b, c, e.p)
      rx == V(e, "rx") ry == V(e, "ry") rz == V(e, "rz") IN
  BadBool(e.b, [ok |-> ok, okv |-> ok]) \cup Frame(e)
  \cup (IF ok # {TRUE} THEN {} ELSE
        BadIf([u |-> Solves(a, b, c, NumSeq(e.o.u[1]), r, e.p), ux |-> Solves(a, b, c, NumSeq(e.o.ux[1]), rx, e.p),
               uy |-> Solves(a, b, c, NumSeq(e.o.uy[1]), ry, e.p), uz |-> Solves(a, b, c, NumSeq(e.o.uz[1]), rz, e.p)]))

--------------------------------------------------------------------------------
(* elimination, exactly.  Rows of the augmented matrix [M | B]; <<>> when M is singular. *)
Row(x, k, i, p, y) == \* row x (number i) after eliminating with the pivot row y (number k)
  IF i = k THEN y ELSE IF Eq(x[k], 0) THEN x ELSE VExact(VSub(x, VScale(y, x[k])))
RECURSIVE Elim(_, _, _)
Elim(rows, k, n) ==
  IF k > n THEN rows ELSE
  LET S == {i \in k..n : ~Eq(rows[i][k], 0)} IN
  IF S = {} THEN <<>> ELSE
  LET i == CHOOSE x \in S : \A y \in S : x <= y
      y == VExact(VDiv(rows[i], rows[i][k]))
      sw == Force([j \in 1..n |-> IF j = i THEN rows[k] ELSE rows[j]])
  IN  Elim(Force([j \in 1..n |-> Row(sw[j], k, j, 0, y)]), k + 1, n)
Augment(m, B) == Force([i \in 1..Len(m) |-> m[i] \o B[i]])
Right(rows, n) == Force([i \in 1..n |-> SubSeq(rows[i], n + 1, Len(rows[i]))])
SolveRows(m, B) == LET r == Elim(Augment(m, B), 1, Len(m)) IN IF r = <<>> THEN <<>> ELSE Right(r, Len(m))
Inverse(m) == SolveRows(m, MIdent(Len(m)))
RowNorm(m) == MaxOver(Force([i \in 1..Len(m) |-> SumSeq(VAbs(m[i]))]), Len(m))
\* what rounding may do to the solution of a system with this matrix, relative to its largest component
Cond(m, inv) == RowNorm(m) ** RowNorm(inv)

(* the cyclic system: corners alpha (lower left) and beta (upper right) *)
TriRows(a, b, c) == LET n == Len(b) IN
  Force([i \in 1..n |-> Force([j \in 1..n |-> IF i = j THEN b[i] ELSE IF j = i - 1 THEN a[j] ELSE IF j = i + 1 THEN c[i] ELSE Zero])])
CycRows(a, b, c, al, be) == LET n == Len(b) m == TriRows(a, b, c) IN
  [m EXCEPT ![1][n] = be, ![n][1] = al]
\* the tridiagonal part the solver works with
CycDiag(b, al, be) == LET n == Len(b) IN
  Force([i \in 1..n |-> IF i = 1 THEN b[1] ** 2 ELSE IF i = n THEN b[n] ++ ((al ** be) // b[1]) ELSE b[i]])
\* forward elimination and back substitution, with the rounding it accumulates as magnitude
RECURSIVE TriFwd(_, _, _, _, _)
TriFwd(a, b, c, r, n) == \* <<pivot, superdiagonal of the previous row, right-hand side>> of the rows 1..n
  IF n = 1 THEN << <<b[1], Zero, r[1] // b[1]>> >> ELSE
  LET f == TriFwd(a, b, c, r, n - 1) l == f[n - 1] g == c[n - 1] // l[1] p == b[n] -- (a[n - 1] ** g)
  IN  Append(f, Force(<<p, g, (r[n] -- (a[n - 1] ** l[3])) // p>>))
RECURSIVE TriBack(_, _)
TriBack(f, i) == IF i = Len(f) THEN <<f[i][3]>> ELSE LET t == TriBack(f, i + 1) IN Force(<<f[i][3] -- (f[i + 1][2] ** t[1])>>) \o t
TriSolution(a, b, c, r) == Force(TriBack(TriFwd(a, b, c, r, Len(b)), 1))
\* the cyclic system as a rank-one change of a tridiagonal one; solvable iff den does not vanish
CycSolve(a, b, c, al, be, r) ==
  LET n == Len(b) d == CycDiag(b, al, be) g == Neg(b[1])
      x == TriSolution(a, d, c, r)
      z == TriSolution(a, d, c, Force([i \in 1..n |-> IF i = 1 THEN g ELSE IF i = n THEN al ELSE Zero]))
      v(y) == y[1] ++ ((be ** y[n]) // g)
      den == One ++ v(z)
  IN  [den |-> den, z |-> z, x |-> IF Eq(den, 0) THEN <<>> ELSE VSub(x, VScale(z, v(x) // den))]
\* numbers so coarse that floating point adds, multiplies and exactly divides them without rounding
Coarse(v) == \A i \in 1..Len(v) : Le(Abs(v[i]), 64) /\ Eq(Floor(v[i] ** 64), v[i] ** 64)
CoarseFwd(a, b, c, r) == LET f == TriFwd(VExact(a), VExact(b), VExact(c), VExact(r), Len(b)) IN \A i \in 1..Len(f) : Coarse(f[i])
CycExact(a, b, c, al, be) ==
  LET n == Len(b) d == CycDiag(b, al, be) IN
  /\ Coarse(a \o b \o c \o d \o <<al, be, be // b[1]>>)
  /\ CoarseFwd(a, d, c, Force([i \in 1..n |-> IF i = 1 THEN Neg(b[1]) ELSE IF i = n THEN al ELSE Zero]))
CycStep(e) ==
  LET a == V(e, "a") b == V(e, "b") c == V(e, "c") r == V(e, "r") al == K(e, "al") be == K(e, "be") n == Len(b) IN
  Frame(e) \cup
  (IF n <= 2 THEN BadBool(e.b, [ok |-> {FALSE}])
   ELSE IF Eq(al, 0) /\ Eq(be, 0) THEN
     LET ok == Solvable(a, b, c, e.p) IN
     BadBool(e.b, [ok |-> ok]) \cup (IF ok # {TRUE} THEN {} ELSE BadIf([x |-> Solves(a, b, c, NumSeq(e.o.x[1]), r, e.p)]))
   ELSE IF Eq(b[1], 0) THEN (IF e.b.ok[1] THEN BadIf([finite |-> VFin(NumSeq(e.o.x[1]))]) ELSE {})
   ELSE
     LET d == CycDiag(b, al, be) ok == Solvable(a, VExact(d), c, e.p) x == CycSolve(a, b, c, al, be, r) IN
     IF e.b.ok[1] /\ ~VFin(NumSeq(e.o.x[1])) THEN {"finite"}
     ELSE IF ok # {TRUE} THEN {}
     \* a singular system whose elimination involves no rounding must be reported
     ELSE IF Eq(x.den, 0) /\ Coarse(x.z) /\ CycExact(a, b, c, al, be) THEN BadBool(e.b, [ok |-> {FALSE}])
     \* the pivots of the part and the correction's denominator are clear of rounding
     ELSE IF Sgn(x.den, 1024, e.p) = 0 THEN {}
     ELSE BadBool(e.b, [ok |-> {TRUE}]) \cup (IF e.b.ok[1] THEN BadOut(e.o, [x |-> x.x], 16, e.p) ELSE {}))

(* dense systems, with any number of right-hand sides *)
\* no rounding can hide it when the matrix is singular: elimination by largest pivots is exact
NoRounding(m) ==
  LET n == Len(m) big == MMaxAbs(m) IN
  \/ \E i \in 1..n : IsZeroV(m[i]) \/ \A j \in 1..n : Eq(m[j][i], 0)
  \/ n <= 3 /\ IsPow2(big) /\ \A x \in {<<i, j>> : i \in 1..n, j \in 1..n} : Eq(m[x[1]][x[2]], 0) \/ Eq(Abs(m[x[1]][x[2]]), big)
GjStep(e) ==
  LET n == e.a.n[1] k == e.a.m[1]
      m == UnFlat(V(e, "a"), n) B == IF k = 0 THEN Force([i \in 1..n |-> <<>>]) ELSE UnFlat(V(e, "b"), k) inv == Inverse(m)
  IN  Frame(e) \cup
      (IF inv = <<>> THEN (IF NoRounding(m) THEN BadBool(e.b, [ok |-> {FALSE}]) ELSE {})
       ELSE LET cond == Cond(m, inv) IN
       IF Le(Exp2(N(e.p - 6)), cond) THEN {}
       ELSE IF e.b.ok # <<TRUE>> THEN {"ok"} ELSE
       LET xs == Force([i \in 1..n |-> Force([j \in 1..k |-> SumSeq(Force([l \in 1..n |-> inv[i][l] ** B[l][j]]))])])
           col(j) == MaxAbs(Force([i \in 1..n |-> xs[i][j]]))
       IN  BadOut(e.o, [inv |-> VWiden(VExact(Flat(inv)), MMaxAbs(inv) ** cond)], 16, e.p)
           \cup (IF k = 0 THEN {} ELSE BadOut(e.o, [x |-> Flat(Force([i \in 1..n |-> Force([j \in 1..k |-> Widen(Exact(xs[i][j]), col(j) ** cond)])]))], 16, e.p)))
--------------------------------------------------------------------------------
LinEqS0 == <<>>
LinEqStep(s, e) == [s |-> s, bad |->
  CASE e.op = "tri.solve" -> TriStep(e)
    [] e.op = "tri.cyclic" -> CycStep(e)
    [] e.op = "gj.solve" -> GjStep(e)
    [] e.op = "crash" -> {"crash"}]
================================================================================
