---------------------------------- MODULE MatMC ----------------------------------
(***************************************************************************)
(* Model of the matrix algebra of M01: the monoid generated by a few       *)
(* elementary matrices (turns, shears, reflections, scalings, projections  *)
(* and, for affine kinds, translations), explored as a graph.  A state is  *)
(* a product of at most Depth generators; every edge (state, generator) is *)
(* checked against the laws that make the definitions of Geo the intended  *)
(* ones, and emitted as calls of the implementation.                       *)
(***************************************************************************)
EXTENDS Mat
CONSTANTS Kind, Depth, Names
VARIABLES path, m, g
vars == <<path, m, g>>

Num2(s) == [j \in 1..Len(s) |-> [i \in 1..Len(s[j]) |-> N(s[j][i])]]
Gen2 == [turn |-> <<<<0, 1>>, <<-1, 0>>>>, shear |-> <<<<1, 0>>, <<2, 1>>>>, flip |-> <<<<0, 1>>, <<1, 0>>>>,
         grow |-> <<<<2, 0>>, <<0, -3>>>>, cut |-> <<<<1, 1>>, <<1, 1>>>>, one |-> <<<<1, 0>>, <<0, 1>>>>]
Gen3 == [turn |-> <<<<1, 0, 0>>, <<0, 0, 1>>, <<0, -1, 0>>>>, turnz |-> <<<<0, 1, 0>>, <<-1, 0, 0>>, <<0, 0, 1>>>>,
         cycle |-> <<<<0, 1, 0>>, <<0, 0, 1>>, <<1, 0, 0>>>>, shear |-> <<<<1, 0, 0>>, <<2, 1, 0>>, <<0, -1, 1>>>>,
         flip |-> <<<<0, 1, 0>>, <<1, 0, 0>>, <<0, 0, 1>>>>, grow |-> <<<<2, 0, 0>>, <<0, -1, 0>>, <<0, 0, 3>>>>,
         cut |-> <<<<1, 2, 3>>, <<0, 1, 1>>, <<1, 3, 4>>>>, one |-> <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>]
Moves == [turn |-> <<0, 0, 0>>, turnz |-> <<1, 0, 0>>, cycle |-> <<0, 2, 0>>, shear |-> <<0, 0, -1>>, flip |-> <<1, 2, 3>>, grow |-> <<0, 0, 0>>,
          cut |-> <<1, 1, 1>>, one |-> <<2, -1, 3>>]
Proj == <<<<1, 0, 0, 2>>, <<0, 2, 0, 0>>, <<0, 0, 1, -1>>, <<3, 0, 0, 1>>>>   \* not affine
Gen(n) == MExact(CASE Kind = 2 -> Num2(Gen2[n])
            [] Kind = 3 -> Num2(Gen3[n])
            [] n = "proj" -> Num2(Proj)
            [] OTHER -> Affine(Num2(Gen3[n]), Num2(<<Moves[n]>>)[1]))
Dim == IF Kind = 34 THEN 4 ELSE Kind
VecOf == CASE Kind = 2 -> <<N(3), N(-2)>> [] Kind \in {3, 34} -> <<N(1), N(-2), N(3)>> [] Kind = 4 -> <<N(1), N(-2), N(3), N(2)>>
Op == CASE Kind = 2 -> "m2.alg" [] Kind = 3 -> "m3.alg" [] Kind = 34 -> "m34.alg" [] Kind = 4 -> "m4.alg"

Init == path = <<>> /\ m = MIdent(Dim) /\ g = "one"
Next == \E n \in Names :
  /\ Len(path) < Depth
  /\ path' = Append(path, n) /\ g' = n /\ m' = MExact(MMul(m, Gen(n)))
  /\ Emit(<<Op, Pick(<<"f", "d">>), Show(Kind, m'), Show(Kind, Gen(n)), VecOf, N(Len(path) - 1)>>)
Spec == Init /\ [][Next]_vars

A == m
B == Gen(g)
I == MIdent(Dim)
MEq(a, b) == VEq(Flat(a), Flat(b))
W == IF Kind = 34 THEN VecOf \o <<One>> ELSE VecOf
Assoc == \A n \in Names : MEq(MMul(MMul(A, B), Gen(n)), MMul(A, MMul(B, Gen(n))))
Neutral == MEq(MMul(A, I), A) /\ MEq(MMul(I, A), A)
Multiplicative == Eq(Det(MMul(A, B)), Det(A) ** Det(B))
Transposition == MEq(MTrans(MMul(A, B)), MMul(MTrans(B), MTrans(A))) /\ MEq(MTrans(MTrans(A)), A) /\ Eq(Det(MTrans(A)), Det(A))
Adjugate == MEq(MMul(A, Adj(A)), MScaleK(I, Det(A))) /\ MEq(MMul(Adj(A), A), MScaleK(I, Det(A)))
Invertible == Eq(Det(A), 0) \/ Eq(Det(B), 0)
              \/ (/\ MEq(MMul(A, MInv(A)), I) /\ MEq(MMul(MInv(A), A), I) /\ MEq(MInv(MInv(A)), A)
                  /\ MEq(MInv(MMul(A, B)), MMul(MInv(B), MInv(A))))
Action == /\ VEq(MVec(MMul(A, B), W), MVec(A, MVec(B, W))) /\ VEq(VMat(W, MMul(A, B)), VMat(VMat(W, A), B))
          /\ VEq(MVec(A, VMat(W, MTrans(A))), MVec(A, MVec(A, W)))
TraceLaw == Eq(Trace_(MMul(A, B)), Trace_(MMul(B, A)))
\* the three ways to invert an affine matrix agree where they are all defined
AffineLaw == ~(Kind = 34 \/ (Kind = 4 /\ IsTrs(A))) \/ Eq(Det(A), 0)
             \/ (MEq(AffInv(A), MInv(A)) /\ (~MEq(MMul(Cut3(A), MTrans(Cut3(A))), MIdent(3)) \/ MEq(RigidInv(A), MInv(A))))
\* what the contract accepts contains the exact result, and nothing else when no factor is near the identity
Choices == /\ \E x \in ProdChoices(Kind, A, B, 53) : MEq(x, MMul(A, B))
           /\ \A x \in ProdChoices(Kind, A, B, 53) : MEq(x, MMul(A, B))
           /\ (Eq(Det(A), 0) \/ \A x \in InvChoices(Kind, A, 53) : MEq(x, MInv(A)))
Inv == Assoc /\ Neutral /\ Multiplicative /\ Transposition /\ Adjugate /\ Invertible /\ Action /\ TraceLaw /\ AffineLaw /\ Choices
================================================================================
