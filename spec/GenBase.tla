-------------------------------- MODULE GenBase --------------------------------
(***************************************************************************)
(* Pseudo-random input classes for generated calls.  The classes are part  *)
(* of the specification: they say which inputs are in contract and make    *)
(* sure the special ones (zero, equal, opposite, parallel, tiny, huge,     *)
(* boundary, representable) are met often.                                 *)
(***************************************************************************)
EXTENDS Geo

Ty == Pick(<<"f", "d">>)
\* ints and grid values are exact in both precisions
GInt(b)  == N(Rnd(0 - b, b))
GGrid    == N(Rnd(-16, 16)) // 4
GGen     == N(Rnd(-32768, 32767)) // N(Rnd(1, 8191))
GWide    == (N(Rnd(-32768, 32767)) // 32768) ** Exp2(N(Rnd(-12, 12)))
GUnit01  == N(Rnd(0, 4096)) // 4096
GSpecial == Pick(<<N(0), N(1), N(-1), N("0.5"), N("-0.5"), N(2), N("1/3"), N("1e-3"), N("100")>>)
GNum == LET c == Rnd(1, 10) IN
        IF c <= 3 THEN GInt(4) ELSE IF c <= 5 THEN GGrid ELSE IF c <= 8 THEN GGen ELSE IF c = 9 THEN GWide ELSE GSpecial
GVecOf(n, c) == Force(CASE c = 1 -> [i \in 1..n |-> GInt(3)]
                  [] c = 2 -> [i \in 1..n |-> GGrid]
                  [] c = 3 -> [i \in 1..n |-> GGen]
                  [] c = 4 -> [i \in 1..n |-> GWide]
                  [] c = 5 -> [i \in 1..n |-> GNum]
                  [] c = 6 -> VScale(Unit(n, Rnd(1, n)), GSpecial)
                  [] c = 7 -> LET k == Exp2(N(Pick(<<-24, -16, 20>>))) IN [i \in 1..n |-> GGrid ** k]
                  \* with zeros; with components that are equal, opposite, or cancel in pairs
                  [] c = 8 -> [i \in 1..n |-> IF Rnd(0, 1) = 0 THEN Zero ELSE GGen]
                  [] c = 9 -> LET x == GGen IN [i \in 1..n |-> IF Rnd(0, 1) = 0 THEN x ELSE Neg(x)]
                  [] c = 10 -> LET x == GGen y == GGen IN [i \in 1..n |-> CASE i = 1 -> x [] i = 2 -> Neg(x) [] i = 3 -> y [] OTHER -> Neg(y)])
GVec(n) == GVecOf(n, Pick(<<1, 1, 2, 2, 3, 3, 3, 3, 4, 4, 5, 5, 6, 6, 7, 8, 8, 9, 10>>))
\* a whole configuration far from the unit scale (squares of its lengths still have their full precision)
GFar == Exp2(N(Pick(<<-58, -40, -27, 27, 40, 57>>)))
\* the same for calculations up to the fourth degree
GFarS == Exp2(N(Pick(<<-24, -20, 20, 25>>)))
\* the scale of a configuration (a sequence of numbers): mostly 1; another one only where differences stay normal numbers
FarOf(v, k) == IF Rnd(1, 6) = 1 /\ OnGrid(v) THEN k ELSE One
\* a vector in some relation to a: independent, equal, opposite, parallel, sharing components
GRel(a) == LET n == Len(a) c == Rnd(1, 12) IN
           CASE c = 1 -> a
             [] c = 2 -> VNeg(a)
             [] c = 3 -> VScale(a, GInt(4))
             [] c = 4 -> Force([i \in 1..n |-> IF Rnd(0, 1) = 0 THEN a[i] ELSE GNum])
             [] c = 5 -> Force([i \in 1..n |-> IF Rnd(0, 1) = 0 THEN Neg(a[i]) ELSE a[i]])
             [] OTHER -> GVec(n)
RECURSIVE GNZ(_)
GNZ(n) == LET v == GVec(n) IN
  IF IsZeroV(v) THEN GNZ(n)
  ELSE IF Rnd(1, 10) # 1 THEN v
  ELSE \* of about unit length, and of unit length up to rounding
       VScale(VExact(Normalized(v)), 1 ++ Pick(<<N("1/64"), N("-1/64"), N("1/512"), N("-1/2048"), N("1/16384"), N("-1/1048576"), N(0), N("0.1")>>))
GPos == LET x == Abs(GNum) IN IF Eq(x, 0) THEN N(1) ELSE x
GNonZero == LET x == GNum IN IF Eq(x, 0) THEN N(1) ELSE x
\* angles: special multiples of pi/12 (rounded), generic, large, zero
Small == Pick(<<N("1/64"), N("1/1024"), N("1/16384"), N("1/65536"), N("1/1048576"), N("1/16777216")>>)
Signed(x) == IF Rnd(1, 2) = 1 THEN x ELSE Neg(x)
GAngle == LET c == Rnd(1, 10) IN
          IF c = 9 THEN Signed(Small) ELSE IF c = 10 THEN ((Pi ** N(Rnd(-4, 4))) // 2) ++ Signed(Small) ELSE
          IF c <= 3 THEN (Pi ** N(Rnd(-36, 36))) // 12 ELSE IF c <= 6 THEN GGen // 8 ELSE IF c = 7 THEN GInt(40) ELSE N(0)
\* angles in 0..pi
GHalfTurn == IF Rnd(1, 8) = 1 THEN Small ELSE IF Rnd(1, 12) = 1 THEN Pi -- Small ELSE (Pi ** N(Rnd(0, 24))) // 24
GRatio == LET c == Rnd(1, 10) IN IF c = 9 THEN Small ELSE IF c = 10 THEN One -- Small ELSE IF c = 1 THEN N(0) ELSE IF c = 2 THEN N(1) ELSE IF c = 3 THEN N("0.5") ELSE GUnit01
================================================================================
