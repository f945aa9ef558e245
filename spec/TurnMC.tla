---------------------------------- MODULE TurnMC ----------------------------------
(***************************************************************************)
(* Small-scope model of circular interpolation: angles are multiples of    *)
(* pi/Parts (several turns either way); w counts quarters of the way.      *)
(***************************************************************************)
EXTENDS Scal
CONSTANTS Parts, Span
VARIABLES x, y, w
vars == <<x, y, w>>
A(k) == (Pi ** k) // Parts
Init == x \in (0 - Span)..Span /\ y \in (0 - Span)..Span /\ w = 0
Next == /\ w < 4 /\ w' = w + 1 /\ UNCHANGED <<x, y>>
        /\ Emit(<<"ip.clerp", IF (x + y) % 2 = 0 THEN "f" ELSE "d", A(x), A(y), N(w') // 4, A(w')>>)
Spec == Init /\ [][Next]_vars
Ds == Turns(A(x), A(y), 100)
\* the turn in units of pi/Parts, by integer arithmetic
IntTurn == ((y - x + Parts) % (2 * Parts)) - Parts
AtMostHalf == \A d \in Ds : Sgn(Abs(d) -- Pi, 256, 100) <= 0
Equivalent == \A d \in Ds : LET q == (((A(x) ++ d) -- A(y)) // TwoPi) IN Sgn(q -- Floor(q ++ Half), 256, 100) = 0
Exists == \E d \in Ds : Same(<<d>>, <<A(IntTurn)>>)
Unique == Cardinality(Ds) = (IF IntTurn = 0 - Parts THEN 2 ELSE 1)
Inv == AtMostHalf /\ Equivalent /\ Exists /\ Unique
================================================================================
