---------------------------------- MODULE ScalMC ----------------------------------
(***************************************************************************)
(* Small-scope model of easing: every mode m, the ratio t = n/Steps moving *)
(* from before 0 to past 1.  The curve value is a state function; a step   *)
(* of t never decreases it, and the forms mirror each other.               *)
(***************************************************************************)
EXTENDS Scal
CONSTANT Steps
VARIABLES m, n
vars == <<m, n>>
T(k) == N(k) // Steps
Init == m \in 0..28 /\ n = -1
Next == n < Steps + 1 /\ n' = n + 1 /\ m' = m /\ Emit(<<"ip.ratio", IF n % 2 = 0 THEN "f" ELSE "d", m, T(n')>>)
        /\ Emit(<<"ip.lerp", IF n % 2 = 0 THEN "d" ELSE "f", m, NMax(Zero, NMin(One, T(n'))), n', -3, 1, n', -2, 5, 1, 2, 3, n', -1, 0, 10, 0 - n'>>)
Spec == Init /\ [][Next]_vars
Val == Ease(m, T(n))
Not(x) == Sgn(x, 256, 100)
Range == Not(Val) >= 0 /\ Not(1 -- Val) >= 0
Monotone == n > -1 => Not(Val -- Ease(m, T(n - 1))) >= 0
Ends == (n <= 0 => Eq(Val, 0)) /\ (n >= Steps => Eq(Val, 1))
\* "out" of a family is the mirror image of its "in"; "inout" is its own mirror image
Partner(k) == CASE Modes[k + 1][2] = "in" /\ k >= 5 -> k + 1 [] Modes[k + 1][2] = "out" -> k - 1 [] Modes[k + 1][2] = "inout" -> k [] OTHER -> -1
MirrorLaw == (Partner(m) >= 0 /\ Inside(T(n))) => Same(<<Ease(Partner(m), 1 -- T(n))>>, <<1 -- Val>>)
Inv == Range /\ Monotone /\ Ends /\ MirrorLaw
================================================================================
