---------------------------------- MODULE FnMC ----------------------------------
(***************************************************************************)
(* Small-scope model of the scalar helpers: a stick moves from -Steps to   *)
(* Steps; the response is odd, never decreases, is dead inside the         *)
(* threshold and full at the ends.  Remainders over a small grid.          *)
(***************************************************************************)
EXTENDS Scal
CONSTANTS Steps, Thresholds
VARIABLES k, th, n
vars == <<k, th, n>>
X(i) == N(i) // Steps
TH == N(th) // Steps
Init == k \in 0..5 /\ th \in Thresholds /\ n = 0 - Steps
Next == n < Steps /\ n' = n + 1 /\ UNCHANGED <<k, th>>
        /\ Emit(<<"fn.eval", IF n % 2 = 0 THEN "f" ELSE "d", X(n'), TH, k>>)
        /\ Emit(<<"fn.fmod", IF n % 2 = 0 THEN "d" ELSE "f", N(n') // 2, N(th + 1)>>)
        /\ Emit(<<"fn.basic", "f", n', th, -1, k, n', th>>)
Spec == Init /\ [][Next]_vars
Val == Eval(k, X(n), TH)
Odd == Eq(Val, Neg(Eval(k, X(0 - n), TH)))
Monotone == n > 0 - Steps => Sgn(Val -- Eval(k, X(n - 1), TH), 256, 100) >= 0
Dead == (n <= th /\ n >= 0 - th) => Eq(Val, 0)
Full == (n = Steps /\ k > 0) => Same(<<Val>>, <<One>>)
RemLaw == LET r == Rem(N(n) // 2, N(th + 1)) IN Le(0, r) /\ Lt(r, th + 1) /\ Eq(Rem((N(n) // 2) -- r, N(th + 1)), 0)
Inv == Odd /\ Monotone /\ Dead /\ Full /\ RemLaw
================================================================================
