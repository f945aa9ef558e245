---------------------------------- MODULE Num ----------------------------------
(***************************************************************************)
(* The numbers of the specification.                                       *)
(*                                                                         *)
(* The library under specification computes with binary floating point;    *)
(* the specification computes with real numbers.  A number of the          *)
(* specification is a pair [v, m]: v is the real value of an expression    *)
(* and m, the magnitude, bounds the absolute value of everything that was  *)
(* added up to obtain it, so that ANY evaluation of the expression in      *)
(* floating point with p significant bits, in any order of operations,     *)
(* stays within a small multiple of 2^-p * m of v (first-order error       *)
(* analysis).  Within(out, exp, k, p) is that acceptance condition.        *)
(*                                                                         *)
(* The definitions below ARE the meaning of the operators.  TLC cannot     *)
(* enumerate real numbers, so it evaluates the operators with the Java     *)
(* class verif.Overrides: exact rational arithmetic for the four           *)
(* operations, comparisons, Floor, and perfect squares; results good to    *)
(* 2^-190 relative for the other square roots and the transcendental       *)
(* functions.  Numbers in traces are strings (C99 hexadecimal floating     *)
(* point, decimal or p/q, also "nan" and "inf"); N reads them exactly.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, Reals

\* The real functions, by their characteristic properties.
TrigPair == CHOOSE f \in [Real -> Real \X Real] :          \* x |-> <<sin x, cos x>>
  /\ \A x, y \in Real : f[x - y][2] = f[x][2] * f[y][2] + f[x][1] * f[y][1]
  /\ \A x \in Real : 0 < x /\ x < 1 => 0 < x * f[x][2] /\ x * f[x][2] < f[x][1] /\ f[x][1] < x
SinR(x) == TrigPair[x][1]
CosR(x) == TrigPair[x][2]
PiR == CHOOSE x \in Real : x > 0 /\ SinR(x) = 0 /\ \A y \in Real : (0 < y /\ y < x) => SinR(y) > 0
Atan2R(y, x) == CHOOSE t \in Real : /\ -PiR < t /\ t <= PiR
                                    /\ \E r \in Real : r > 0 /\ x = r * CosR(t) /\ y = r * SinR(t)
Exp2Fcn == CHOOSE f \in [Real -> Real] : f[1] = 2 /\ \A x, y \in Real : /\ f[x + y] = f[x] * f[y]
                                                                        /\ (x < y => f[x] < f[y])
Exp2R(x) == Exp2Fcn[x]
ReadReal(s) == CHOOSE r \in Real : TRUE    \* the real number the numeral s denotes

AbsR(x) == IF x < 0 THEN -x ELSE x
MaxR(x, y) == IF x < y THEN y ELSE x

N(x)   == LET r == IF x \in STRING THEN ReadReal(x) ELSE x IN [v |-> r, m |-> AbsR(r)]

Add(a, b) == [v |-> a.v + b.v, m |-> a.m + b.m]
Sub(a, b) == [v |-> a.v - b.v, m |-> a.m + b.m]
Mul(a, b) == [v |-> a.v * b.v, m |-> a.m * b.m]
Div(a, b) == [v |-> a.v / b.v, m |-> (a.m / AbsR(b.v)) * (MaxR(1, b.m / AbsR(b.v)))]
a ++ b == Add(a, b)
a -- b == Sub(a, b)
a ** b == Mul(a, b)
a // b == Div(a, b)
Neg(a) == [v |-> -a.v, m |-> a.m]
Abs(a) == [v |-> AbsR(a.v), m |-> a.m]
Lt(a, b) == a.v < b.v
Le(a, b) == a.v <= b.v
Eq(a, b) == a.v = b.v
NMin(a, b) == IF Le(a, b) THEN a ELSE b
NMax(a, b) == IF Le(b, a) THEN a ELSE b
Sqrt(a) == LET r == CHOOSE x \in Real : x >= 0 /\ x * x = a.v
           IN  [v |-> r, m |-> IF r = 0 THEN a.m ELSE MaxR(r, a.m / r)]
Sin(a) == [v |-> SinR(a.v), m |-> a.m + AbsR(SinR(a.v))]
Cos(a) == [v |-> CosR(a.v), m |-> a.m + AbsR(CosR(a.v))]
Atan2(y, x) == [v |-> Atan2R(y.v, x.v),
                m |-> AbsR(Atan2R(y.v, x.v)) + (x.m + y.m) / Sqrt(N(x.v * x.v + y.v * y.v)).v]
Exp2(a) == [v |-> Exp2R(a.v), m |-> Exp2R(a.v) * (1 + a.m)]
Floor(a) == N(CHOOSE k \in Int : k <= a.v /\ a.v < k + 1)
Pi == [v |-> PiR, m |-> PiR]

Mag(a)   == N(a.m)                        \* the magnitude, as a number
Exact(a) == [a EXCEPT !.m = AbsR(a.v)]    \* forget how the value was obtained
Widen(a, e) == [a EXCEPT !.m = a.m + AbsR(e.v)]

IsFin(a) == a.v \in Real                  \* false for the "nan"/"inf" of a trace
IsNaN(a) == a = N("nan")

Within(out, exp, k, p) == AbsR(out.v - exp.v) <= (N(k).v * exp.m) / (2 ^ p)
WithinSeq(out, exp, k, p) ==
  Len(out) = Len(exp) /\ \A i \in 1..Len(exp) : Within(out[i], exp[i], k, p)
NumSeq(s) == [i \in 1..Len(s) |-> N(s[i])]

\* the sign of a when it cannot be an artefact of rounding, else 0
Sgn(a, k, p) == IF AbsR(a.v) <= (N(k).v * a.m) / (2 ^ p) THEN 0 ELSE IF a.v > 0 THEN 1 ELSE -1

\* x itself; a hint for evaluation: TLC evaluates function values at every use, and Force at once
Force(x) == x

Str(a) == CHOOSE s \in STRING : ReadReal(s) = a.v

\* Input/output and pseudo-random choice, for generating and checking traces
\* (TRUE / some element as far as the logic is concerned).
Emit(args)      == TRUE
Reject(l, what) == TRUE
Pick(s)         == CHOOSE x \in {s[i] : i \in 1..Len(s)} : TRUE
Rnd(lo, hi)     == CHOOSE x \in lo..hi : TRUE
================================================================================
