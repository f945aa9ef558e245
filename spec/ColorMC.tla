-------------------------------- MODULE ColorMC --------------------------------
(***************************************************************************)
(* A walk over the lattice of colours with channels 0 .. Levels, one step  *)
(* of one channel at a time, carrying a second hue that advances by 30     *)
(* degrees.  Laws: conversion to hue, saturation and value and back is the *)
(* identity; hue lies in [0,360), saturation and value in [0,1]; exchanging*)
(* channels cyclically turns the hue by 120 degrees and leaves the rest;   *)
(* the complementary colour has the opposite hue; hue and saturation do    *)
(* not depend on brightness; hue changes by whole turns do not matter;     *)
(* a channel step moves the colour by that much and the hue continuously;  *)
(* blending hue goes the shorter way and ends at the second hue.           *)
(***************************************************************************)
EXTENDS Color
CONSTANTS Levels, Turns
VARIABLES c, h
Init == c = <<0, 0, 0>> /\ h = 0
Say == LET ty == Pick(<<"f", "d">>) x == Force([i \in 1..3 |-> N(c[i]) // Levels]) IN
       /\ Emit(<<"co.conv", ty, x, One>>)
       /\ Emit(<<"co.mix", ty, h, x[1], x[2], Pick(<<-390, -180, -30, 0, 60, 180, 360, 540, 750>>), x[3], 1, Pick(<<N("1/4"), N("1/2"), N(1)>>)>>)
Chan_(i) == /\ c[i] < Levels /\ c' = [c EXCEPT ![i] = @ + 1] /\ UNCHANGED h /\ Say
Turn == h < 360 * Turns /\ h' = h + 30 /\ UNCHANGED c /\ Emit(<<"co.hue", Pick(<<"f", "d">>), h - (180 * Turns), N(c[1]) // Levels, N(c[2]) // Levels, One>>)
Next == (\E i \in 1..3 : Chan_(i)) \/ Turn
Spec == Init /\ [][Next]_<<c, h>>
--------------------------------------------------------------------------------
X(d) == Force([i \in 1..3 |-> Exact(N(d[i]) // Levels)])
Hx(d) == VExact(Hsv(X(d)))
Round == LET q == Hx(c) IN
  /\ VEq(Rgb(q), X(c)) /\ InTurn(q[1]) /\ \A i \in 2..3 : ~Lt(q[i], Zero) /\ ~Lt(One, q[i])
  /\ VEq(Rgb(<<q[1] -- N(720), q[2], q[3]>>), X(c)) /\ VEq(Rgb(<<q[1] ++ N(h * 12), q[2], q[3]>>), X(c))
Grey == c[1] = c[2] /\ c[2] = c[3]
Cycle == LET q == Hx(c) r == Hx(<<c[3], c[1], c[2]>>) IN
  /\ Eq(q[2], r[2]) /\ Eq(q[3], r[3]) /\ (Grey \/ Eq(Mod(r[1] -- q[1], N(360)), N(120)))
Complement == Grey \/ LET q == Hx(c) r == Hx(<<Levels - c[1], Levels - c[2], Levels - c[3]>>) IN Eq(Mod(r[1] -- q[1], N(360)), N(180))
Dimmed == LET q == Hx(c) r == VExact(Hsv(VScale(X(c), N("1/3")))) IN Eq(q[1], r[1]) /\ Eq(q[2], r[2]) /\ Eq(r[3], q[3] // 3)
\* the two hues of the walk
Ways == LET a == Hx(c)[1] b == N(h - 540) d == Exact(Short(a, b)) IN
  /\ ~Lt(N(180), Abs(d)) /\ SameHue(a ++ d, b, 4, 100)
  /\ SameHue(Blend(a, b, One), b, 4, 100) /\ Eq(Blend(a, b, Zero), a)
  /\ Eq(Short(b, a), IF Eq(d, 180) THEN d ELSE Neg(d))
  \* half way is equally far from both
  /\ LET m == Exact(Blend(a, b, N("1/2"))) IN Eq(Abs(Exact(Short(a, m))), Abs(Exact(Short(m, b)))) /\ Eq(Abs(Exact(Short(a, m))) ** 2, Abs(d))
  /\ Half(a, b, 50) <=> Eq(Abs(d), 180)
Inv == Round /\ Cycle /\ Complement /\ Dimmed /\ Ways
================================================================================
