------------------------------ MODULE SplineFitMC ------------------------------
(***************************************************************************)
(* Laying a smooth spline through points, segment by segment (one          *)
(* coordinate).  The first segment's inner control points s and u are not  *)
(* known; smoothness determines every further segment from the one before, *)
(* so that each control point is k[1] + k[2] s + k[3] u.  The conditions   *)
(* at the ends (natural, clamped, closed) then decide s and u.             *)
(* Laws: the conditions always determine them (there is exactly one        *)
(* spline of each kind); the spline found satisfies the contract's         *)
(* predicates, and no other values of its first segment do; two points     *)
(* give the straight segment, run through evenly (natural); reversing the  *)
(* points reverses the spline.                                             *)
(***************************************************************************)
EXTENDS Spline
CONSTANTS G, Counts, Kinds
VARIABLES pts, kind, x, y, done
vars == <<pts, kind, x, y, done>>
Const(k) == <<N(k), Zero, Zero>>
LS == <<Zero, One, Zero>>
LU == <<Zero, Zero, One>>
Comb(a, k, b) == VExact(VAdd(VScale(a, N(k)), b))
Val(l, s, u) == (l[1] ++ (l[2] ** s)) ++ (l[3] ** u)
Segs(p) == IF kind[1] = "closed" THEN Len(p) ELSE Len(p) - 1
End(i) == pts[(i % Len(pts)) + 1]
Init == /\ pts \in UNION {[1..k -> G] : k \in Counts}
        /\ kind \in Kinds
        /\ x = <<LS>> /\ y = <<LU>> /\ done = FALSE
\* the inner control points of the segment after (p, x, y, q)
NextX(k) == Comb(y[k], -1, Const(2 * End(k)))
NextY(k) == Comb(y[k], -2, Comb(NextX(k), 2, x[k]))
Lay == /\ ~done /\ Len(x) < Segs(pts)
       /\ x' = Append(x, NextX(Len(x))) /\ y' = Append(y, NextY(Len(x))) /\ UNCHANGED <<pts, kind, done>>
\* the conditions, as linear forms that vanish
Conditions ==
  LET m == Len(x) IN
  CASE kind[1] = "natural" -> << Comb(x[1], -2, Comb(y[1], 1, Const(pts[1]))), Comb(y[m], -2, Comb(x[m], 1, Const(End(m)))) >>
    [] kind[1] = "clamped" -> << Comb(x[1], 1, Const(-kind[2])), Comb(y[m], 1, Const(-kind[3])) >>
    [] kind[1] = "closed"  -> << Comb(x[1], -1, NextX(m)), Comb(y[1], -1, NextY(m)) >>
Determ(c) == (c[1][2] ** c[2][3]) -- (c[1][3] ** c[2][2])
Solve(c) == LET d == Determ(c) IN
  << Exact((((Neg(c[1][1])) ** c[2][3]) ++ (c[1][3] ** c[2][1])) // d), Exact(((c[1][1] ** c[2][2]) -- (c[1][2] ** c[2][1])) // d) >>
\* the same call for the library, on points with three coordinates
Say == LET ty == Pick(<<"f", "d">>) m == Len(pts)
           p3 == Force([i \in 1..m |-> <<pts[i], pts[(i % m) + 1], i>>]) IN
       CASE kind[1] = "natural" -> Emit(<<"sp.nat", ty, m, p3>>)
         [] kind[1] = "clamped" -> Emit(<<"sp.clamp", ty, m, p3, kind[2], kind[3], 1, kind[3], kind[2], m>>)
         [] kind[1] = "closed"  -> Emit(<<"sp.closed", ty, m, p3>>)
Close == /\ ~done /\ Len(x) = Segs(pts) /\ done' = TRUE /\ Say
         /\ IF Eq(Determ(Conditions), 0) THEN UNCHANGED <<x, y>>
            ELSE LET r == Solve(Conditions) IN
                 /\ x' = Force([i \in 1..Len(x) |-> <<Exact(Val(x[i], r[1], r[2]))>>])
                 /\ y' = Force([i \in 1..Len(y) |-> <<Exact(Val(y[i], r[1], r[2]))>>])
         /\ UNCHANGED <<pts, kind>>
Next == Lay \/ Close
Spec == Init /\ [][Next]_vars
--------------------------------------------------------------------------------
Unique == (~done /\ Len(x) = Segs(pts)) => ~Eq(Determ(Conditions), 0)
P_ == Force([i \in 1..Len(pts) |-> <<N(pts[i])>>])
Closed_ == kind[1] = "closed"
Holds(p, q, a, b, knd) ==
  /\ Smooth(p, q, a, b, knd[1] = "closed", Zero, 60)
  /\ CASE knd[1] = "natural" -> Natural(p, q, a, b, Zero, 60)
       [] knd[1] = "clamped" -> Clamped(a, b, <<N(knd[2])>>, <<N(knd[3])>>, Zero, 60)
       [] knd[1] = "closed" -> TRUE
Rev(s) == Force([i \in 1..Len(s) |-> s[Len(s) + 1 - i]])
Meets == done =>
  LET q == Ends(P_, Closed_) m == Len(x) IN
  /\ Holds(P_, q, x, y, kind)
  \* nearby curves are not accepted
  /\ ~Holds(P_, q, [x EXCEPT ![1] = <<@[1] ++ N("1e-6")>>], y, kind)
  /\ ~Holds(P_, q, x, [y EXCEPT ![m] = <<@[1] ++ N("1e-6")>>], kind)
  \* reversal
  /\ LET rp == IF Closed_ THEN <<P_[1]>> \o Rev(Tail(P_)) ELSE Rev(P_) IN
     Holds(rp, Ends(rp, Closed_), Rev(y), Rev(x), IF kind[1] = "clamped" THEN <<"clamped", kind[3], kind[2]>> ELSE kind)
  /\ (kind[1] = "natural" /\ Len(pts) = 2) =>
       Eq(x[1][1], P_[1][1] ++ ((P_[2][1] -- P_[1][1]) // 3)) /\ Eq(y[1][1], P_[1][1] ++ (((P_[2][1] -- P_[1][1]) ** 2) // 3))
Inv == Unique /\ Meets
================================================================================
