------------------------------- MODULE FrustumMC -------------------------------
(***************************************************************************)
(* Small-scope model: frusta with integer rectangles, placed by quarter    *)
(* turns, against all points of a grid and balls about them.  Laws: the    *)
(* face test agrees with the sections of the hull (at every depth between  *)
(* near and far, the rectangle between theirs); a separated ball touches   *)
(* no sample of the hull and a touching one is never separated; the        *)
(* nearest point found is a point of the hull and no sample is nearer.     *)
(***************************************************************************)
EXTENDS Frustum
CONSTANTS Shapes, G, Radii
VARIABLES f, q, turn
vars == <<f, q, turn>>
\* <<near half width, height, shift; far half width, height, shift; depth>> from z = -1
Rect(hx, hy, sx, z) == << <<sx + hx, hy, z>>, <<sx + hx, 0 - hy, z>>, <<sx - hx, 0 - hy, z>>, <<sx - hx, hy, z>> >>
Raw == Rect(f[1], f[2], f[3], -1) \o Rect(f[4], f[5], f[6], -1 - f[7])
Turns == << << <<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>> >>, << <<0, 1, 0>>, <<-1, 0, 0>>, <<0, 0, 1>> >>,
            << <<0, 0, 1>>, <<1, 0, 0>>, <<0, 1, 0>> >>, << <<-1, 0, 0>>, <<0, 1, 0>>, <<0, 0, -1>> >> >>
Vec(x) == Force([i \in 1..3 |-> N(x[i])])
M == Force([j \in 1..3 |-> Vec(Turns[turn][j])])
Off3 == IF turn = 1 THEN VZero(3) ELSE <<N(1), N(-2), N(3)>>
Place(x) == VAdd(MVec(M, x), Off3)
C == Force([i \in 1..8 |-> Place(Vec(Raw[i]))])
Points == {<<x, y, z>> : x \in G, y \in G, z \in {0 - 5, -3, -2, -1, 0}}
Init == f \in Shapes /\ turn \in 1..4 /\ q = <<>>
Next == /\ q = <<>> /\ q' \in Points /\ UNCHANGED <<f, turn>>
        /\ \A r \in Radii : Emit(<<"fr.ask", Pick(<<"f", "d">>), IF turn = 1 THEN 0 ELSE Rnd(1, 3), Raw, Turns[turn], Off3, VAdd(MVec(M, Vec(q')), Off3), r>>)
Spec == Init /\ [][Next]_vars
Q == Place(Vec(q))
Done == q # <<>>
Pls == Force(FacePlanes(C))
P == 100
\* independent membership, in the frustum's own coordinates
W == (N(-1) -- N(q[3])) // f[7]
Mix(i) == N(f[i]) ++ ((N(f[i + 3]) -- N(f[i])) ** W)
Member == /\ Le(Zero, W) /\ Le(W, One)
          /\ Le(Abs(N(q[1]) -- Mix(3)), Mix(1)) /\ Le(Abs(N(q[2])), Mix(2))
SampleAt(n) == LET i == n \div 9 j == ((n \div 3) % 3) - 1 k == (n % 3) - 1 w == N(i) // 3 u == N(j) v == N(k) IN Place(
              <<(N(f[3]) ++ ((N(f[6]) -- N(f[3])) ** w)) ++ ((N(f[1]) ++ ((N(f[4]) -- N(f[1])) ** w)) ** u),
                (N(f[2]) ++ ((N(f[5]) -- N(f[2])) ** w)) ** v, Neg(One ++ (w ** N(f[7])))>>)
\* the squares of the distances of samples of the hull
SampleD == Force([n \in 1..36 |-> LenSqr(VSub(SampleAt(n - 1), Q))])
Membership(sides) == (Member) \in InsideBy(sides, Zero, P) /\ (InsideBy(sides, Zero, P) = BOOLEAN => Member)
In(pls, x) == \A i \in 1..6 : Sgn(Side(pls[i], x), FK, P) <= 0
Balls(pls, sides, d2) == \A r \in Radii :
   LET near == \E n \in 1..36 : Lt(d2[n], N(r * r)) sep == SeparatedBy(sides, N(r), P) touch == TouchedBy(C, pls, sides, Q, N(r), P) IN
   ~(sep /\ near) /\ ~(sep /\ touch) /\ (near => touch)
Nearest(pls, d2) == Member \/
   LET near == Nearby(C, pls, Q) IN
   /\ \A x \in near : In(pls, x)
   /\ \E y \in near : LET d == LenSqr(VSub(y, Q)) IN \A n \in 1..36 : Sgn(d -- d2[n], FK, P) <= 0
\* the far plane first, the near plane facing the viewer, all facing away from the middle
Outward(pls) == LET mid == VScale(VAdd(VAdd(C[1], C[3]), VAdd(C[5], C[7])), N("0.25")) IN
   \A i \in 1..6 : Lt(Side(pls[i], mid), 0) /\ \A j \in 1..4 : Sgn(Side(pls[i], C[FaceCorners[i][j]]), FK, P) = 0
Inv == Done => LET pls == Pls sides == SidesOf(pls, Q) d2 == SampleD IN
               Membership(sides) /\ Balls(pls, sides, d2) /\ Nearest(pls, d2) /\ Outward(pls)
================================================================================
