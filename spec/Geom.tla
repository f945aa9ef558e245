---------------------------------- MODULE Geom ----------------------------------
(***************************************************************************)
(* Contract of Plane (property G01), Line2, Line3, Ray2, Ray3, Tri2 (G02)  *)
(* and of the planes and axes read from matrices.                          *)
(*                                                                         *)
(* A plane is <<normal, offset>>: the points p with normal.p = offset; its *)
(* front is the side of the normal.  The state of a history is the stored  *)
(* plane, four numbers.                                                    *)
(***************************************************************************)
EXTENDS Geo

V(e, n) == NumSeq(e.a[n])
K(e, n) == N(e.a[n][1])
Frame(e) == BadBool(e.b, [frame |-> {TRUE}])
Self(e)  == BadBool(e.b, [self |-> {TRUE}])
AtLeast0(x, exact, p) == IF exact THEN {Le(Zero, x)} ELSE Decide(x, 8, p)
Above0(x, exact, p) == IF exact THEN {Lt(Zero, x)} ELSE Decide(x, 8, p)
AllOf(sets) == IF {FALSE} \in sets THEN {FALSE} ELSE IF sets \subseteq {{TRUE}} THEN {TRUE} ELSE BOOLEAN
Not3(s) == {~x : x \in s}
\* the length of a vector whose components carry errors: those of the components add up
Norm(v) == Widen(Exact(Length(VExact(v))), SumSeq(Force([i \in 1..Len(v) |-> Mag(v[i])])))

--------------------------------------------------------------------------------
(* planes.  The flag ex says that the arithmetic is exact, so that boundary cases are decided *)
NormalOf(r) == SubSeq(r, 1, 3)
Side(r, q) == Dot(q, NormalOf(r)) -- r[4]                      \* signed distance
Foot(r, q) == VSub(q, VScale(NormalOf(r), Side(r, q)))
Through(n, q) == LET u == Normalized(n) IN u \o <<Dot(u, q)>>
PlNext(r, e) ==
  CASE e.w = "raw" -> V(e, "n") \o <<K(e, "d")>>
    [] e.w = "nd" -> Normalized(V(e, "n")) \o <<K(e, "d")>>
    [] e.w = "pn" -> Through(V(e, "n"), V(e, "x"))
    [] e.w = "abc" -> Through(Cross(VSub(V(e, "y"), V(e, "x")), VSub(V(e, "z"), V(e, "x"))), V(e, "x"))
    [] e.w = "tan" -> Through(Cross(V(e, "y"), V(e, "z")), V(e, "x"))
    [] e.w \in {"off", "move"} -> NormalOf(r) \o <<r[4] ++ K(e, "d")>>
    [] e.w = "flip" -> VNeg(r)
    [] e.w = "start" -> <<Zero, Zero, One, Zero>>
PlFlat(e) == \* the given directions span no plane, or hardly
  CASE e.w \in {"nd", "pn"} -> IsZeroV(V(e, "n"))
    [] e.w \in {"abc", "tan"} ->
         LET u == IF e.w = "tan" THEN V(e, "y") ELSE VSub(V(e, "y"), V(e, "x"))
             v == IF e.w = "tan" THEN V(e, "z") ELSE VSub(V(e, "z"), V(e, "x"))
             n == Cross(u, v)
         IN  Sgn(Norm(n), 64, e.p) = 0
    [] OTHER -> FALSE
PlHist(s, e) ==
  LET r == NumSeq(e.o.r[1]) q == V(e, "q") t == Side(r, q) k == K(e, "tol") IN
  [s |-> [s EXCEPT !.r = r],
   bad |-> IF PlFlat(e) \/ (e.w \in {"off", "move", "flip"} /\ ~VFin(s.r)) THEN {} ELSE IF ~VFin(r) THEN {"finite"} ELSE
     BadOut(e.o, [r |-> PlNext(s.r, e)], IF e.w \in {"raw", "flip", "start"} THEN 0 ELSE 8, e.p)
     \cup BadOut(e.o, [dist |-> <<t>>, foot |-> Foot(r, q)], 8, e.p)
     \cup BadOut(e.o, [xy |-> <<Zero, Zero, One, Zero>>, yz |-> <<One, Zero, Zero, Zero>>, zx |-> <<Zero, One, Zero, Zero>>], 0, e.p)
     \cup BadBool(e.b, [on |-> AtLeast0(k -- Abs(t), OnGrid(r \o q), e.p)])
     \cup Self(e)]

\* the ways through a plane
PlAsk(e) ==
  LET r == V(e, "r") q == V(e, "q") v == V(e, "v") rad == K(e, "rad") t == Side(r, q)
      f == Dot(v, NormalOf(r)) ex == OnGrid(r \o q \o v \o <<rad>>)
      along == IF ex THEN {~Eq(f, 0)} ELSE IF Sgn(f, 8, e.p) = 0 THEN BOOLEAN ELSE {TRUE}
      hit == AllOf({AtLeast0(t, ex, e.p), AtLeast0(rad -- t, ex, e.p)})
      meet == AllOf({AtLeast0(t ++ rad, ex, e.p), AtLeast0(rad -- t, ex, e.p)})
  IN  BadBool(e.b, [along |-> along, hit |-> hit, meet |-> meet])
      \cup (IF along = {TRUE} THEN BadOut(e.o, [along |-> VSub(q, VScale(v, t // f))], 8, e.p) ELSE {})
      \cup (IF hit = {TRUE} THEN BadOut(e.o, [hdepth |-> <<rad -- t>>], 8, e.p) ELSE {})
      \cup (IF meet = {TRUE} THEN BadOut(e.o, [mdepth |-> <<rad -- t>>], 8, e.p) ELSE {})
      \cup Frame(e)
RayPlane(r, s, d, ex, p) ==
  LET f == Dot(NormalOf(r), d) t == Neg(Side(r, s)) // f
      moving == IF ex THEN {~Eq(f, 0)} ELSE IF Sgn(f, 8, p) = 0 THEN BOOLEAN ELSE {TRUE}
      ahead == IF ~ex /\ Sgn(f, 8, p) = 0 THEN BOOLEAN ELSE IF Eq(f, 0) THEN {FALSE}
               ELSE AtLeast0(IF Lt(f, 0) THEN Side(r, s) ELSE Neg(Side(r, s)), ex, p)
  IN  [hit |-> AllOf({Above0(Neg(f), ex, p), ahead}), meet |-> AllOf({moving, ahead}), t |-> t]
PlRay(e) ==
  LET r == V(e, "r") s == V(e, "s") d == V(e, "d") x == RayPlane(r, s, d, OnGrid(r \o s \o d), e.p) at == VAdd(s, VScale(d, x.t)) IN
  BadBool(e.b, [hit |-> x.hit, meet |-> x.meet]) \cup Frame(e)
  \cup (IF x.hit = {TRUE} THEN BadOut(e.o, [hit |-> <<x.t>> \o at], 8, e.p) ELSE {})
  \cup (IF x.meet = {TRUE} THEN BadOut(e.o, [meet |-> <<x.t>> \o at], 8, e.p) ELSE {})
\* a segment passes from the front (or the plane itself) to the back; or touches both sides
PassPlane(r, s, t, rad, ex, p) ==
  LET a == Side(r, s) -- rad b == Side(r, t) -- rad
      oneside == {AllOf({AtLeast0(a, ex, p), AtLeast0(Neg(b), ex, p)}), AllOf({AtLeast0(Neg(a), ex, p), AtLeast0(b, ex, p)})}
      span == IF {TRUE} \in oneside THEN {TRUE} ELSE IF oneside = {{FALSE}} THEN {FALSE} ELSE BOOLEAN
      differ == IF ex THEN {~Eq(a, b)} ELSE IF Sgn(a -- b, 8, p) = 0 THEN BOOLEAN ELSE {TRUE}
  IN  [hit |-> AllOf({AtLeast0(a, ex, p), Above0(Neg(b), ex, p)}), meet |-> AllOf({differ, span}), t |-> a // (a -- b)]
PlLine(e) ==
  LET r == V(e, "r") s == V(e, "s") t == V(e, "t") rad == K(e, "rad")
      g == OnGrid(r \o s \o t)
      x == PassPlane(r, s, t, Zero, g, e.p) y == PassPlane(r, s, t, rad, g /\ OnGrid(<<rad>>), e.p)
  IN  BadBool(e.b, [hit |-> x.hit, meet |-> x.meet, rhit |-> y.hit]) \cup Frame(e)
      \cup (IF x.hit = {TRUE} THEN BadOut(e.o, [hit |-> <<x.t>> \o VLerp(s, t, x.t)], 8, e.p) ELSE {})
      \cup (IF x.meet = {TRUE} THEN BadOut(e.o, [meet |-> <<x.t>> \o VLerp(s, t, x.t)], 8, e.p) ELSE {})
      \cup (IF y.hit = {TRUE} THEN BadOut(e.o, [rhit |-> <<y.t>> \o VLerp(s, t, y.t)], 8, e.p) ELSE {})
\* the common point of three planes; those within 1e-4 of dependent have none
Common(a, b, c) ==
  LET det == Dot(Cross(NormalOf(a), NormalOf(b)), NormalOf(c)) IN
  [det |-> det,
   at |-> VDiv(VAdd(VAdd(VScale(Cross(NormalOf(b), NormalOf(c)), a[4]), VScale(Cross(NormalOf(c), NormalOf(a)), b[4])),
                    VScale(Cross(NormalOf(a), NormalOf(b)), c[4])), det)]
PlThree(e) ==
  LET x == Common(V(e, "a"), V(e, "b"), V(e, "c")) d == Abs(x.det)
      some == IF Lt(N("2e-4"), d) THEN {TRUE} ELSE IF Lt(d, N("5e-5")) THEN {FALSE} ELSE BOOLEAN
  IN  BadBool(e.b, [some |-> some]) \cup Frame(e)
      \cup (IF some = {TRUE} THEN BadOut(e.o, [at |-> x.at], 8, e.p) ELSE {})
\* the coordinate axes and planes of a matrix
MatLocal(e) ==
  LET c(i) == V(e, <<"x", "y", "z">>[i]) t == V(e, "t") ok(i) == ~IsZeroV(c(i)) IN
  UNION {IF ~ok(i) THEN {} ELSE
         BadOut(e.o, (<<"a1", "a2", "a3">>[i] :> t \o Normalized(c(i))) @@ (<<"p1", "p2", "p3">>[i] :> Through(c(i), t))
                     @@ (<<"n1", "n2", "n3">>[i] :> Through(VNeg(c(i)), t)), 8, e.p) : i \in 1..3} \cup Frame(e)

--------------------------------------------------------------------------------
(* lines, rays, triangles *)
Off(d, w) == IF Len(d) = 2 THEN Abs(Perp(Normalized(d), w)) ELSE Norm(Cross(w, Normalized(d)))
LineAsk(e) ==
  LET s == V(e, "s") t == V(e, "e") p == V(e, "p") k == K(e, "k") d == VExact(VSub(t, s)) w == VSub(p, s) IN
  BadOut(e.o, [len |-> <<Norm(d)>>, len2 |-> <<LenSqr(d)>>, at |-> VLerp(s, t, k),
               dist |-> <<IF IsZeroV(d) THEN Norm(w) ELSE Off(d, w)>>], 8, e.p)
  \cup BadOut(e.o, [id |-> s \o t], 0, e.p)
  \cup BadBool(e.b, [null |-> {IsZeroV(d)}]) \cup Frame(e)
RayAsk(e) ==
  LET s == V(e, "s") p == V(e, "p") k == K(e, "k") w == VSub(p, s) d == V(e, "d") u == NumSeq(e.o.dir[1]) IN
  IF IsZeroV(d) THEN {} ELSE
  LET off == Off(u, w) IN
  BadOut(e.o, [start |-> s], 0, e.p)
  \cup BadOut(e.o, [dir |-> Normalized(d), at |-> VAdd(s, VScale(u, k))], 8, e.p)
  \* a point of the line behind the start may be measured from the start
  \cup (IF Len(d) = 3 /\ Sgn(off, 64, e.p) = 0 /\ Le(Dot(w, d), 0) THEN
          BadIf([dist |-> \A i \in 1..Len(e.o.dist) : \E c \in {off, Norm(w)} : WithinSeq(NumSeq(e.o.dist[i]), <<c>>, 8, e.p)])
        ELSE BadOut(e.o, [dist |-> <<off>>], 8, e.p))
  \cup Frame(e)
\* three-valued: inside, for corners in either orientation
InTri(a, b, c, p, prec) ==
  LET X(u, v) == Perp(VSub(v, u), VSub(p, u))
      ex == OnGrid(a \o b \o c \o p)
      x == <<X(a, b), X(b, c), X(c, a)>>
      up == AllOf({AtLeast0(x[i], ex, prec) : i \in 1..3}) dn == AllOf({AtLeast0(Neg(x[i]), ex, prec) : i \in 1..3})
  IN  IF {TRUE} \in {up, dn} THEN {TRUE} ELSE IF {up, dn} = {{FALSE}} THEN {FALSE} ELSE BOOLEAN
Area2(a, b, c) == Perp(VSub(b, a), VSub(c, a))
TriAsk(e) ==
  LET a == V(e, "x") b == V(e, "y") c == V(e, "z") p == V(e, "p") IN
  BadOut(e.o, [id |-> a \o b \o c], 0, e.p)
  \cup (IF Sgn(Area2(a, b, c), 8, e.p) = 0 THEN {} ELSE BadBool(e.b, [has |-> InTri(a, b, c, p, e.p)])) \cup Frame(e)

--------------------------------------------------------------------------------
GeomS0 == [r |-> <<>>]
GeomStep(s, e) ==
  IF e.op = "pl.hist" THEN PlHist(s, e)
  ELSE [s |-> s, bad |->
  CASE e.op = "pl.ask" -> PlAsk(e)
    [] e.op = "pl.ray" -> PlRay(e)
    [] e.op = "pl.line" -> PlLine(e)
    [] e.op = "pl.three" -> PlThree(e)
    [] e.op \in {"m34.local", "m4.local"} -> MatLocal(e)
    [] e.op \in {"l2.seg", "l3.seg"} -> LineAsk(e)
    [] e.op \in {"r2.ray", "r3.ray"} -> RayAsk(e)
    [] e.op = "t2.has" -> TriAsk(e)
    [] e.op = "crash" -> {"crash"}]
================================================================================
