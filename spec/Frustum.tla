-------------------------------- MODULE Frustum --------------------------------
(***************************************************************************)
(* Contract of Frustum (property F01): the convex hull of its eight        *)
(* corners, near rectangle first, each from the top right one clockwise as *)
(* seen by the viewer.                                                     *)
(***************************************************************************)
EXTENDS Geom

\* far, near, left, top, right, bottom: three corners of the face, counterclockwise seen from outside
Faces == << <<5, 6, 7>>, <<1, 4, 3>>, <<4, 8, 7>>, <<4, 5, 8>>, <<2, 6, 5>>, <<2, 7, 6>> >>
FaceCorners == << <<5, 6, 7, 8>>, <<1, 2, 3, 4>>, <<4, 8, 7, 3>>, <<4, 8, 5, 1>>, <<1, 2, 6, 5>>, <<2, 6, 7, 3>> >>
Edges == << <<1, 2>>, <<2, 3>>, <<3, 4>>, <<4, 1>>, <<5, 6>>, <<6, 7>>, <<7, 8>>, <<8, 5>>, <<1, 5>>, <<2, 6>>, <<3, 7>>, <<4, 8>> >>
\* the planes, facing outwards.  Near and far are parallel (the near rectangle may be a point).
FacePlanes(c) == LET far == Cross(VSub(c[6], c[5]), VSub(c[7], c[5]))
                     pl(i) == IF i = 2 THEN Through(VNeg(far), c[1])
                              ELSE LET f == Faces[i] IN Through(Cross(VSub(c[f[2]], c[f[1]]), VSub(c[f[3]], c[f[1]])), c[f[1]])
                 IN  Force([i \in 1..6 |-> pl(i)])
SidesOf(pls, q) == Force([i \in 1..6 |-> Side(pls[i], q)])
FK == 32
Within3(x, p) == Decide(x, FK, p)
InsideBy(sides, r, p) == AllOf({Within3(Neg(sides[i]) -- r, p) : i \in 1..6})
SeparatedBy(sides, r, p) == \E i \in 1..6 : Sgn(sides[i] -- r, FK, p) > 0
\* a point of the segment nearest to q
OnSegment(a, b, q) == LET d == VSub(b, a) t == IF IsZeroV(d) THEN Zero ELSE NMin(One, NMax(Zero, Dot(VSub(q, a), d) // LenSqr(d))) IN VLerp(a, b, t)
\* some points of the hull: the nearest of every edge, and the feet of q in the faces that have it
Feet(c, pls, q) == {Foot(pls[i], q) : i \in {j \in 1..6 : LET f == Foot(pls[j], q) IN \A k \in (1..6) \ {j} : Le(Side(pls[k], f), 0)}}
Nearby(c, pls, q) == {OnSegment(c[Edges[i][1]], c[Edges[i][2]], q) : i \in 1..12} \cup Feet(c, pls, q)
TouchedBy(c, pls, sides, q, r, p) ==
  \/ \A i \in 1..6 : Sgn(sides[i], FK, p) < 0
  \/ \E x \in Nearby(c, pls, q) : Sgn(r -- Norm(VSub(x, q)), 4 * FK, p) > 0
MeetsBall(c, pls, sides, q, r, p) ==
  IF SeparatedBy(sides, r, p) THEN {FALSE} ELSE IF TouchedBy(c, pls, sides, q, r, p) THEN {TRUE} ELSE BOOLEAN
FrAsk(e) ==
  LET c0 == UnFlat(V(e, "c"), 3) m == V(e, "m") mm == UnFlat(SubSeq(m, 1, 9), 3) t == SubSeq(m, 10, 12)
      form == e.a.form
      want == Flat(Force([i \in 1..8 |-> IF form = 0 THEN c0[i] ELSE VAdd(MVec(mm, c0[i]), t)]))
      c == UnFlat(NumSeq(e.o.c[1]), 3) q == V(e, "q") r == K(e, "r")
  IN  IF ~VFin(Flat(c)) THEN {"finite"} ELSE
      LET pls == FacePlanes(c) sides == SidesOf(pls, q)
          flat == \E i \in 1..6 : IF i = 2 THEN FALSE ELSE LET f == Faces[i] IN
                     Sgn(Norm(Cross(VSub(c[f[2]], c[f[1]]), VSub(c[f[3]], c[f[1]]))), 1024, e.p) = 0
      IN  BadOut(e.o, [c |-> want], IF form = 0 THEN 0 ELSE 8, e.p) \cup Frame(e)
          \cup (IF flat THEN {} ELSE
                BadOut(e.o, [planes |-> Flat(pls)], 16, e.p)
                \cup BadBool(e.b, [has |-> InsideBy(sides, Zero, e.p), covers |-> InsideBy(sides, r, e.p),
                                   meets |-> MeetsBall(c, pls, sides, q, r, e.p)]))
--------------------------------------------------------------------------------
FrustumS0 == <<>>
FrustumStep(s, e) == [s |-> s, bad |->
  CASE e.op = "fr.ask" -> FrAsk(e)
    [] e.op = "crash" -> {"crash"}]
================================================================================
