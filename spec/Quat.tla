---------------------------------- MODULE Quat ----------------------------------
(***************************************************************************)
(* Contract of Quat (properties Q01, Q02).  A quaternion is <<x, y, z, w>> *)
(* with w the scalar part; rotations are unit quaternions, and q and -q    *)
(* are the same rotation.                                                  *)
(***************************************************************************)
EXTENDS Geo

V(e, n) == NumSeq(e.a[n])
K(e, n) == N(e.a[n][1])
Frame(e) == BadBool(e.b, [frame |-> {TRUE}])
Self(e)  == BadBool(e.b, [self |-> {TRUE}])
AnyOf(o, n, choices, k, p) == BadIf([i \in {n} |-> \A j \in 1..Len(o[n]) : \E c \in choices : WithinSeq(o[n][j], c, k, p)])
\* an absolute uncertainty of w units in the last place of 1, on top of that of the components
VAbout(a, w) == VWiden(VExact(a), N(w))
QOne == <<Zero, Zero, Zero, One>>
QUnit(q) == IF IsZeroV(q) THEN QOne ELSE Normalized(q)
Ulp(p) == Exp2(N(0 - p))

--------------------------------------------------------------------------------
(* Q01 *)
QAlg(e) ==
  LET p == V(e, "p") q == V(e, "q") v == V(e, "v")
      pu == QUnit(p) qu == QUnit(q) lq == LenSqr(q)
      rv == QRot(qu, v)
  IN  BadOut(e.o, [id |-> p, inv |-> QConj(p), neg |-> VNeg(p), one |-> QOne], 0, e.p)
      \cup BadOut(e.o, [pq |-> QMul(p, q), pv |-> SubSeq(QMul(p, v \o <<Zero>>), 1, 3),
                        norm |-> pu, rx |-> QRot(qu, Unit(3, 1)), ry |-> QRot(qu, Unit(3, 2)), rz |-> QRot(qu, Unit(3, 3)),
                        rv |-> rv], 32, e.p)
      \cup BadOut(e.o, [prod |-> VWiden(QRot(pu, rv), Length(v) ** 8), back |-> VWiden(v, Length(v) ** 8),
                        quot |-> VWiden(QRot(pu, QRot(QConj(qu), v)), Length(v) ** 8)], 64, e.p)
      \cup (IF IsZeroV(q) THEN {} ELSE BadOut(e.o, [div |-> VDiv(QMul(p, QConj(q)), lq)], 32, e.p))
      \cup BadBool(e.b, [eq |-> {VEq(p, q)}, ne |-> {~VEq(p, q)}])
      \cup Frame(e) \cup Self(e)

\* q -> axis and angle -> q; q -> matrix -> q; axis and angle -> matrix -> q
QConv(e) ==
  LET q == QUnit(V(e, "q")) u == Normalized(V(e, "u")) x == K(e, "x")
      r == QAxisAngle(u, x)
      ax == NumSeq(e.o.axis[1]) an == N(e.o.angle[1][1])
  IN  \* the axis is a unit vector, the angle is in 0 .. 2 pi, and together they are q
      BadIf([axis |-> Within(Length(ax), One, 16, e.p),
             angle |-> Le(Zero, an) /\ Le(an, (Pi ** 2) ++ N("1/1000"))])
      \cup (IF IsZeroV(SubSeq(q, 1, 3)) THEN AnyOf(e.o, "same", {q, VNeg(q)}, 16, e.p)
            ELSE IF Lt(Length(SubSeq(q, 1, 3)), N("1e-18")) THEN {}  \* squares underflow
            ELSE BadOut(e.o, [same |-> VAbout(q, 1)], 16, e.p))
      \cup AnyOf(e.o, "viam", {VAbout(q, 1), VAbout(VNeg(q), 1)}, 64, e.p)
      \cup AnyOf(e.o, "fromm", {VAbout(r, 1 ++ Abs(x)), VAbout(VNeg(r), 1 ++ Abs(x))}, 64, e.p)
      \cup BadOut(e.o, [set |-> r], 16, e.p)
      \cup Frame(e) \cup Self(e)

\* the quaternion that turns one direction into another
QArc(e) ==
  LET u == V(e, "u") v == V(e, "v") a == Normalized(u) b == Normalized(v)
      c1 == 1 ++ Dot(a, b)
      \* near opposite directions the axis is as uncertain as the sine of the angle is small
      lim == N(64) ** Ulp(e.p)
      unc == IF Lt(c1, lim) THEN Exp2(N(e.p \div 2)) ** 32 ELSE 32 // Sqrt(Exact(c1))
      r(j) == NumSeq(e.o.r[j])
  IN  BadIf([unit |-> \A j \in 1..Len(e.o.r) : Within(LenSqr(r(j)), One, 32, e.p),
             carries |-> \A j \in 1..Len(e.o.ru) : WithinSeq(e.o.ru[j], VWiden(VExact(b), unc), 8, e.p),
             \* the shortest turn: about an axis perpendicular to both
             shortest |-> \A j \in 1..Len(e.o.r) :
                /\ Le(N(-8) ** Ulp(e.p), r(j)[4])
                /\ Within(Dot(SubSeq(r(j), 1, 3), a), Widen(Exact(Zero), unc), 8, e.p)])
      \cup Frame(e) \cup Self(e)

--------------------------------------------------------------------------------
(* Q02 *)
\* the angle between unit quaternions a and b, and the part of b perpendicular to a
QPerp(a, b) == VSub(b, VScale(a, Dot(a, b)))
QArcAngle(a, b) == Atan2(Length(QPerp(a, b)), Dot(a, b))
\* constant speed along the great arc from a to b (not opposite); an arc of no length stays at a
QSlerp(a, b, t) ==
  LET s == Length(QPerp(a, b)) x == Exact(QArcAngle(a, b)) ** t IN
  IF Eq(s, 0) THEN a ELSE VAdd(VScale(a, Cos(x)), VScale(QPerp(a, b), Sin(x) // s))
QLerp(a, b, t) == Normalized(VLerp(a, b, t))
\* the uncertainty of a turn along the arc from a to b
ArcUnc(a, b) == LET s == Length(QPerp(a, b)) IN IF Eq(s, 0) THEN One ELSE 1 ++ (1 // s)
\* constant speed, or (for near quaternions, within 37 degrees of rotation) the normalised linear blend
ArcChoices(a, b, t) ==
  IF Lt(N("0.9499"), Dot(a, b))
  THEN {VAbout(QLerp(a, b, t), 4)} \cup (IF Lt(N("0.9501"), Dot(a, b)) THEN {} ELSE {VAbout(QSlerp(a, b, t), 8)})
  ELSE {VWiden(VExact(QSlerp(a, b, t)), 4 ++ ArcUnc(a, b))}
\* the shortest rotation: towards the nearer of b and -b (either, when equally far up to rounding)
ShortChoices(a, b, t, p) ==
  LET s == Sgn(Dot(a, b), 16, p) IN
  (IF s >= 0 THEN ArcChoices(a, b, t) ELSE {}) \cup (IF s <= 0 THEN ArcChoices(a, VNeg(b), t) ELSE {})

UnitOut(e, n) == BadIf([i \in {n} |-> \A j \in 1..Len(e.o[n]) : Within(Length(NumSeq(e.o[n][j])), One, 64, e.p)])
\* opposite up to rounding: any arc will do
Opposite(a, b, p) == LET s == VAdd(a, b) IN Lt(LenSqr(s), N(1024) ** Ulp(p) ** Ulp(p))

QLerpStep(e) == LET a == QUnit(V(e, "a")) b == QUnit(V(e, "b")) t == K(e, "t") IN
  (IF IsZeroV(VLerp(a, b, t)) \/ Lt(LenSqr(VLerp(a, b, t)), N("1e-8")) THEN {}
   ELSE BadOut(e.o, [lerp |-> QLerp(a, b, t)], 32, e.p))
  \cup UnitOut(e, "lerp")
  \cup UnitOut(e, "slerp") \cup AnyOf(e.o, "slerp", ShortChoices(a, b, t, e.p), 32, e.p)
  \cup UnitOut(e, "noinv")
  \cup (IF Opposite(a, b, e.p)
        THEN \* some great arc: the angle from a is in proportion
             BadIf([noinv |-> \A j \in 1..Len(e.o.noinv) : Within(Dot(NumSeq(e.o.noinv[j]), a), Widen(Exact(Cos(Pi ** t)), N(64)), 16, e.p)])
        ELSE AnyOf(e.o, "noinv", ArcChoices(a, b, t), 32, e.p))
  \cup Frame(e) \cup Self(e)

\* turn by at most m (an angle of rotation: half of it on the arc)
MaxChoices(a, b, m, p) ==
  LET s == Sgn(Dot(a, b), 16, p)
      C(c) == LET x == QArcAngle(a, c) h == m // 2 IN
              IF Le(x, h) THEN {VAbout(c, 4)}
              ELSE {VWiden(VExact(QSlerp(a, c, Exact(h // x))), 4 ++ (ArcUnc(a, c) ** h))}
  IN  (IF s >= 0 THEN C(b) ELSE {}) \cup (IF s <= 0 THEN C(VNeg(b)) ELSE {})
QMaxStep(e) ==
  LET a == QUnit(V(e, "a")) b == QUnit(V(e, "b"))
      Ch == MaxChoices(a, b, K(e, "m"), e.p)
  IN  UnitOut(e, "r") \cup AnyOf(e.o, "r", Ch \cup {VNeg(c) : c \in Ch}, 32, e.p)
      \cup Frame(e) \cup Self(e)

\* spherical cubic blending, and its control points
QLog(q) == LET v == SubSeq(q, 1, 3) l == Length(v) IN
           IF Eq(l, 0) THEN VZero(3) ELSE VScale(v, Atan2(l, q[4]) // l)
QExp(v) == LET l == Length(v) IN IF Eq(l, 0) THEN QOne ELSE VScale(v, Sin(l) // l) \o <<Cos(l)>>
QSquadStep(e) ==
  LET a == QUnit(V(e, "a")) b == QUnit(V(e, "b")) c == QUnit(V(e, "c")) d == QUnit(V(e, "d")) t == K(e, "t")
      \* well away from opposite, where the arcs are determined
      far(x, y) == Lt(N("-0.9"), Dot(x, y))
      near(x, y) == Lt(N("0.9499"), Dot(x, y))
      arc(x, y, w) == IF near(x, y) THEN QLerp(x, y, w) ELSE QSlerp(x, y, w)
      p == VExact(arc(a, b, t)) q == VExact(arc(c, d, t))
      la == QMul(QConj(b), a) lc == QMul(QConj(b), c)
      ctl == QMul(b, QExp(VScale(VAdd(QLog(la), QLog(lc)), N("-0.25"))))
  IN  UnitOut(e, "squad")
      \cup (IF Eq(t, 0) THEN AnyOf(e.o, "squad", {VAbout(a, 4)}, 32, e.p)
            ELSE IF Eq(t, 1) THEN AnyOf(e.o, "squad", {VAbout(b, 4)}, 32, e.p)
            ELSE IF far(a, b) /\ far(c, d) /\ far(p, q)
                    /\ \A xy \in {<<a, b>>, <<c, d>>, <<p, q>>} : Lt(N("1e-3"), Abs(Dot(xy[1], xy[2]) -- N("0.95")))
            THEN BadOut(e.o, [squad |-> VAbout(arc(p, q, (N(2) ** t) ** (1 -- t)), 16)], 64, e.p) ELSE {})
      \cup (IF Lt(N("-0.9"), la[4]) /\ Lt(N("-0.9"), lc[4]) THEN BadOut(e.o, [ctl |-> VAbout(ctl, 16)], 64, e.p) ELSE {})
      \cup Frame(e) \cup Self(e)

--------------------------------------------------------------------------------
QuatS0 == <<>>
QuatStep(s, e) == [s |-> <<>>, bad |->
  CASE e.op = "q.alg" -> QAlg(e)
    [] e.op = "q.conv" -> QConv(e)
    [] e.op = "q.arc" -> QArc(e)
    [] e.op = "q.lerp" -> QLerpStep(e)
    [] e.op = "q.max" -> QMaxStep(e)
    [] e.op = "q.squad" -> QSquadStep(e)
    [] e.op = "crash" -> {"crash"}]
================================================================================
