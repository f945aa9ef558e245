---------------------------------- MODULE Vec ----------------------------------
(***************************************************************************)
(* Contract of Vec2, Vec3 and Vec4 (properties V01, V02, V03).             *)
(*                                                                         *)
(* VecStep(s, e): e is one observed call; s is the abstract state, the     *)
(* exact value of the one vector object that a history works on (<<>>      *)
(* outside histories).  The result is the next abstract state and the set  *)
(* of clauses of the contract that the observation violates.               *)
(***************************************************************************)
EXTENDS Geo

V(e, n) == NumSeq(e.a[n])
K(e, n) == N(e.a[n][1])

Frame(e) == BadBool(e.b, [frame |-> {TRUE}])
Self(e)  == BadBool(e.b, [self |-> {TRUE}])

\* what majorCoord/minorCoord may answer: any coordinate with the largest/smallest absolute value
Extreme(a, Before(_, _)) == {c \in 1..Len(a) : \A d \in 1..Len(a) : Before(Abs(a[c]), Abs(a[d]))}
Major(a) == Extreme(a, LAMBDA x, y : Le(y, x))
Minor(a) == Extreme(a, LAMBDA x, y : Le(x, y))
Put(a, c, k)  == [a EXCEPT ![c] = k]
Move(a, c, k) == [a EXCEPT ![c] = a[c] ++ k]

\* operations all vector classes share; exact ones (no rounding at all) first
CommonExact(a, b, k) ==
  [neg |-> VNeg(a), min |-> VMin(a, b), max |-> VMax(a, b), dbl |-> VAdd(a, a), nil |-> VZero(Len(a)),
   id |-> a, fill |-> [i \in 1..Len(a) |-> k], idb |-> b]
CommonRounded(a, b, k) ==
  [add |-> VAdd(a, b), sub |-> VSub(a, b), mul |-> VScale(a, k), dot |-> <<Dot(a, b)>>,
   len |-> <<Length(a)>>, lensq |-> <<LenSqr(a)>>, prod |-> VProd(a, b)]
BadCommon(e, a, b, k) ==
  BadOut(e.o, CommonExact(a, b, k), 0, e.p) \cup BadOut(e.o, CommonRounded(a, b, k), 16, e.p)
  \cup (IF Eq(k, 0) THEN {} ELSE BadOut(e.o, [div |-> VDiv(a, k)], 16, e.p))
  \cup BadBool(e.b, [null |-> {IsZeroV(a)}, eq |-> {VEq(a, b)}, ne |-> {~VEq(a, b)}])
  \cup Frame(e) \cup Self(e)

V2Alg(e) == LET a == V(e, "a") b == V(e, "b") c == V(e, "c") k == K(e, "k") IN
  BadCommon(e, a, b, k)
  \cup BadOut(e.o, [x |-> <<a[1]>>, y |-> <<a[2]>>, setx |-> Put(a, 1, k), sety |-> Put(a, 2, k),
                    axes |-> Flat(<<VZero(2), Unit(2, 1), Unit(2, 2)>>)], 0, e.p)
  \cup BadOut(e.o, [cross |-> <<Perp(a, b)>>, dist |-> <<Length(VSub(b, a))>>, distsqr |-> <<LenSqr(VSub(b, a))>>, cross3 |-> <<Perp(VSub(b, a), VSub(c, a))>>,
                    movx |-> Move(a, 1, k), movy |-> Move(a, 2, k)], 16, e.p)
  \cup BadInt(e.i, [major |-> Major(a), minor |-> Minor(a)])

V3Alg(e) == LET a == V(e, "a") b == V(e, "b") k == K(e, "k") IN
  BadCommon(e, a, b, k)
  \cup BadOut(e.o, [x |-> <<a[1]>>, y |-> <<a[2]>>, z |-> <<a[3]>>,
                    setx |-> Put(a, 1, k), sety |-> Put(a, 2, k), setz |-> Put(a, 3, k),
                    crossx |-> Cross(a, Unit(3, 1)), crossy |-> Cross(a, Unit(3, 2)), crossz |-> Cross(a, Unit(3, 3)),
                    crossnx |-> Cross(Unit(3, 1), a), crossny |-> Cross(Unit(3, 2), a), crossnz |-> Cross(Unit(3, 3), a),
                    axes |-> Flat(<<VZero(3), Unit(3, 1), Unit(3, 2), Unit(3, 3)>>)], 0, e.p)
  \cup BadOut(e.o, [cross |-> Cross(a, b), dist |-> <<Length(VSub(b, a))>>, distsqr |-> <<LenSqr(VSub(b, a))>>, movx |-> Move(a, 1, k), movy |-> Move(a, 2, k), movz |-> Move(a, 3, k)], 16, e.p)
  \cup BadInt(e.i, [major |-> Major(a), minor |-> Minor(a)])

V4Alg(e) == LET a == V(e, "a") b == V(e, "b") k == K(e, "k") b3 == <<b[1], b[2], b[3], Zero>> a3 == SubSeq(a, 1, 3) IN
  BadCommon(e, a, b, k)
  \cup BadOut(e.o, [setx |-> Put(a, 1, k), sety |-> Put(a, 2, k), setz |-> Put(a, 3, k), setw |-> Put(a, 4, k),
                    xyz |-> a3, point |-> a3 \o <<One>>, dir |-> a3 \o <<Zero>>,
                    axes |-> Flat(<<VZero(4), <<One, Zero, Zero, One>>, <<Zero, One, Zero, One>>, <<Zero, Zero, One, One>>,
                                    Unit(4, 4), Unit(4, 1), Unit(4, 2), Unit(4, 3)>>)], 0, e.p)
  \cup BadOut(e.o, [add3 |-> VAdd(a, b3), sub3 |-> VSub(a, b3), movx |-> Move(a, 1, k), movy |-> Move(a, 2, k),
                    movz |-> Move(a, 3, k), movw |-> Move(a, 4, k)], 16, e.p)

(* Dropping a coordinate keeps the other two; adding one is its inverse.   *)
(* The pair left by dropping Y is ordered Z, X by Vec3 (cyclic), which is  *)
(* what the lifting constructor undoes.                                    *)
VConv(e) == LET a == V(e, "a") u == V(e, "u") IN
  BadOut(e.o, [dropx |-> <<a[2], a[3]>>, dropy |-> <<a[3], a[1]>>, dropz |-> <<a[1], a[2]>>,
               liftx |-> <<Zero, u[1], u[2]>>, lifty |-> <<u[2], Zero, u[1]>>, liftz |-> <<u[1], u[2], Zero>>], 0, e.p)
  \cup Frame(e)

(* The crossing of the lines through <f, t> and <a, b>, as parameters.     *)
V2Seg(e) ==
  LET f == V(e, "f") t == V(e, "t") a == V(e, "a") b == V(e, "b")
      d == Perp(VSub(t, f), VSub(b, a))
      sure == Sgn(d, 8, e.p)
      found == e.i.found[1] # 0
  IN  BadIf([found |-> (sure # 0 => found) /\ (Eq(d, 0) /\ OnGrid(f \o t \o a \o b) => ~found)])
      \cup (IF found /\ sure # 0
            THEN BadOut(e.o, [ftp |-> <<Perp(VSub(a, f), VSub(b, a)) // d>>, abp |-> <<Perp(VSub(a, f), VSub(t, f)) // d>>], 32, e.p)
            ELSE IF ~found THEN BadOut(e.o, [ftp |-> <<Zero>>, abp |-> <<Zero>>], 0, e.p) ELSE {})
      \cup Frame(e)

--------------------------------------------------------------------------------
(* histories: the next value of the object *)
ChainNext(s, e) ==
  CASE e.w = "add" -> VAdd(s, V(e, "b"))
    [] e.w = "sub" -> VSub(s, V(e, "b"))
    [] e.w = "mul" -> VScale(s, K(e, "k"))
    [] e.w = "div" -> VDiv(s, K(e, "k"))
    [] e.w = "dbl" -> VAdd(s, s)
    [] e.w = "neg" -> VNeg(s)
    [] e.w = "set" -> Put(s, e.a.j, K(e, "k"))

\* The whole history is tracked: s carries the exact result of all steps so far together with
\* the magnitude that rounding is relative to; the observed value must stay within it.
Chain(s, e) ==
  IF e.w = "start" THEN [s |-> V(e, "r"), bad |-> BadOut(e.o, [r |-> V(e, "r")], 0, e.p)]
  ELSE LET x == ChainNext(s, e)
           o == NumSeq(e.o.r[1])
       IN [s |-> o, bad |-> BadOut(e.o, [r |-> x], 4, e.p) \cup Self(e)]

--------------------------------------------------------------------------------
(* V02 *)
V2Rot(e) == LET a == V(e, "a") t == K(e, "t") k == K(e, "k") m == Rot2(t) u == Normalized(a) IN
  BadOut(e.o, [r90 |-> <<Neg(a[2]), a[1]>>, r180 |-> VNeg(a), r270 |-> <<a[2], Neg(a[1])>>,
               mirx |-> <<Neg(a[1]), a[2]>>, miry |-> <<a[1], Neg(a[2])>>], 0, e.p)
  \cup BadOut(e.o, [rot |-> MVec(m, a), polar |-> VScale(m[1], k), dir |-> m[1], len |-> <<Length(a)>>], 16, e.p)
  \cup (IF IsZeroV(a) THEN BadOut(e.o, [unit |-> a, norm |-> a], 0, e.p)
        ELSE BadOut(e.o, [unit |-> u, norm |-> VScale(u, k)], 32, e.p)
             \* the angle from the x axis; the whole turn between +pi and -pi is a matter of rounding
             \cup BadIf([angle |-> \A i \in 1..Len(e.o.angle) :
                    LET o == N(e.o.angle[i][1]) w == Atan2(a[2], a[1]) IN
                    \/ Within(o, w, 16, e.p)
                    \/ Eq(a[2], 0) /\ Lt(a[1], 0) /\ Within(o, Neg(w), 16, e.p)]))
  \cup Frame(e) \cup Self(e)

V3Rot(e) == LET a == V(e, "a") t == K(e, "t") k == K(e, "k") u == Normalized(a) IN
  BadOut(e.o, [mirx |-> Put(a, 1, Neg(a[1])), miry |-> Put(a, 2, Neg(a[2])), mirz |-> Put(a, 3, Neg(a[3]))], 0, e.p)
  \cup BadOut(e.o, [rotx |-> MVec(RotCoord(1, t), a), roty |-> MVec(RotCoord(2, t), a), rotz |-> MVec(RotCoord(3, t), a),
                    len |-> <<Length(a)>>], 16, e.p)
  \cup (IF IsZeroV(a) THEN BadOut(e.o, [unit |-> a, norm |-> a], 0, e.p)
        ELSE BadOut(e.o, [unit |-> u, norm |-> VScale(u, k)], 32, e.p))
  \cup Frame(e) \cup Self(e)

--------------------------------------------------------------------------------
(* V03 *)
AngleBetween2(u, v) == Atan2(Perp(u, v), Dot(u, v))
AngleBetween3(u, v) == Atan2(Length(Cross(u, v)), Dot(u, v))
LerpK(x, y, t) == x ++ ((y -- x) ** t)
\* u turned by the angle x in the plane and given length h
Turn2(u, x, h) == VScale(MVec(Rot2(x), Normalized(u)), h)
\* Which way round: decided by the sign of the angle, unless the vectors are opposite up to the
\* rounding of directions (an ulp of pi each).
AngleChoices2(u, v, p) ==
  LET x == AngleBetween2(u, v) s == Sgn(Perp(u, v), 16, p) IN
  IF (s = 0 /\ Lt(Dot(u, v), 0)) \/ Within(Abs(x), Pi, 4, p) THEN {x, IF Lt(x, 0) THEN x ++ (Pi ** 2) ELSE x -- (Pi ** 2)} ELSE {x}
\* turning by at most m, as a fraction of the whole angle
MaxTurn(x, m) == IF Le(Abs(x), m) THEN One ELSE m // Abs(x)

AnyOf(o, n, choices, k, p) == BadIf([i \in {n} |-> \A j \in 1..Len(o[n]) : \E c \in choices : WithinSeq(o[n][j], c, k, p)])

\* the results of turning u to v through the fraction F(x) of the angle x between them
Turned2(u, v, F(_), p) ==
  {LET f == Exact(F(x)) h == LerpK(Length(u), Length(v), f)
       \* measured angles are uncertain by an ulp of pi, and so is a fraction of them
       unc == (Mag(h) ** 8) ** (1 ++ (IF Eq(f, 1) \/ Eq(x, 0) THEN Zero ELSE f // Abs(x)))
   IN VWiden(Turn2(u, x ** f, h), unc) : x \in AngleChoices2(u, v, p)}
V2Clerp(e) == LET u == V(e, "u") v == V(e, "v") t == K(e, "k") IN
  (IF Eq(t, 0) THEN BadOut(e.o, [r |-> u], 4, e.p) ELSE IF Eq(t, 1) THEN BadOut(e.o, [r |-> v], 4, e.p)
   ELSE AnyOf(e.o, "r", {VWiden(c, (Length(u) ++ Length(v)) ** 8) : c \in Turned2(u, v, LAMBDA x : t, e.p)}, 16, e.p))
  \cup BadOut(e.o, [lerp |-> VLerp(u, v, t)], 16, e.p)
  \cup Frame(e) \cup Self(e)
V2ClerpMax(e) == LET u == V(e, "u") v == V(e, "v") m == K(e, "k") IN
  (IF Eq(m, 0) THEN BadOut(e.o, [r |-> u], 4, e.p)
   ELSE AnyOf(e.o, "r", Turned2(u, v, LAMBDA x : MaxTurn(x, m), e.p), 16, e.p))
  \cup Frame(e) \cup Self(e)

\* "nearly parallel": blending linearly is accepted within about three degrees
NearlyParallel(u, v) == /\ Lt(0, Dot(u, v))
                        /\ Lt(LenSqr(Cross(u, v)), (LenSqr(u) ** LenSqr(v)) ** N("0.002525"))
\* the sine of the angle, with the uncertainty its computation has
Sin3(u, v) == Widen(Exact(Length(Cross(u, v)) // (Length(u) ** Length(v))), One)
\* what turning u by the angle x satisfies, whatever the axis: length h (uncertain by more), and the angle
BadTurn(e, u, x, h, slack, more) ==
  BadIf([r |-> \A j \in 1..Len(e.o.r) : LET w == NumSeq(e.o.r[j]) IN
     /\ Within(Length(w), Widen(h, (Mag(h) ** 4) ++ more), 16, e.p)
     /\ Within(Dot(w, u), Widen((Cos(x) ** h) ** Length(u), ((Mag(h) ** (8 ++ slack)) ++ more) ** Length(u)), 16, e.p)])
\* w is u turned in the plane of u and v by the fraction f of their angle; where f follows from that angle,
\* its relative uncertainty is the angle's
V3SlerpR(e, u, v, f, lin, known) ==
  LET th == Exact(AngleBetween3(u, v))
      h == LerpK(Length(u), Length(v), f)
      sn == Sin3(u, v)
      slack == IF Eq(sn, 0) THEN Zero ELSE Exact(1 // sn) ** 4
      linear == VLerp(u, v, f)
      more == IF known THEN Zero ELSE Exact(Abs(Length(v) -- Length(u))) ** (IF Sgn(sn, 16, e.p) = 0 THEN Exp2(N(e.p)) ELSE f ** slack)
  IN  IF lin /\ \A j \in 1..Len(e.o.r) : WithinSeq(e.o.r[j], linear, 32, e.p) THEN {}
      ELSE IF Sgn(sn, 16, e.p) = 0 \* (anti)parallel up to rounding: the plane is not determined
      THEN IF Lt(0, Dot(u, v)) THEN BadOut(e.o, [r |-> VWiden(linear, (Mag(h) ** 4) ++ more)], 64, e.p)
           ELSE BadTurn(e, u, th ** f, h, slack, more)
      ELSE BadTurn(e, u, th ** f, h, slack, more) \cup
           BadOut(e.o, [r |-> VWiden(VExact(VScale(RotVec(Normalized(Cross(u, v)), th ** f, Normalized(u)), h)),
                                     (Mag(h) ** (16 ++ slack)) ++ more)], 16, e.p)
V3Slerp(e) == LET u == V(e, "u") v == V(e, "v") t == K(e, "k") IN
  (IF Eq(t, 0) THEN BadOut(e.o, [r |-> u], 4, e.p) ELSE IF Eq(t, 1) THEN BadOut(e.o, [r |-> v], 4, e.p)
   ELSE IF IsZeroV(u) \/ IsZeroV(v) THEN BadOut(e.o, [r |-> VLerp(u, v, t)], 16, e.p)
   ELSE V3SlerpR(e, u, v, t, NearlyParallel(u, v), TRUE))
  \cup BadOut(e.o, [lerp |-> VLerp(u, v, t)], 16, e.p)
  \cup Frame(e) \cup Self(e)
V3SlerpMax(e) == LET u == V(e, "u") v == V(e, "v") m == K(e, "k") IN
  (IF Eq(m, 0) THEN BadOut(e.o, [r |-> u], 4, e.p)
   ELSE IF IsZeroV(u) THEN BadOut(e.o, [r |-> v], 4, e.p)
   ELSE IF IsZeroV(v) THEN BadOut(e.o, [r |-> u], 4, e.p)
   ELSE V3SlerpR(e, u, v, Exact(MaxTurn(Exact(AngleBetween3(u, v)), m)), FALSE, FALSE))
  \cup Frame(e) \cup Self(e)

--------------------------------------------------------------------------------
VecS0 == <<>>
Stateless(bad) == [s |-> <<>>, bad |-> bad]
VecStep(s, e) ==
  CASE e.op = "v2.alg" -> Stateless(V2Alg(e))
    [] e.op = "v3.alg" -> Stateless(V3Alg(e))
    [] e.op = "v4.alg" -> Stateless(V4Alg(e))
    [] e.op = "v.conv" -> Stateless(VConv(e))
    [] e.op = "v2.seg" -> Stateless(V2Seg(e))
    [] e.op \in {"v2.hist", "v3.hist", "v4.hist"} -> Chain(s, e)
    [] e.op = "v2.rot" -> Stateless(V2Rot(e))
    [] e.op = "v3.rot" -> Stateless(V3Rot(e))
    [] e.op = "v2.clerp" -> Stateless(V2Clerp(e))
    [] e.op = "v2.clerpmax" -> Stateless(V2ClerpMax(e))
    [] e.op = "v3.slerp" -> Stateless(V3Slerp(e))
    [] e.op = "v3.slerpmax" -> Stateless(V3SlerpMax(e))
    [] e.op = "crash" -> Stateless({"crash"})
================================================================================
