---------------------------------- MODULE Mat ----------------------------------
(***************************************************************************)
(* Contract of Mat2, Mat3, Mat34 and Mat4 (properties M01 .. M04).         *)
(*                                                                         *)
(* A matrix is the sequence of its columns.  The kind of a matrix is 2, 3, *)
(* 34 or 4; a Mat34 (rotation-scale and translation) is handled as the     *)
(* affine 4 x 4 matrix it stands for.                                      *)
(*                                                                         *)
(* The abstract state of a history is the value of the matrix object and   *)
(* whether its flags may under-report ("loose": after construction from a  *)
(* scalar, as the flags are only analysed by later operations).            *)
(***************************************************************************)
EXTENDS Quat

KindOf == [x \in {"m2.alg", "m2.hist", "m2.arr"} |-> 2] @@ [x \in {"m3.alg", "m3.hist", "m3.arr"} |-> 3]
       @@ [x \in {"m34.alg", "m34.hist", "m34.arr", "m34.scale"} |-> 34] @@ [x \in {"m4.alg", "m4.hist", "m4.arr", "m4.scale"} |-> 4]
\* from the observed sequence of components, and back
Aff(s) == LET c == UnFlat(s, 3) IN <<c[1] \o <<Zero>>, c[2] \o <<Zero>>, c[3] \o <<Zero>>, c[4] \o <<One>> >>
Read(kd, s) == CASE kd = 2 -> UnFlat(s, 2) [] kd = 3 -> UnFlat(s, 3) [] kd = 34 -> Aff(s) [] kd = 4 -> UnFlat(s, 4)
Cut3(m) == [j \in 1..3 |-> SubSeq(m[j], 1, 3)]
Show(kd, m) == IF kd = 34 THEN Flat([j \in 1..4 |-> SubSeq(m[j], 1, 3)]) ELSE Flat(m)
\* the affine 4 x 4 matrix of a 3 x 3 matrix and a translation
Affine(r, t) == <<r[1] \o <<Zero>>, r[2] \o <<Zero>>, r[3] \o <<Zero>>, t \o <<One>> >>
Embed(kd, r) == IF kd = 3 THEN r ELSE Affine(r, VZero(3))
Mat(e, n) == Read(KindOf[e.op], V(e, n))

--------------------------------------------------------------------------------
(* how far from normal, orthogonal, identity: sums of squares *)
Sq(a) == a ** a
ErrTerms(cols) == [j \in 1..Len(cols) |-> LenSqr(cols[j]) -- One]
OrthoTerms(cols) == [x \in {<<i, j>> \in (1..Len(cols)) \X (1..Len(cols)) : i < j} |-> Dot(cols[x[1]], cols[x[2]])]
IdentTerms(m) == LET d == MIdent(Len(m)) IN Flat([j \in 1..Len(m) |-> VSub(m[j], d[j])])
LastRow(m) == [j \in 1..4 |-> m[j][4]]
IsTrs(m) == VEq(LastRow(m), <<Zero, Zero, Zero, One>>)
\* the columns that count
Measured(kd, m) == IF kd = 34 \/ (kd = 4 /\ IsTrs(m)) THEN Cut3(m) ELSE m
RECURSIVE SumSet(_, _)
SumSet(f, S) == IF S = {} THEN Zero ELSE LET x == CHOOSE x \in S : TRUE IN f[x] ++ SumSet(f, S \ {x})
\* the least and the largest sum of squares that evaluation with p bits can produce
LowU(f, u) == SumSet([x \in DOMAIN f |-> LET b == Abs(f[x]) -- (u ** Mag(f[x])) IN IF Lt(b, Zero) THEN Zero ELSE Exact(Sq(b))], DOMAIN f)
HighU(f, u) == SumSet([x \in DOMAIN f |-> Exact(Sq(Abs(f[x]) ++ (u ** Mag(f[x]))))], DOMAIN f)
Low(f, p)  == LowU(f, Ulp(p) ** 8)
High(f, p) == HighU(f, Ulp(p) ** 8)
\* the documented tolerances: a squared error of 1e-3, and identity at rounding level
DefaultTol(p) == <<N("1e-3"), N("1e-3"), N(400) ** Ulp(p) ** Ulp(p)>>
Above == N("1.01")
Below == N("0.99")
Plain(m) == [j \in 1..Len(m) |-> VExact(m[j])]

NearIdent(m, p) == Le(Low(IdentTerms(m), p), DefaultTol(p)[3] ** N("1.1"))
NearRigid(m, p) == LET c == Plain(m) IN Le(Low(ErrTerms(c), p), N("1.01e-3")) /\ Le(Low(OrthoTerms(c), p), N("1.01e-3"))

(* the flags b of a matrix with the observed columns m *)
BadFlags(kd, m, b, loose, tol, p) ==
  LET c == Plain(Measured(kd, m))
      nt == ErrTerms(c) ot == OrthoTerms(c)
      it == IdentTerms(IF kd = 34 THEN Cut3(Plain(m)) ELSE Plain(m))
      \* computing with few small digits is exact
      u == IF OnGrid(Flat(m)) THEN Zero ELSE Ulp(p) ** 8
      May(t, k) == Le(LowU(t, u), tol[k] ** Above)
      MayNot(t, k) == loose \/ Le(tol[k] ** Below, HighU(t, u))
      moved == kd = 34 /\ ~IsZeroV(SubSeq(m[4], 1, 3))
      normal == b.normal[1] orthogonal == b.orthogonal[1] identity == b.identity[1]
  IN  BadIf([normal |-> IF normal THEN May(nt, 1) ELSE MayNot(nt, 1),
             orthogonal |-> IF orthogonal THEN May(ot, 2) ELSE MayNot(ot, 2),
             orthonormal |-> b.orthonormal[1] = (normal /\ orthogonal),
             identity |-> IF identity THEN normal /\ orthogonal /\ May(it, 3) /\ ~moved
                          ELSE MayNot(it, 3) \/ ~normal \/ ~orthogonal \/ moved,
             init |-> b.init[1],
             trs |-> kd # 4 \/ (IF b.trs[1] THEN IsTrs(m) ELSE loose \/ ~IsTrs(m))])

--------------------------------------------------------------------------------
(* products: a factor that is the identity up to rounding may be left out *)
ProdChoices(kd, a, b, p) ==
  IF kd # 34 THEN {MMul(a, b)} \cup (IF NearIdent(a, p) THEN {b} ELSE {}) \cup (IF NearIdent(b, p) THEN {a} ELSE {})
  ELSE LET t == SubSeq(MVec(a, b[4]), 1, 3) ra == Cut3(a) rb == Cut3(b) IN
       {Affine(MMul(ra, rb), t)} \cup (IF NearIdent(ra, p) THEN {Affine(rb, t)} ELSE {}) \cup (IF NearIdent(rb, p) THEN {Affine(ra, t)} ELSE {})

\* inverses.  A matrix that is orthonormal within the documented tolerance may be taken as exactly so.
RigidInv(m) == LET r == MTrans(Cut3(m)) IN Affine(r, VNeg(MVec(r, SubSeq(m[4], 1, 3))))
AffInv(m) == LET r == MInv(Cut3(m)) IN Affine(r, VNeg(MVec(r, SubSeq(m[4], 1, 3))))
Small(m) == \A j \in 1..Len(m) : \A i \in 1..Len(m[j]) : Eq(Floor(m[j][i]), m[j][i]) /\ Le(Abs(m[j][i]), 8)
InvChoices(kd, m, p) ==
  LET core == IF kd = 34 THEN Cut3(m) ELSE m
      d == Det(core)
      affine == kd = 34 \/ (kd = 4 /\ IsTrs(m))
      rigid == IF affine THEN NearRigid(Cut3(m), p) ELSE kd = 3 /\ NearRigid(m, p)
  IN  (IF Sgn(d, 64, p) = 0 THEN {}
       ELSE {IF kd = 34 THEN AffInv(m) ELSE MInv(m)})
      \cup (IF ~rigid THEN {} ELSE {IF affine THEN RigidInv(m) ELSE MTrans(m)})
      \cup (IF kd = 34 /\ NearIdent(core, p) /\ IsZeroV(SubSeq(m[4], 1, 3)) THEN {m} ELSE {})
\* singular for certain (a computation with small integers is exact): the inverse is null
Singular(kd, m) == Small(m) /\ Eq(Det(IF kd = 34 THEN Cut3(m) ELSE m), 0)
BadInv(e, kd, m, n) ==
  LET c == InvChoices(kd, m, e.p) IN
  IF Singular(kd, m) THEN BadOut(e.o, [x \in {n} |-> VZero(Len(e.o[n][1]))], 0, e.p)
  ELSE IF c = {} THEN {} ELSE AnyOf(e.o, n, {Show(kd, x) : x \in c}, 64, e.p)

--------------------------------------------------------------------------------
(* M01: the algebra of matrices *)
Shown(kd, S) == {Show(kd, x) : x \in S}
AlgCommon(e, kd) ==
  LET a == Mat(e, "a") b == Mat(e, "b") IN
  AnyOf(e.o, "ab", Shown(kd, ProdChoices(kd, a, b, e.p)), 16, e.p)
  \cup AnyOf(e.o, "aa", Shown(kd, ProdChoices(kd, a, a, e.p)), 16, e.p)
  \cup BadOut(e.o, [id |-> V(e, "a"), neg |-> VNeg(V(e, "a")),
                    tr |-> IF kd = 34 THEN Show(34, Affine(MTrans(Cut3(a)), SubSeq(a[4], 1, 3))) ELSE Flat(MTrans(a))], 0, e.p)
  \cup BadInv(e, kd, a, "inv")
  \cup BadBool(e.b, [eq |-> {VEq(V(e, "a"), V(e, "b"))}, ne |-> {~VEq(V(e, "a"), V(e, "b"))}])
  \cup Frame(e) \cup Self(e)
Total(f) == SumSet([x \in DOMAIN f |-> Sq(f[x])], DOMAIN f)
AlgSquare(e, kd) ==
  LET a == Mat(e, "a") k == K(e, "k") c == Measured(kd, a) IN
  BadOut(e.o, [ak |-> Flat(MScaleK(a, k)), trace |-> <<Trace_(a)>>, det |-> <<Det(a)>>,
               nerr |-> <<Total(ErrTerms(c))>>, oerr |-> <<Total(OrthoTerms(c))>>, ierr |-> <<Total(IdentTerms(a))>>], 16, e.p)
  \cup (IF Eq(k, 0) THEN {} ELSE BadOut(e.o, [adk |-> Flat(MScaleK(a, One // k))], 16, e.p))
Ident(kd) == Show(kd, MIdent(IF kd = 34 THEN 4 ELSE kd))

M2Alg(e) == LET a == Mat(e, "a") v == V(e, "v") k == K(e, "k") IN
  AlgCommon(e, 2) \cup AlgSquare(e, 2)
  \cup BadOut(e.o, [av |-> MVec(a, v), va |-> VMat(v, a)], 16, e.p)
  \cup BadOut(e.o, [cof |-> Flat(MTrans(Adj(a))), adj |-> Flat(Adj(a)), consts |-> VZero(4), one |-> Ident(2), diag |-> Flat(MDiag(<<k, k>>))], 0, e.p)
  \cup (IF IsZeroV(a[1]) THEN {} ELSE
        BadIf([angle |-> \A i \in 1..Len(e.o.angle) : \/ Within(N(e.o.angle[i][1]), Atan2(a[1][2], a[1][1]), 16, e.p)
                                                      \/ Eq(a[1][2], 0) /\ Within(N(e.o.angle[i][1]), Neg(Pi), 16, e.p)]))
M3Alg(e) == LET a == Mat(e, "a") v == V(e, "v") k == K(e, "k") IN
  AlgCommon(e, 3) \cup AlgSquare(e, 3)
  \cup BadOut(e.o, [av |-> MVec(a, v), va |-> VMat(v, a), cof |-> Flat(MTrans(Adj(a))), adj |-> Flat(Adj(a))], 16, e.p)
  \cup BadOut(e.o, [zero |-> VZero(9), one |-> Ident(3), diag |-> Flat(MDiag(<<k, k, k>>))], 0, e.p)
M34Alg(e) == LET a == Mat(e, "a") b == Mat(e, "b") v == V(e, "v") k == K(e, "k") IN
  AlgCommon(e, 34)
  \cup BadOut(e.o, [av |-> SubSeq(MVec(a, v \o <<One>>), 1, 3)], 16, e.p)
  \cup AnyOf(e.o, "abrs", Shown(34, ProdChoices(34, a, Affine(Cut3(b), VZero(3)), e.p)), 16, e.p)
  \cup BadOut(e.o, [cx |-> SubSeq(a[1], 1, 3), cy |-> SubSeq(a[2], 1, 3), cz |-> SubSeq(a[3], 1, 3),
                    zero |-> VZero(12), one |-> Ident(34), diag |-> Show(34, Affine(MDiag(<<k, k, k>>), VZero(3)))], 0, e.p)
M4Alg(e) == LET a == Mat(e, "a") v == V(e, "v") v3 == SubSeq(v, 1, 3) k == K(e, "k") IN
  AlgCommon(e, 4) \cup AlgSquare(e, 4)
  \cup BadOut(e.o, [av |-> MVec(a, v), av3 |-> SubSeq(MVec(a, v3 \o <<One>>), 1, 3),
                    dv3 |-> SubSeq(MVec(a, v3 \o <<Zero>>), 1, 3), dv4 |-> MVec(a, v3 \o <<Zero>>)], 16, e.p)
  \cup BadOut(e.o, [cx |-> a[1], cy |-> a[2], cz |-> a[3],
                    zero |-> VZero(16), one |-> Ident(4), diag |-> Flat(MDiag(<<k, k, k, One>>))], 0, e.p)

--------------------------------------------------------------------------------
(* M02: the same rotation by every route *)
BadRot(e, r, k) ==
  BadOut(e.o, [m |-> Flat(r), rv |-> MVec(r, V(e, "v"))], k, e.p)
  \cup BadOut(e.o, [t |-> V(e, "t"), t0 |-> VZero(3), last |-> <<Zero, Zero, Zero, One>>], 0, e.p)
  \cup BadBool(e.b, [ortho |-> {TRUE}, trs |-> {TRUE}]) \cup Frame(e) \cup Self(e)
\* entries of a rotation are accurate to a few units in the last place of 1
Rounded(r, w) == [j \in 1..Len(r) |-> VWiden(VExact(r[j]), N(w))]
MAxis(e) == LET u == Normalized(V(e, "u")) x == K(e, "x") IN
  BadRot(e, Rounded(RotAxis(u, x), 2 ++ Abs(x)), 16) \cup BadOut(e.o, [q |-> QAxisAngle(u, x)], 16, e.p)
MCoord(e) == LET x == K(e, "x") IN
  BadRot(e, Rounded(RotCoord(e.a.c, x), 2 ++ Abs(x)), 8) \cup BadOut(e.o, [m2 |-> Flat(Rot2(x))], 8, e.p)
MQuat(e) == BadRot(e, Rounded(QMat(QUnit(V(e, "q"))), N(2)), 16)
\* one axis exactly, another one as near as possible, the third by right-handedness
Third(i, j) == 6 - i - j
Positive3(i, j) == (j - i) % 3 = 1
MAxes(e) ==
  LET u == V(e, "u") v == V(e, "v") i == e.a.e j == e.a.f
      x == Normalized(u)
      w == VSub(v, VScale(x, Dot(v, x)))
      y == Normalized(w)
      z == IF Positive3(i, j) THEN Cross(x, y) ELSE Cross(y, x)
      \* the second axis is as uncertain as it is close to the first
      unc == VWiden(VExact(y), Exact(Length(v) // Length(w)) ** 4)
      zed == VWiden(VExact(z), Exact(Length(v) // Length(w)) ** 4)
      r == [k \in 1..3 |-> IF k = i THEN x ELSE IF k = j THEN unc ELSE zed]
      cr == Cross(v, u)
  IN  (IF IsZeroV(u) \/ IsZeroV(v) \/ (OnGrid(u \o v) /\ IsZeroV(cr) /\ Cardinality({k \in 1..3 : ~Eq(u[k], 0)}) = 1) THEN BadOut(e.o, [m |-> Ident(3)], 0, e.p)
       ELSE IF Sgn(LenSqr(cr), 4096, e.p) = 0 THEN {}
       ELSE BadOut(e.o, [m |-> Flat(r)], 16, e.p) \cup BadBool(e.b, [ortho |-> {TRUE}]))
      \cup BadOut(e.o, [t0 |-> VZero(3), last |-> <<Zero, Zero, Zero, One>>], 0, e.p)
      \cup BadBool(e.b, [trs |-> {TRUE}]) \cup Frame(e) \cup Self(e)
\* a rotation read back from a matrix is known to a few units in the last place of 1
QRead(q) == VWiden(VExact(QUnit(q)), One)
MSlerp(e) ==
  LET a == QRead(V(e, "qa")) b == QRead(V(e, "qb")) k == K(e, "k") IN
  AnyOf(e.o, "m", {Flat(QMat(VWiden(c, N(4)))) : c \in ShortChoices(a, b, k, e.p)}, 64, e.p)
  \cup BadOut(e.o, [t0 |-> VZero(3)], 0, e.p) \cup BadBool(e.b, [ortho |-> {TRUE}]) \cup Frame(e) \cup Self(e)
MSlerpMax(e) ==
  LET a == QRead(V(e, "qa")) b == QRead(V(e, "qb")) IN
  AnyOf(e.o, "m", {Flat(QMat(VWiden(c, N(4)))) : c \in MaxChoices(a, b, K(e, "k"), e.p)}, 64, e.p)
  \cup BadOut(e.o, [t0 |-> VZero(3)], 0, e.p) \cup BadBool(e.b, [ortho |-> {TRUE}]) \cup Frame(e) \cup Self(e)
\* planar rotations: the shorter way round (either, when opposite)
M2Slerp(e) ==
  LET x == K(e, "x") y == K(e, "y") k == K(e, "k") l == K(e, "l")
      d == y -- x
      n == Floor((d // (Pi ** 2)) ++ (One // 2))
      r == Exact(d -- ((Pi ** 2) ** n))                       \* in -pi .. pi
      other == IF Lt(Zero, r) THEN Exact(r -- (Pi ** 2)) ELSE Exact(r ++ (Pi ** 2))
      ways == {r} \cup (IF Lt(Pi -- (((Abs(x) ++ Abs(y)) ++ 8) ** Ulp(e.p) ** 16), Abs(r)) THEN {other} ELSE {})
      limit(z) == IF Le(Abs(z), l) THEN z ELSE IF Lt(z, Zero) THEN Neg(l) ELSE l
      unc == (Abs(x) ++ Abs(y)) ++ 8
  IN  AnyOf(e.o, "m", {VWiden(VExact(Flat(Rot2(Exact(x ++ (z ** k))))), unc) : z \in ways}, 16, e.p)
      \cup AnyOf(e.o, "lim", {VWiden(VExact(Flat(Rot2(Exact(x ++ limit(z))))), unc) : z \in ways}, 16, e.p)
      \cup BadBool(e.b, [ortho |-> {TRUE}]) \cup Frame(e) \cup Self(e)

--------------------------------------------------------------------------------
(* M03, M04: histories.  What a step may make of the matrix m. *)
Translation(t) == Affine(MIdent(3), t)
\* the matrix a step multiplies with
Factor(e, kd) ==
  CASE e.w \in {"rotc", "rotcp"} -> Embed(kd, RotCoord(e.a.c, K(e, "x")))
    [] e.w \in {"rotv", "rotvp"} -> Embed(kd, RotAxis(Normalized(V(e, "u")), K(e, "x")))
    [] e.w \in {"rotq", "rotqp"} -> Embed(kd, QMat(QUnit(V(e, "q"))))
    [] e.w \in {"rot", "rotp"} -> Rot2(K(e, "x"))
    [] e.w \in {"xf", "xfp", "mul"} -> Read(kd, V(e, "x"))
    [] e.w \in {"xf3", "xf3p"} -> Affine(UnFlat(V(e, "x3"), 3), VZero(3))
    [] e.w \in {"tra", "trap"} -> Translation(V(e, "t"))
    [] e.w = "sca" -> LET k == K(e, "u") IN MDiag(<<k, k, k, One>>)
    [] e.w = "scap" -> IF kd \in {34, 4} THEN MDiag(V(e, "k") \o <<One>>) ELSE MDiag(V(e, "k"))
PostSteps == {"rotc", "rotv", "rotq", "rot", "xf", "xf3", "tra", "sca"}
PreSteps == {"rotcp", "rotvp", "rotqp", "rotp", "xfp", "mul", "xf3p", "trap", "scap"}
SelfSteps == {"selfmul", "selfxf", "selfxfp"}
KeepSteps == {"opt", "opttol", "copy"}

NextChoices(e, kd, m) ==
  CASE e.w \in PostSteps -> ProdChoices(kd, Factor(e, kd), m, e.p)
    [] e.w \in PreSteps -> ProdChoices(kd, m, Factor(e, kd), e.p)
    [] e.w \in SelfSteps -> ProdChoices(kd, m, m, e.p)
    [] e.w = "mulk" -> {MScaleK(m, K(e, "k"))}
    [] e.w = "divk" -> {MScaleK(m, One // K(e, "k"))}
\* the nearest rotation to an almost rotation
BadOrtho(e, kd, full) ==
  LET all == Read(kd, NumSeq(e.o.r[1]))
      \* of an affine matrix, the turning part (nothing is said about the translation)
      m == IF kd = 4 THEN Cut3(full) ELSE full o == IF kd = 4 THEN Cut3(all) ELSE all
      c == Plain(m) oc == Plain(o)
      n == Total(ErrTerms(c)) ++ Total(OrthoTerms(c))
      close == Lt(n, N("1e-2")) /\ Lt(Zero, Det(m))
  IN  IF kd = 4 /\ ~IsTrs(full) THEN {} ELSE IF ~close THEN {} ELSE
      BadIf([affine |-> kd = 4 => IsTrs(all)]) \cup
      BadIf([rotation |-> Le(Low(ErrTerms(oc), e.p), N(1000) ** Ulp(e.p) ** Ulp(e.p)) /\ Le(Low(OrthoTerms(oc), e.p), N(1000) ** Ulp(e.p) ** Ulp(e.p)) /\ Lt(Zero, Det(o)),
             near |-> \A j \in 1..Len(m) : Le(MaxAbs(VSub(o[j], m[j])), (Sqrt(Exact(n)) ** 6) ++ (N(64) ** Ulp(e.p)))])

BadNext(s, e, kd) ==
  LET m == s.m IN
  CASE e.w = "cols" -> BadOut(e.o, [r |-> V(e, "x")], 0, e.p)
    [] e.w = "ident" -> BadOut(e.o, [r |-> Ident(kd)], 0, e.p)
    [] e.w = "scalar" -> LET k == K(e, "k") IN
         BadOut(e.o, [r |-> CASE kd \in {2, 3} -> Flat(MDiag([i \in 1..kd |-> k])) [] OTHER -> Show(kd, MDiag(<<k, k, k, One>>))], 0, e.p)
    [] e.w \in KeepSteps -> BadOut(e.o, [r |-> Show(kd, m)], 0, e.p)
    \* to the other precision and back
    [] e.w = "cast" -> BadOut(e.o, [r |-> VExact(Show(kd, m))], IF e.p = 24 THEN 0 ELSE 1, 24)
    [] e.w = "neg" -> BadOut(e.o, [r |-> VNeg(Show(kd, m))], 0, e.p)
    [] e.w = "trans" -> BadOut(e.o, [r |-> IF kd = 34 THEN Show(34, Affine(MTrans(Cut3(m)), SubSeq(m[4], 1, 3))) ELSE Flat(MTrans(m))], 0, e.p)
    [] e.w = "inv" -> BadInv(e, kd, m, "r")
    [] e.w = "ortho" -> BadOrtho(e, kd, m)
    \* translating and scaling are defined for affine matrices
    [] kd = 4 /\ e.w \in {"tra", "trap", "sca", "scap"} /\ ~IsTrs(m) -> {}
    [] OTHER -> AnyOf(e.o, "r", Shown(kd, NextChoices(e, kd, m)), 32, e.p)

Core(kd, m) == IF kd = 34 THEN Cut3(m) ELSE m
\* the flags may be under-reported as long as nothing was computed since a scalar construction
LooseNext(s, e, kd, m) ==
  \/ e.w = "scalar"
  \/ s.loose /\ (e.w = "neg" \/ (e.w \notin {"cols", "ident", "opt", "opttol", "cast"} /\ VEq(Flat(Core(kd, m)), Flat(Core(kd, s.m)))))
MTol(e) == IF e.w = "opttol" THEN V(e, "tol") ELSE DefaultTol(e.p)

NoState == [m |-> <<>>, loose |-> FALSE, alive |-> FALSE]
Hist(s, e) ==
  LET kd == KindOf[e.op] IN
  IF e.w = "default" THEN [s |-> [NoState EXCEPT !.alive = TRUE], bad |-> BadBool(e.b, [init |-> {FALSE}])]
  ELSE IF ~s.alive THEN [s |-> s, bad |-> {}]
  ELSE LET o == NumSeq(e.o.r[1]) IN
       IF ~VFin(o) THEN \* out of range, unless the step is exact
         [s |-> IF e.a.f = 0 THEN NoState ELSE s, bad |-> IF e.w \in {"cols", "ident"} \cup KeepSteps THEN {"finite"} ELSE {}]
       ELSE LET m == Read(kd, o) lo == LooseNext(s, e, kd, m) IN
         [s |-> IF e.a.f = 0 THEN [m |-> m, loose |-> lo, alive |-> TRUE] ELSE s,
          bad |-> BadNext(s, e, kd) \cup BadFlags(kd, m, e.b, lo, MTol(e), e.p)
                  \cup (IF "frame" \in DOMAIN e.b THEN Frame(e) ELSE {}) \cup (IF "self" \in DOMAIN e.b THEN Self(e) ELSE {})]

--------------------------------------------------------------------------------
(* scaling applies after the transform; arrays: element by element *)
MScaleStep(e) ==
  LET kd == KindOf[e.op] m == Mat(e, "x") k == V(e, "k") p == V(e, "p")
      want == MMul(MDiag(k \o <<One>>), m)
      \* each column scaled by its factor, and the translation (finding, see DESIGN.md)
      cols == [j \in 1..4 |-> IF j = 4 THEN VProd(m[4], k \o <<One>>) ELSE VScale(m[j], k[j])]
      Good(w) == /\ \A j \in 1..Len(e.o.r) : WithinSeq(e.o.r[j], Show(kd, w), 16, e.p)
                 /\ \A j \in 1..Len(e.o.rp) : WithinSeq(e.o.rp[j], SubSeq(MVec(w, p \o <<One>>), 1, 3), 32, e.p)
  IN  IF Good(want) THEN {} ELSE IF Good(cols) THEN {"columnscaled"} ELSE {"scale"}
Chunks(s, n) == IF Len(s) = 0 THEN <<>> ELSE UnFlat(s, n)
Mapped(s, n, F(_)) == LET c == Chunks(s, n) IN Flat([i \in 1..Len(c) |-> F(c[i])])
MArr(e) ==
  LET kd == KindOf[e.op] m == Mat(e, "x") IN
  CASE kd \in {2, 3} -> BadOut(e.o, [v |-> Mapped(V(e, "vin"), kd, LAMBDA x : MVec(m, x))], 16, e.p) \cup BadBool(e.b, [guard |-> {TRUE}])
    [] kd = 34 -> BadOut(e.o, [v |-> Mapped(V(e, "vin"), 3, LAMBDA x : SubSeq(MVec(m, x \o <<One>>), 1, 3))], 16, e.p) \cup BadBool(e.b, [guard |-> {TRUE}])
    [] kd = 4 -> BadOut(e.o, [v |-> Mapped(V(e, "vin"), 4, LAMBDA x : MVec(m, x)),
                              v3 |-> Mapped(V(e, "v3in"), 3, LAMBDA x : SubSeq(MVec(m, x \o <<One>>), 1, 3)),
                              d3 |-> Mapped(V(e, "d3in"), 3, LAMBDA x : SubSeq(MVec(m, x \o <<Zero>>), 1, 3)),
                              d |-> Mapped(V(e, "din"), 4, LAMBDA x : MVec(m, SubSeq(x, 1, 3) \o <<Zero>>))], 16, e.p)
                  \cup BadBool(e.b, [guard |-> {TRUE}, guard3 |-> {TRUE}, guardd3 |-> {TRUE}, guardd |-> {TRUE}])

--------------------------------------------------------------------------------
MatS0 == NoState
MatStep(s, e) ==
  IF e.op \in {"m2.hist", "m3.hist", "m34.hist", "m4.hist"} THEN Hist(s, e)
  ELSE [s |-> s, bad |->
  CASE e.op = "m2.alg" -> M2Alg(e)
    [] e.op = "m3.alg" -> M3Alg(e)
    [] e.op = "m34.alg" -> M34Alg(e)
    [] e.op = "m4.alg" -> M4Alg(e)
    [] e.op = "m.axis" -> MAxis(e)
    [] e.op = "m.coord" -> MCoord(e)
    [] e.op = "m.quat" -> MQuat(e)
    [] e.op = "m.axes" -> MAxes(e)
    [] e.op = "m.slerp" -> MSlerp(e)
    [] e.op = "m.slerpmax" -> MSlerpMax(e)
    [] e.op = "m2.slerp" -> M2Slerp(e)
    [] e.op \in {"m34.scale", "m4.scale"} -> MScaleStep(e)
    [] e.op \in {"m2.arr", "m3.arr", "m34.arr", "m4.arr"} -> MArr(e)
    [] e.op = "crash" -> {"crash"}]
================================================================================
