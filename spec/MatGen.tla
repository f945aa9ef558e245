--------------------------------- MODULE MatGen ---------------------------------
(* Pseudo-random matrices, calls and histories within the contract Mat. *)
EXTENDS RotGen, GenLoop

GSmallMat(n) == LET b == Rnd(1, 3) IN Force([j \in 1..n |-> [i \in 1..n |-> GInt(b)]])
GFreeMat(n) == Force([j \in 1..n |-> GVec(n)])
\* signed permutation matrices
GPerm(n) == LET p == Pick(IF n = 2 THEN <<<<1, 2>>, <<2, 1>>>> ELSE <<<<1, 2, 3>>, <<2, 3, 1>>, <<3, 1, 2>>, <<2, 1, 3>>, <<1, 3, 2>>, <<3, 2, 1>>>>)
            IN Force([j \in 1..n |-> VScale(Unit(n, p[j]), Pick(<<One, N(-1)>>))])
GRot(n) == IF n = 2 THEN Rot2(GAngle)
           ELSE IF Rnd(1, 3) = 1 THEN RotCoord(Rnd(1, 3), GAngle) ELSE QMat(Normalized(NZ4(GQuat)))
\* disturbances at rounding level, around the tolerances of the flags, and visible ones
Disturb == Pick(<<N("1/16777216"), N("1/4194304"), N("1/1048576"), N("1/4503599627370496"), N("1/1125899906842624"), N("1/4096"), N("1/128"), N("1/80"), N("1/64"), N("1/48"), N("1/32")>>)
GNear(m) == LET d == Disturb IN
  IF Rnd(1, 3) = 1 THEN LET k == 1 ++ d IN MScaleK(m, k)
  ELSE Force([j \in 1..Len(m) |-> [i \in 1..Len(m) |-> m[j][i] ++ (d ** GInt(2))]])
GSq(n) == LET c == Rnd(1, 14) IN
  CASE c <= 3 -> GSmallMat(n)
    [] c <= 5 -> GFreeMat(n)
    [] c = 6 -> GPerm(n)
    [] c \in {7, 8} -> GRot(n)
    [] c = 9 -> GNear(GRot(n))
    [] c = 10 -> GNear(MIdent(n))
    [] c = 11 -> MIdent(n)
    [] c = 12 -> MDiag(GVec(n))
    [] c = 13 -> MScaleK(GRot(n), GSpecial)
    [] c = 14 -> LET m == GSmallMat(n) IN [m EXCEPT ![n] = m[1]]   \* singular
GT == IF Rnd(1, 4) = 1 THEN VZero(3) ELSE GVec(3)
Cat(r, t) == Flat(r) \o t
GAff == Cat(GSq(3), GT)
To4(s) == LET c == UnFlat(s, 3) IN Flat(<<c[1] \o <<Zero>>, c[2] \o <<Zero>>, c[3] \o <<Zero>>, c[4] \o <<One>> >>)
G4 == LET c == Rnd(1, 8) IN
  CASE c <= 5 -> To4(GAff)
    [] c = 6 -> Flat([j \in 1..4 |-> [i \in 1..4 |-> GInt(2)]])
    [] c = 7 -> Flat([j \in 1..4 |-> GVec(4)])
    [] c = 8 -> LET m == To4(GAff) IN [m EXCEPT ![16] = GSpecial]    \* last entry not one
GMatrix(kd) == CASE kd \in {2, 3} -> Flat(GSq(kd)) [] kd = 34 -> GAff [] kd = 4 -> G4
\* matrices for long histories: moderate size
GMild(n) == LET c == Rnd(1, 10) IN
  CASE c <= 2 -> GRot(n) [] c = 3 -> GPerm(n) [] c = 4 -> GNear(GRot(n)) [] c = 5 -> GNear(MIdent(n)) [] c = 6 -> MIdent(n)
    [] c = 7 -> GSmallMat(n) [] c = 8 -> MDiag(Force([i \in 1..n |-> Pick(<<N(2), N("0.5"), N(-1), One>>)]))
    \* right angles between its columns or between its rows, but not both
    [] c = 9 -> LET r == GRot(n) d == Force([i \in 1..n |-> Pick(<<N(2), N("0.5"), N(-1), One>>)]) IN MMul(r, MDiag(d))
    [] c = 10 -> LET r == GRot(n) d == Force([i \in 1..n |-> Pick(<<N(2), N("0.5"), N(-1), One>>)]) IN MMul(MDiag(d), r)
GMildM(kd) == CASE kd \in {2, 3} -> Flat(GMild(kd)) [] kd = 34 -> Cat(GMild(3), GT) [] kd = 4 -> To4(Cat(GMild(3), GT))
GFact == Pick(<<N(2), N("0.5"), N(-1), N(1), N("0.25"), N(3), N("1/3")>>)
GAng == Pick(<<GAngle, N(0), Tiny, Pi // 2, Pi // 2, Pi>>)
\* uniform, free, axes turned around, or one axis stretched as another is squeezed
GScale(n) == LET c == Rnd(1, 5) k == GFact IN
  CASE c = 1 -> [i \in 1..n |-> k]
    [] c \in {2, 3} -> Force([i \in 1..n |-> GFact])
    [] c = 4 -> Force([i \in 1..n |-> Pick(<<One, N(-1)>>)])
    [] c = 5 -> LET a == Rnd(1, n) b == ((a + Rnd(0, n - 2)) % n) + 1 IN [i \in 1..n |-> IF i = a THEN k ELSE IF i = b THEN 1 // k ELSE One]
GTol == Pick(<<<<N("1e-3"), N("1e-3"), N("1e-12")>>, <<N("1e-6"), N("1e-6"), N("1e-6")>>, <<N(1), N("1e-9"), N("1e-2")>>, <<N("1e-9"), N(1), N(1)>>, <<N(100), N(100), N(100)>>, <<N(0), N(0), N(0)>> >>)

Common == <<"neg", "cast", "opt", "copy", "ident", "cols", "opttol", "opttol", "mul", "mul", "selfmul", "inv", "inv", "trans">>
Rot3s == <<"rotc", "rotv", "rotq", "xf", "rotcp", "rotvp", "rotqp", "xfp", "selfxf", "selfxfp">>
StepNames(kd) ==
  CASE kd = 2 -> Common \o <<"mulk", "divk", "ortho", "rot", "rot", "rotp", "rotp", "scap">>
    [] kd = 3 -> Common \o Rot3s \o <<"mulk", "divk", "ortho", "scap">>
    [] kd = 34 -> Common \o Rot3s \o <<"xf3", "xf3p", "tra", "trap", "sca", "scap">>
    [] kd = 4 -> Common \o Rot3s \o <<"mulk", "divk", "ortho", "tra", "trap", "sca", "scap">>
GStep(kd, w) ==
  CASE w \in {"cols", "xf", "xfp", "mul"} -> <<w, GMildM(kd)>>
    [] w \in {"xf3", "xf3p"} -> <<w, Flat(GMild(3))>>
    [] w = "opttol" -> <<w, GTol>>
    [] w \in {"mulk", "divk", "sca"} -> <<w, GFact>>
    [] w \in {"rot", "rotp"} -> <<w, GAng>>
    [] w \in {"rotc", "rotcp"} -> <<w, Rnd(1, 3), GAng>>
    [] w \in {"rotv", "rotvp"} -> <<w, GNZ(3), GAng>>
    [] w \in {"rotq", "rotqp"} -> <<w, NZ4(GQuat)>>
    [] w \in {"tra", "trap"} -> <<w, GT>>
    [] w = "scap" -> <<w, GScale(IF kd = 2 THEN 2 ELSE 3)>>
    [] OTHER -> <<w>>
\* a step and, often, the step that takes it back
Undo(s) ==
  CASE s[1] \in {"mulk", "divk", "sca"} -> <<s[1], 1 // s[2]>>
    [] s[1] \in {"rot", "rotp"} -> <<s[1], Neg(s[2])>>
    [] s[1] \in {"rotc", "rotcp", "rotv", "rotvp"} -> <<s[1], s[2], Neg(s[3])>>
    [] s[1] \in {"rotq", "rotqp"} -> <<s[1], <<Neg(s[2][1]), Neg(s[2][2]), Neg(s[2][3]), s[2][4]>> >>
    [] s[1] \in {"tra", "trap"} -> <<s[1], VNeg(s[2])>>
    [] s[1] = "scap" -> <<s[1], Force([i \in 1..Len(s[2]) |-> 1 // s[2][i]])>>
    [] s[1] \in {"neg", "inv", "trans"} -> s
    [] OTHER -> <<"opt">>
RECURSIVE GHist(_, _)
GHist(kd, n) == IF n <= 0 THEN <<>> ELSE LET s == Force(GStep(kd, Pick(StepNames(kd)))) IN
  IF Rnd(1, 5) = 1 THEN s \o Force(Undo(s)) \o GHist(kd, n - 2) ELSE s \o GHist(kd, n - 1)
GStart(kd) == LET c == Rnd(1, 4) IN
  IF c = 1 THEN <<"scalar", Pick(<<One, One, N(2), N(-1), N(0), N("0.5")>>)>> ELSE IF c = 2 THEN <<"ident">> ELSE <<"cols", GMildM(kd)>>
\* a matrix related to another
GPairM(kd) == LET a == GMatrix(kd) c == Rnd(1, 8) IN IF c = 1 THEN <<a, a>> ELSE IF c = 2 THEN <<a, VNeg(a)>> ELSE <<a, GMatrix(kd)>>
GPts == LET a == GVec(3) b == GVec(3) c == GVec(3) d == GVec(3) IN a \o b \o c \o d
GArr(kd) == <<GMatrix(kd), Rnd(0, 4), Rnd(0, 3), Rnd(0, 3), GPts>>

GScale0 == LET k == GScale(3) IN IF Rnd(1, 8) = 1 THEN [k EXCEPT ![Rnd(1, 3)] = Zero] ELSE k
MatCase(op) ==
  CASE op = "m2.alg" -> <<op, Ty, GPairM(2), GVec(2), GNum>>
    [] op = "m3.alg" -> <<op, Ty, GPairM(3), GVec(3), GNum>>
    [] op = "m34.alg" -> <<op, Ty, GPairM(34), GVec(3), GNum>>
    [] op = "m4.alg" -> <<op, Ty, GPairM(4), GVec(4), GNum>>
    [] op = "m.axis" -> <<op, Ty, GAxis, GAngle, GVec(3), GVec(3)>>
    [] op = "m.coord" -> <<op, Ty, Rnd(1, 3), GAngle, GVec(3), GVec(3)>>
    [] op = "m.quat" -> <<op, Ty, NZ4(GQuat), GVec(3), GVec(3)>>
    [] op = "m.axes" -> LET i == Rnd(1, 3) u == IF Rnd(1, 20) = 1 THEN VZero(3) ELSE GVec(3) IN
         <<op, Ty, i, ((i + Rnd(0, 1)) % 3) + 1, u, IF Rnd(1, 20) = 1 THEN VZero(3) ELSE IF IsZeroV(u) THEN GVec(3) ELSE GDirNear(u)>>
    [] op = "m.slerp" -> <<op, Ty, GQuatPair, GRatio>>
    [] op = "m.slerpmax" -> <<op, Ty, GQuatPair, GLimit>>
    [] op = "m2.slerp" -> <<op, Ty, GAngle, GAngle, GRatio, GLimit>>
    [] op = "m2.hist" -> <<op, Ty, GStart(2), GHist(2, 6)>>
    [] op = "m3.hist" -> <<op, Ty, GStart(3), GHist(3, 6)>>
    [] op = "m34.hist" -> <<op, Ty, GStart(34), GHist(34, 6)>>
    [] op = "m4.hist" -> <<op, Ty, GStart(4), GHist(4, 6)>>
    [] op = "m34.scale" -> <<op, Ty, GMildM(34), GScale0, GVec(3)>>
    [] op = "m4.scale" -> <<op, Ty, GMildM(4), GScale0, GVec(3)>>
    [] op = "m2.arr" -> <<op, Ty, GArr(2)>>
    [] op = "m3.arr" -> <<op, Ty, GArr(3)>>
    [] op = "m34.arr" -> <<op, Ty, GArr(34)>>
    [] op = "m4.arr" -> <<op, Ty, GArr(4)>>
================================================================================
