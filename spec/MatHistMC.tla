-------------------------------- MODULE MatHistMC --------------------------------
(***************************************************************************)
(* Model of the histories of M03 and M04: every sequence of Depth steps    *)
(* out of a small alphabet, from every start.  The abstract state is the   *)
(* exact matrix.  All steps have exact effects here (quarter turns, cyclic *)
(* permutations, shears, scalings by powers of two, integer moves); the    *)
(* invariants say that the contract of Mat.tla admits exactly this effect, *)
(* that the facts the flags stand for evolve as they should, and that the  *)
(* contract rejects every wrong flag.  Every maximal path is emitted as a  *)
(* history of the implementation.                                          *)
(***************************************************************************)
EXTENDS Mat
CONSTANTS Kind, Depth, Starts, Steps
VARIABLES path, m, was, last
vars == <<path, m, was, last>>

Num2(s) == [j \in 1..Len(s) |-> [i \in 1..Len(s[j]) |-> N(s[j][i])]]
Dim == IF Kind = 34 THEN 4 ELSE Kind
Piece(n) == CASE n = "turnx" -> Num2(<<<<1, 0, 0>>, <<0, 0, 1>>, <<0, -1, 0>>>>)
             [] n = "turnz" -> Num2(<<<<0, 1, 0>>, <<-1, 0, 0>>, <<0, 0, 1>>>>)
             [] n = "half" -> Num2(<<<<-1, 0, 0>>, <<0, 1, 0>>, <<0, 0, -1>>>>)
             [] n = "cycle" -> Num2(<<<<0, 1, 0>>, <<0, 0, 1>>, <<1, 0, 0>>>>)
             [] n = "shear" -> Num2(<<<<1, 0, 0>>, <<2, 1, 0>>, <<0, 0, 1>>>>)
             [] n = "flip" -> Num2(<<<<0, 1, 0>>, <<1, 0, 0>>, <<0, 0, 1>>>>)
             \* columns at right angles but not of the same length, so that its rows are not; and the transposed
             [] n = "skew" -> Num2(<<<<2, 2, 0>>, <<1, -1, 0>>, <<0, 0, 1>>>>)
             [] n = "weks" -> Num2(<<<<2, 1, 0>>, <<2, -1, 0>>, <<0, 0, 1>>>>)
             [] n = "cut" -> Num2(<<<<1, 0, 1>>, <<0, 1, 0>>, <<1, 0, 1>>>>)
Of(n, t) == CASE Kind = 2 -> [j \in 1..2 |-> SubSeq(Piece(n)[j], 1, 2)]
              [] Kind = 3 -> Piece(n)
              [] OTHER -> Affine(Piece(n), Num2(<<t>>)[1])
S(w, a, r) == [w |-> w, args |-> a, a |-> r]
\* two axes turned around; one axis stretched as another is squeezed
AboutK == IF Kind = 2 THEN <<N(-1), N(-1)>> ELSE <<N(-1), N(-1), One>>
SquashK == IF Kind = 2 THEN <<One, Zero>> ELSE <<One, Zero, N(2)>>
SqueezeK == IF Kind = 2 THEN <<N(2), N("0.5")>> ELSE <<One, N(2), N("0.5")>>
\* the steps by name: what the implementation is called with, and what the contract sees
StepOf(n) ==
  CASE n \in {"opt", "neg", "copy", "cast", "trans", "inv", "selfmul", "selfxf", "selfxfp", "ident", "ortho"} -> S(n, <<>>, [f |-> 0])
    [] n = "turnx"  -> S("rotc", <<1, Pi // 2>>, [c |-> 1, x |-> <<Pi // 2>>])
    [] n = "turnxp" -> S("rotcp", <<1, Pi // 2>>, [c |-> 1, x |-> <<Pi // 2>>])
    [] n = "turnz"  -> IF Kind = 2 THEN S("rot", <<Pi // 2>>, [x |-> <<Pi // 2>>]) ELSE S("rotc", <<3, Pi // 2>>, [c |-> 3, x |-> <<Pi // 2>>])
    [] n = "turnzp" -> IF Kind = 2 THEN S("rotp", <<Pi // 2>>, [x |-> <<Pi // 2>>]) ELSE S("rotcp", <<3, Pi // 2>>, [c |-> 3, x |-> <<Pi // 2>>])
    [] n = "spin"   -> S("rotv", <<<<1, 1, 1>>, (Pi ** 2) // 3>>, [u |-> <<1, 1, 1>>, x |-> <<(Pi ** 2) // 3>>])
    [] n = "spinp"  -> S("rotvp", <<<<1, 1, 1>>, (Pi ** 2) // 3>>, [u |-> <<1, 1, 1>>, x |-> <<(Pi ** 2) // 3>>])
    [] n = "quat"   -> S("rotq", <<<<1, 0, 0, 1>> >>, [q |-> <<1, 0, 0, 1>>])
    [] n = "quatp"  -> S("rotqp", <<<<1, 0, 0, 1>> >>, [q |-> <<1, 0, 0, 1>>])
    [] n \in {"halfq", "halfqp"} -> S(IF n = "halfq" THEN "rotq" ELSE "rotqp", <<<<0, 1, 0, 0>> >>, [q |-> <<0, 1, 0, 0>>])
    [] n = "xfcycle" -> LET x == Show(Kind, Of("cycle", <<1, 0, -2>>)) IN S("xf", <<x>>, [x |-> x])
    [] n = "xfpflip" -> LET x == Show(Kind, Of("flip", <<0, 1, 0>>)) IN S("xfp", <<x>>, [x |-> x])
    [] n = "mulshear" -> LET x == Show(Kind, Of("shear", <<0, 1, 0>>)) IN S("mul", <<x>>, [x |-> x])
    [] n = "mulmove" -> LET x == Show(Kind, Translation(<<N(1), N(0), N(2)>>)) IN S("mul", <<x>>, [x |-> x])
    [] n = "xf3shear" -> LET x == Flat(Piece("shear")) IN S("xf3", <<x>>, [x3 |-> x])
    [] n = "xf3pcycle" -> LET x == Flat(Piece("cycle")) IN S("xf3p", <<x>>, [x3 |-> x])
    [] n = "tra"    -> S("tra", <<<<1, 2, -1>> >>, [t |-> <<1, 2, -1>>])
    [] n = "trap"   -> S("trap", <<<<1, 0, 3>> >>, [t |-> <<1, 0, 3>>])
    [] n = "back"   -> S("tra", <<<<-1, -2, 1>> >>, [t |-> <<-1, -2, 1>>])
    [] n = "sca"    -> S("sca", <<2>>, [u |-> <<2>>])
    [] n = "scaneg" -> S("sca", <<-1>>, [u |-> <<-1>>])
    [] n = "allneg" -> LET k == [i \in 1..(IF Kind = 2 THEN 2 ELSE 3) |-> -2] IN S("scap", <<k>>, [k |-> k])
    [] n = "scap"   -> LET k == IF Kind = 2 THEN <<2, -1>> ELSE <<2, 1, -1>> IN S("scap", <<k>>, [k |-> k])
    [] n = "scaph"  -> LET k == IF Kind = 2 THEN <<N("0.5"), N("0.5")>> ELSE <<N("0.5"), N("0.5"), N("0.5")>> IN S("scap", <<k>>, [k |-> k])
    [] n = "mirror" -> LET k == IF Kind = 2 THEN <<-1, 1>> ELSE <<-1, 1, 1>> IN S("scap", <<k>>, [k |-> k])
    [] n = "about" -> LET k == AboutK IN S("scap", <<k>>, [k |-> k])
    [] n = "squash" -> LET k == SquashK IN S("scap", <<k>>, [k |-> k])
    [] n = "scazero" -> S("sca", <<0>>, [u |-> <<0>>])
    [] n = "squeeze" -> LET k == SqueezeK IN S("scap", <<k>>, [k |-> k])
    [] n = "mulneg" -> S("mulk", <<-1>>, [k |-> <<-1>>])
    [] n = "mulk"   -> S("mulk", <<2>>, [k |-> <<2>>])
    [] n = "divk"   -> S("divk", <<2>>, [k |-> <<2>>])
Scaling(k) == MDiag(IF Len(k) = 2 \/ Kind = 3 THEN k ELSE k \o <<One>>)
Diag1(k) == IF Kind = 34 \/ Kind = 4 THEN MDiag(<<k, k, k, One>>) ELSE MDiag([i \in 1..Kind |-> k])
Half == N("0.5")
\* the exact effect
Effect(n, x) == MExact(
  CASE n \in {"opt", "copy", "cast", "ortho"} -> x
    [] n = "neg" -> MScaleK(x, N(-1))
    [] n = "ident" -> MIdent(Dim)
    [] n = "trans" -> IF Kind = 34 THEN Affine(MTrans(Cut3(x)), SubSeq(x[4], 1, 3)) ELSE MTrans(x)
    [] n = "inv" -> MInv(x)
    [] n \in {"selfmul", "selfxf", "selfxfp"} -> MMul(x, x)
    [] n \in {"turnx", "quat"} -> MMul(Of("turnx", <<0, 0, 0>>), x)
    [] n \in {"turnxp", "quatp"} -> MMul(x, Of("turnx", <<0, 0, 0>>))
    [] n = "halfq" -> MMul(Of("half", <<0, 0, 0>>), x)
    [] n = "halfqp" -> MMul(x, Of("half", <<0, 0, 0>>))
    [] n = "scaneg" -> MMul(Diag1(N(-1)), x)
    [] n = "allneg" -> MMul(x, Diag1(N(-2)))
    [] n = "turnz" -> MMul(Of("turnz", <<0, 0, 0>>), x)
    [] n = "turnzp" -> MMul(x, Of("turnz", <<0, 0, 0>>))
    [] n = "spin" -> MMul(Of("cycle", <<0, 0, 0>>), x)
    [] n = "spinp" -> MMul(x, Of("cycle", <<0, 0, 0>>))
    [] n = "xfcycle" -> MMul(Of("cycle", <<1, 0, -2>>), x)
    [] n = "xfpflip" -> MMul(x, Of("flip", <<0, 1, 0>>))
    [] n = "mulshear" -> MMul(x, Of("shear", <<0, 1, 0>>))
    [] n = "mulmove" -> MMul(x, Translation(<<N(1), N(0), N(2)>>))
    [] n = "xf3shear" -> MMul(Of("shear", <<0, 0, 0>>), x)
    [] n = "xf3pcycle" -> MMul(x, Of("cycle", <<0, 0, 0>>))
    [] n = "tra" -> MMul(Translation(<<N(1), N(2), N(-1)>>), x)
    [] n = "back" -> MMul(Translation(<<N(-1), N(-2), N(1)>>), x)
    [] n = "trap" -> MMul(x, Translation(<<N(1), N(0), N(3)>>))
    [] n = "sca" -> MMul(Diag1(N(2)), x)
    [] n = "scap" -> MMul(x, Scaling(IF Kind = 2 THEN <<N(2), N(-1)>> ELSE <<N(2), N(1), N(-1)>>))
    [] n = "scaph" -> MMul(x, Diag1(Half))
    [] n = "mirror" -> MMul(x, Scaling(IF Kind = 2 THEN <<N(-1), One>> ELSE <<N(-1), One, One>>))
    [] n = "about" -> MMul(x, Scaling(AboutK))
    [] n = "squash" -> MMul(x, Scaling(SquashK))
    [] n = "scazero" -> MMul(Diag1(Zero), x)
    [] n = "squeeze" -> MMul(x, Scaling(SqueezeK))
    [] n = "mulneg" -> MScaleK(x, N(-1))
    [] n = "mulk" -> MScaleK(x, N(2))
    [] n = "divk" -> MScaleK(x, Half))
\* negation of a Mat34 concerns all its twelve components: its exact effect is affine
Effect1(n, x) == IF Kind = 34 /\ n = "neg" THEN Affine(MScaleK(Cut3(x), N(-1)), VNeg(SubSeq(x[4], 1, 3))) ELSE Effect(n, x)
StartOf(n) ==
  CASE n = "ident" -> S("ident", <<>>, <<>>)
    [] n = "one" -> S("scalar", <<1>>, <<>>)
    [] n = "two" -> S("scalar", <<2>>, <<>>)
    [] n = "minus" -> S("scalar", <<-1>>, <<>>)
    [] OTHER -> S("cols", <<Show(Kind, Of(n, <<1, 0, 2>>))>>, <<>>)
Begin(n) == CASE n \in {"ident", "one"} -> MIdent(Dim) [] n = "two" -> Diag1(N(2)) [] n = "minus" -> Diag1(N(-1)) [] OTHER -> MExact(Of(n, <<1, 0, 2>>))
\* the facts behind the flags
IsNormal(c) == \A j \in 1..Len(c) : Eq(LenSqr(c[j]), 1)
IsOrthogonal(c) == \A i, j \in 1..Len(c) : i < j => Eq(Dot(c[i], c[j]), 0)
IsId(x) == VEq(Flat(x), Flat(MIdent(Len(x))))
Rigid(x) == IsNormal(Measured(Kind, x)) /\ IsOrthogonal(Measured(Kind, x))
\* nothing is claimed about inverting singular matrices beyond small integers, or about moving what is not affine
\* the nearest rotation is modelled only where it is the matrix itself
Allowed(n, x) == /\ (n # "ortho" \/ (Rigid(x) /\ Lt(Zero, Det(x))))
                 /\ (n \notin {"inv"} \/ ~Eq(Det(x), 0))
                 /\ (n \notin {"tra", "trap", "back", "sca", "scaneg", "allneg", "scap", "scaph", "mirror", "about", "squeeze", "squash", "scazero"} \/ Kind # 4 \/ IsTrs(x))
Op == CASE Kind = 2 -> "m2.hist" [] Kind = 3 -> "m3.hist" [] Kind = 34 -> "m34.hist" [] Kind = 4 -> "m4.hist"
Words(q) == [i \in 1..Len(q) |-> LET s == IF i = 1 THEN StartOf(q[1]) ELSE StepOf(q[i]) IN <<s.w, s.args>>]

Init == \E n \in Starts : path = <<n>> /\ m = Begin(n) /\ was = m /\ last = "copy"
Next == \E n \in Steps :
  /\ Len(path) <= Depth /\ Allowed(n, m) = TRUE
  /\ path' = Append(path, n) /\ was' = m /\ last' = n /\ m' = Effect1(n, m)
  /\ IF Len(path') <= Depth THEN TRUE ELSE Emit(<<Op, Pick(<<"f", "d">>), Words(path')>>)
Spec == Init /\ [][Next]_vars

--------------------------------------------------------------------------------
MSame(a, b) == Same(Show(Kind, a), Show(Kind, b))
Ev == LET s == StepOf(last) IN [w |-> s.w, a |-> s.a, p |-> 53, op |-> Op]
\* the contract admits the exact effect
Admitted ==
  CASE last \in {"opt", "copy", "cast", "neg", "trans", "ident", "ortho"} -> TRUE
    [] last = "inv" -> \E x \in InvChoices(Kind, was, 53) : MSame(x, m)
    [] OTHER -> \E x \in NextChoices(Ev, Kind, was) : MSame(x, m)
Rigids == {"mirror", "about", "mulneg", "opt", "copy", "cast", "neg", "trans", "inv", "turnx", "turnxp", "turnz", "turnzp", "spin", "spinp", "quat", "quatp", "halfq", "halfqp", "scaneg", "xfcycle", "xfpflip", "xf3pcycle",
           "tra", "trap", "back", "mulmove", "selfmul", "selfxf", "selfxfp"}
\* rigid steps keep rigidity, and the affine shape (transposing or negating a Mat4 does not)
Evolution == /\ (last \in Rigids \ (IF Kind = 4 THEN {"trans", "neg", "mulneg"} ELSE {}) /\ Rigid(was) /\ (Kind \in {2, 3} \/ IsTrs(was)) => Rigid(m))
             /\ (Kind = 34 => IsTrs(m))
             /\ (last \in {"tra", "trap", "back", "mulmove"} /\ Kind = 34 => IsId(Cut3(was)) = IsId(Cut3(m)))
\* determinants
Volume == CASE last \in Rigids \ {"mirror", "mulneg", "scaneg", "neg", "inv", "selfmul", "selfxf", "selfxfp", "xfpflip", "trans"} -> Eq(Det(m), Det(was))
            [] last \in {"selfmul", "selfxf", "selfxfp"} -> Eq(Det(m), Det(was) ** Det(was))
            [] last = "inv" -> Eq(Det(m) ** Det(was), 1)
            [] last \in {"xfpflip", "mirror", "scaneg"} -> Eq(Det(m), Neg(Det(was)))
            [] OTHER -> TRUE
\* true flags are accepted, wrong ones rejected
C == Measured(Kind, m)
\* (with the documented tolerance: a squared error of 1e-3)
Truth == LET n == Le(Total(ErrTerms(C)), N("1e-3")) o == Le(Total(OrthoTerms(C)), N("1e-3")) IN
  [normal |-> <<n>>, orthogonal |-> <<o>>, orthonormal |-> <<n /\ o>>, identity |-> <<IsId(m)>>, init |-> <<TRUE>>, trs |-> <<Kind # 4 \/ IsTrs(m)>>]
Flip(b, k) == [b EXCEPT ![k] = <<~b[k][1]>>]
FlagsDecided ==
  /\ (IsNormal(C) => Truth.normal[1]) /\ (IsOrthogonal(C) => Truth.orthogonal[1])
  /\ BadFlags(Kind, m, Truth, FALSE, DefaultTol(53), 53) = {}
  /\ \A k \in DOMAIN Truth : (k = "trs" /\ Kind # 4) \/ BadFlags(Kind, m, Flip(Truth, k), FALSE, DefaultTol(53), 53) # {}
Inv == Admitted /\ Evolution /\ Volume /\ FlagsDecided
================================================================================
