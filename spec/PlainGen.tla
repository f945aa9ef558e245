-------------------------------- MODULE PlainGen --------------------------------
(* Pseudo-random pairs of values: equal, differing in one component by much or by little,
   independent, parts negated, exchanged or shifted against each other. *)
EXTENDS GenBase, GenLoop, Plain
Names == <<"vec2", "vec3", "vec4", "mat2", "mat3", "mat34", "mat4", "quat", "rgb", "rgba", "hsv", "aabb2", "aabb3", "caabb2", "caabb3", "line2", "line3",
           "ray2", "ray3", "tri2", "plane", "circle", "sphere", "frustum">>
Margin == Pick(<<N("0.001"), N("0.25"), N("0.5"), N(1), N(0), N("1/16777216"), N(1000)>>)
Slight == Pick(<<N("1/1048576"), N("1/1000000000"), N(1), N("-0.25")>>)
\* numbers whose digits all matter, of any size
Digits(i) == LET k == Pick(<<N(1), N("1/3"), N("1/7"), N("0.1"), N("123456789"), N("0.00012345678"), N("1/1000000000")>>) IN (N(Rnd(-9999999, 9999999)) // N(8192)) ** k
TextCase(op) ==
  LET t == SelectSeq(Names, LAMBDA u : u # "tri2")[(g % (Len(Names) - 1)) + 1] n == Width[t] m == Pick(<<N("0.001"), N("0.25"), N("0.5"), N(0), N("1/1048576"), N(1000)>>)
      some == IF Rnd(1, 3) = 1 THEN GVec(n) ELSE Force([i \in 1..n |-> Digits(i)]) h == n \div 2 u == SubSeq(some, h + 1, n)
      x == IF t \notin {"ray2", "ray3"} \/ IsZeroV(u) THEN some ELSE SubSeq(some, 1, h) \o VExact(VDiv(u, Length(u)))
  IN  <<op, Ty, t, 0, m, x, x>>
AnyCase(op) ==
  LET t == Names[(g % Len(Names)) + 1] n == Width[t] m == Margin c == Rnd(1, 13) i == Rnd(1, n) i2 == Rnd(1, n) s == Pick(<<N(1), N(-1)>>)
      w == GVecOf(n, Pick(<<1, 2, 3, 4, 5>>)) h == n \div 2 u == SubSeq(w, h + 1, n)
      x == IF t \notin {"ray2", "ray3"} \/ IsZeroV(u) THEN w ELSE SubSeq(w, 1, h) \o VExact(VDiv(u, Length(u))) at(k) == [x EXCEPT ![i] = k]
      y == CASE c = 1 -> x
             [] c = 2 -> at(x[i] ++ m)
             [] c = 3 -> at(x[i] -- (m ** Pick(<<N(1), N("1.001"), N("0.999"), N(2)>>)))
             [] c = 4 -> at(x[i] ++ (m ** (s ** Pick(<<N(1), N("1.001"), N("0.999"), N("1.5")>>))))
             [] c = 5 -> at(x[i] ++ (s ** Slight))
             [] c = 6 -> Force([j \in 1..n |-> x[j] ++ (m ** Pick(<<N("0.5"), N(1), N("-0.75")>>))])
             [] c = 7 -> GVec(n)
             \* values that name the same thing in another way, or sum up the same: a part turned around, parts exchanged, a multiple
             [] c = 8 -> Force([j \in 1..n |-> IF j > h THEN Neg(x[j]) ELSE x[j]])
             [] c = 9 -> Force([j \in 1..n |-> IF j <= h THEN Neg(x[j]) ELSE x[j]])
             [] c = 10 -> [[x EXCEPT ![i] = x[i2]] EXCEPT ![i2] = x[i]]
             [] c = 11 -> LET k == Pick(<<N(-1), N(-1), N(2), N("0.5")>>) IN Force([j \in 1..n |-> x[j] ** k])
             [] c = 12 -> at(Neg(x[i]))
             [] c = 13 -> LET k == m ** Pick(<<N(1), N(2), N("0.75")>>) IN [[x EXCEPT ![i] = x[i] ++ k] EXCEPT ![i2] = x[i2] -- k]
  IN  <<op, Ty, t, Rnd(0, 1), m, x, y>>
PlainCase(op) == IF op = "ty.text" THEN TextCase(op) ELSE AnyCase(op)
================================================================================
