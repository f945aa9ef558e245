--------------------------------- MODULE Plain ---------------------------------
(***************************************************************************)
(* Contract of comparison, conversion of precision, raw access and the     *)
(* approximate matchers of the tests (property T01), the same for every    *)
(* type: a value is the sequence of its components.                        *)
(***************************************************************************)
EXTENDS Geo

\* the types and their numbers of components
Width == [vec2 |-> 2, vec3 |-> 3, vec4 |-> 4, mat2 |-> 4, mat3 |-> 9, mat34 |-> 12, mat4 |-> 16, quat |-> 4, rgb |-> 3, rgba |-> 4, hsv |-> 3,
          aabb2 |-> 4, aabb3 |-> 6, caabb2 |-> 4, caabb3 |-> 6, line2 |-> 4, line3 |-> 6, ray2 |-> 4, ray3 |-> 6, tri2 |-> 6, plane |-> 4,
          circle |-> 3, sphere |-> 4, frustum |-> 48]
Types == DOMAIN Width
Compared == Types \ {"frustum"}
Raw == {"vec2", "vec3", "vec4", "mat2", "mat3", "mat34", "mat4", "quat", "rgb", "rgba", "hsv", "plane", "circle", "sphere"}
Matched == Types \ {"tri2"}
\* the corners make a frustum; its planes follow from them
Judged(t, v) == IF t = "frustum" THEN SubSeq(v, 1, 24) ELSE v

V(e, n) == NumSeq(e.a[n])
K(e, n) == N(e.a[n][1])
Equal(x, y) == VEq(x, y)
\* within the margin, the margin included; the comparison is made in double precision at best
NearIn(x, y, m) == LET d == m -- Abs(x -- y) IN
  IF OnGrid(<<x, y, m>>) THEN {~Lt(d, Zero)} ELSE Decide(Widen(d, Abs(x)), 2, 53)
Near(x, y, m) == LET s == Force([i \in 1..Len(x) |-> NearIn(x[i], y[i], m)]) IN
  IF \E i \in 1..Len(x) : s[i] = {FALSE} THEN {FALSE} ELSE IF \A i \in 1..Len(x) : s[i] = {TRUE} THEN {TRUE} ELSE BOOLEAN
\* rays keep their direction at unit length, also when converted: judged when it is one, to rounding
Dim(t) == IF t = "ray2" THEN 2 ELSE 3
ConvOk(e, x) ==
  IF e.w \notin {"ray2", "ray3"}
  THEN BadOut(e.o, [copy |-> VExact(x)], 0, e.p) \cup BadOut(e.o, [cast |-> VExact(x)], IF e.p = 24 THEN 0 ELSE 1, 24)
  ELSE LET d == Dim(e.w) from == SubSeq(x, 1, d) dir == SubSeq(x, d + 1, 2 * d) unit == Sgn(One -- LenSqr(dir), 16, e.p) = 0
           ok(o, k, kd, p) == \A i \in 1..Len(o) : LET y == NumSeq(o[i]) IN
             /\ WithinSeq(SubSeq(y, 1, d), VExact(from), k, p)
             /\ unit => WithinSeq(SubSeq(y, d + 1, 2 * d), VWiden(dir, One), kd, p)
       IN  BadIf([copy |-> ok(e.o.copy, 0, 32, e.p), cast |-> ok(e.o.cast, IF e.p = 24 THEN 0 ELSE 1, 32, 24)])
AnyStep(e) ==
  LET t == e.w x == V(e, "x") y == V(e, "y") m == K(e, "m") eq == Equal(x, y) IN
  BadBool(e.b, [frame |-> {TRUE}])
  \cup ConvOk(e, x)
  \cup (IF t \in Compared THEN BadBool(e.b, [eq |-> {eq}, ne |-> {~eq}, refl |-> {TRUE}]) ELSE {})
  \cup (IF t \in Raw THEN BadOut(e.o, [raw |-> VExact(x), put |-> VExact(y)], 0, e.p) ELSE {})
  \cup (IF t \in Matched THEN BadBool(e.b, [near |-> Near(Judged(t, x), Judged(t, y), m), near1000 |-> Near(Judged(t, x), Judged(t, y), N("0.001")), near0 |-> {TRUE}]) ELSE {})
\* texts: the numbers read out of the text of a value are its components in order; matrices and frusta show five digits
Coarse == {"mat2", "mat3", "mat34", "mat4", "frustum"}
ShownOk(t, x, o) == LET n == Len(x) IN Len(o) = n /\ \A i \in 1..n : LET y == N(o[i]) IN
  IF t \in Coarse THEN ~Lt(Abs(x[i]) ** N("0.00006"), Abs(y -- x[i])) ELSE Eq(x[i], y)
\* the description of a matcher names the margin, then what was expected
TextStep(e) ==
  LET t == e.w x == Judged(t, V(e, "x")) m == K(e, "m")
      said(o) == Len(o) >= 1 /\ ~Lt(m ** N("0.00000001") ++ N("0.0000000001"), Abs(N(o[1]) -- m)) /\ ShownOk(t, x, SubSeq(o, 2, Len(o)))
  IN  BadBool(e.b, [frame |-> {TRUE}, refused |-> {TRUE}, taken |-> {TRUE}])
      \cup BadIf([text |-> \A k \in 1..Len(e.o.text) : ShownOk(t, x, e.o.text[k]), said |-> \A k \in 1..Len(e.o.said) : said(e.o.said[k])])
PlainS0 == <<>>
PlainStep(s, e) == [s |-> s, bad |-> IF e.op = "crash" THEN {"crash"} ELSE IF e.op = "ty.text" THEN TextStep(e) ELSE AnyStep(e)]
================================================================================
