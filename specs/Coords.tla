-------------------------------- MODULE Coords --------------------------------
(* Direct and Cartesian coordinates of points in a cell. The rows of the lattice are its vectors, in  *)
(* whole numbers; a coordinate is a fraction num/den, so every conversion of the model is exact. A     *)
(* behaviour is a history of conversions of one point between the two frames, ending with the          *)
(* reciprocal lattice; the real functions are driven along it.                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS Max, Points, MaxSteps

VARIABLES lat, start, frame, num, den, hist, src
vars == <<lat, start, frame, num, den, hist, src>>

Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Cross(a, b) == << a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1] >>
Det(m) == Dot(m[1], Cross(m[2], m[3]))
(* the dual vectors times the determinant: Dot(m[i], Dual(m)[j]) = (i = j) * Det(m) *)
Dual(m) == << Cross(m[2], m[3]), Cross(m[3], m[1]), Cross(m[1], m[2]) >>
Column(m, j) == << m[1][j], m[2][j], m[3][j] >>

(* the point with direct coordinates d is d[1] a1 + d[2] a2 + d[3] a3 *)
ToCart(m, d) == [j \in 1..3 |-> Dot(d, Column(m, j))]
(* its direct coordinates are the products with the dual vectors, over the determinant *)
ToDirect(m, c) == [j \in 1..3 |-> Dot(c, Dual(m)[j])]

Abs(n) == IF n < 0 THEN -n ELSE n
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a - b * (a \div b))
Common(v, d) == Gcd(Gcd(Gcd(Abs(d), Abs(v[1])), Abs(v[2])), Abs(v[3]))
Sign(n) == IF n < 0 THEN -1 ELSE 1
Reduced(v, d) == LET g == Common(v, d) * Sign(d) IN
                 [v |-> [j \in 1..3 |-> Sign(v[j]) * Sign(g) * (Abs(v[j]) \div Abs(g))], d |-> Abs(d) \div Abs(g)]

Rows == { <<x, y, z>> : x \in -Max..Max, y \in -Max..Max, z \in 0..Max }
Vectors == { <<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>, <<1, 2, 3>>, <<-2, 1, 5>> }

InitMC == /\ src = 0
          /\ lat \in [1..3 -> Rows]
          /\ num \in { v \in Vectors : Points = 5 \/ v[1] # 0 }
          /\ den = 4
          /\ frame \in {"direct", "cart"}
          /\ start = [v |-> num, d |-> den, f |-> frame]
          /\ hist = <<>>
Docs == ndJsonDeserialize(IOEnv.DOCS)
InitDocs == /\ src \in 1..Len(Docs)
            /\ lat = Docs[src].lat /\ num = Docs[src].num /\ den = Docs[src].den /\ frame = Docs[src].frame
            /\ start = [v |-> num, d |-> den, f |-> frame]
            /\ hist = <<>>

Convert ==
  /\ Len(hist) < MaxSteps
  /\ Det(lat) # 0
  /\ \/ /\ frame = "direct"
        /\ LET r == Reduced(ToCart(lat, num), den) IN num' = r.v /\ den' = r.d
        /\ frame' = "cart"
     \/ /\ frame = "cart"
        /\ LET r == Reduced(ToDirect(lat, num), den * Det(lat)) IN num' = r.v /\ den' = r.d
        /\ frame' = "direct"
  /\ hist' = Append(hist, [f |-> frame', v |-> num', d |-> den'])
  /\ UNCHANGED <<lat, start, src>>
SpecMC == InitMC /\ [][Convert]_vars
SpecDocs == InitDocs /\ [][Convert]_vars

Exp == [lat |-> lat, start |-> start, hist |-> hist, singular |-> Det(lat) = 0, det |-> Det(lat), dual |-> Dual(lat)]
Emit == (Len(hist) = MaxSteps \/ Det(lat) = 0) =>
        (IF src = 0 THEN CSVWrite("%1$s", <<ToJson([src |-> 0, doc |-> <<>>, exp |-> Exp])>>, IOEnv.OUT)
         ELSE ndJsonSerialize(IOEnv.OUT \o "." \o ToString(src), <<[src |-> src, exp |-> Exp]>>))

(* there and back is the identity; a direct point is a combination of the lattice vectors; the dual   *)
(* vectors are dual; the coordinates of a lattice vector are a unit vector                            *)
Same(v, d, w, e) == \A j \in 1..3 : v[j] * e = w[j] * d
Meaning ==
  Det(lat) # 0 =>
    /\ \A i, j \in 1..3 : Dot(lat[i], Dual(lat)[j]) = IF i = j THEN Det(lat) ELSE 0
    /\ den > 0
    /\ frame = start.f => Same(num, den, start.v, start.d)
    /\ \A i \in 1..3 : ToDirect(lat, lat[i]) = [j \in 1..3 |-> IF i = j THEN Det(lat) ELSE 0]
    /\ hist # <<>> => LET before == IF Len(hist) = 1 THEN start ELSE hist[Len(hist) - 1]
                          dir == IF frame = "direct" THEN [v |-> num, d |-> den] ELSE [v |-> before.v, d |-> before.d]
                          car == IF frame = "cart" THEN [v |-> num, d |-> den] ELSE [v |-> before.v, d |-> before.d]
                      IN \A j \in 1..3 : (dir.v[1] * lat[1][j] + dir.v[2] * lat[2][j] + dir.v[3] * lat[3][j]) * car.d = car.v[j] * dir.d
================================================================================
