-------------------------------- MODULE Chgcar --------------------------------
(* Reading a CHGCAR. Lines: head (the cell: lattice vectors in half units, scaling in half units),     *)
(* blank, grid (points along the three axes), data (n numbers), aug (augmentation occupancies start),  *)
(* other (numbers of the augmentation part: occupancies, moments of the atoms), junk (a number that    *)
(* did not fit). The i-th number of the d-th density is the identifier 1000000 * d + i.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS Size, MaxSets, PerLine, Damage

VARIABLES doc, st, src, pos
vars == <<doc, st, src, pos>>

St0 == [sec |-> "head", lat |-> <<>>, scale |-> 0, n |-> <<>>, d |-> 0,
        at |-> <<1, 1, 1>>,     \* grid point of the next number: x runs fastest
        i |-> 0,                \* numbers of this density so far
        grid |-> <<>>,          \* densities so far: [d][z][y][x]
        bad |-> FALSE]

Empty(n) == [z \in 1..n[3] |-> [y \in 1..n[2] |-> [x \in 1..n[1] |-> 0]]]
Next3(n, p) == IF p[1] < n[1] THEN <<p[1] + 1, p[2], p[3]>>
               ELSE IF p[2] < n[2] THEN <<1, p[2] + 1, p[3]>> ELSE <<1, 1, p[3] + 1>>
Id(d, i) == 1000000 * d + i
Full(s) == s.d > 0 /\ s.at[3] > s.n[3]
RECURSIVE Place(_, _)
Place(s, k) == IF k = 0 THEN s
               ELSE IF Full(s) THEN [s EXCEPT !.bad = TRUE]
               ELSE Place([s EXCEPT !.grid = [@ EXCEPT ![s.d] = [@ EXCEPT ![s.at[3]] = [@ EXCEPT ![s.at[2]] = [@ EXCEPT ![s.at[1]] = Id(s.d, s.i + 1)]]]],
                                    !.i = @ + 1, !.at = Next3(s.n, s.at)], k - 1)
Open(s, n) == [s EXCEPT !.sec = "data", !.n = n, !.d = @ + 1, !.i = 0, !.at = <<1, 1, 1>>, !.grid = Append(@, Empty(n))]

Refuse(s) == [s EXCEPT !.bad = TRUE]
Step(s, l) ==
  CASE s.bad -> s
    [] s.sec = "head" -> IF l.k = "head" THEN [s EXCEPT !.lat = l.lat, !.scale = l.scale, !.sec = "blank"] ELSE Refuse(s)
    [] s.sec = "blank" -> IF l.k = "blank" THEN [s EXCEPT !.sec = "grid"] ELSE Refuse(s)
    [] s.sec = "grid" -> IF l.k = "grid" THEN Open(s, l.n) ELSE Refuse(s)
    [] s.sec = "data" -> IF l.k = "data" THEN Place(s, l.n)
                         ELSE IF ~Full(s) THEN Refuse(s)
                         ELSE CASE l.k = "aug" -> [s EXCEPT !.sec = "aug"]
                                [] l.k = "grid" -> IF l.n = s.n THEN Open(s, l.n) ELSE Refuse(s)
                                [] OTHER -> Refuse(s)
    [] s.sec = "aug" -> CASE l.k \in {"other", "aug"} -> s
                          [] l.k = "grid" -> IF l.n = s.n THEN Open(s, l.n) ELSE Refuse(s)
                          [] OTHER -> Refuse(s)

(* the volume of the scaled cell, in (half unit)^6: the triple product, whatever the handedness *)
Cross(a, b) == << a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1] >>
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Abs(n) == IF n < 0 THEN -n ELSE n
Volume(s) == Abs(Dot(s.lat[1], Cross(s.lat[2], s.lat[3]))) * s.scale * s.scale * s.scale

Whole(s) == ~s.bad /\ s.sec \in {"data", "aug"} /\ Full(s)
Names(d) == CASE d = 1 -> <<"charge">> [] d = 2 -> <<"charge", "magnetization">> [] d = 4 -> <<"charge", "x", "y", "z">> [] OTHER -> <<>>
Proj(s) == IF ~Whole(s) \/ Names(s.d) = <<>> THEN [refused |-> TRUE]
           ELSE [refused |-> FALSE, names |-> Names(s.d), volume |-> Volume(s), n |-> s.n, grid |-> s.grid]

--------------------------------------------------------------------------------
Lattices == { << <<4, 0, 0>>, <<0, 5, 0>>, <<0, 0, 7>> >>, << <<0, 4, 0>>, <<5, 0, 0>>, <<0, 0, 7>> >>,
              << <<0, 3, 3>>, <<3, 0, 3>>, <<3, 3, 0>> >>, << <<3, 3, 0>>, <<0, 3, 3>>, <<-3, 1, 6>> >>,
              << <<5, -2, 1>>, <<1, 6, -3>>, <<2, 1, -8>> >> }
Grids == CASE Size = 1 -> { <<1, 1, 1>>, <<2, 1, 1>>, <<1, 2, 1>>, <<1, 1, 2>>, <<2, 3, 1>>, <<3, 1, 2>>, <<1, 2, 3>>, <<2, 3, 2>>, <<3, 2, 2>>, <<3, 4, 2>> }
           [] Size = 2 -> { <<x, y, z>> : x \in 1..4, y \in 1..4, z \in 1..4 }
           [] OTHER -> {}
(* the cells are varied on one grid, the grids and the damage in one cell *)
Plain == st.scale = 2 /\ st.lat[1] = <<5, -2, 1>>
Left == st.n[1] * st.n[2] * st.n[3] - st.i
Data(n) == [k |-> "data", n |-> n]
Grid(n) == [k |-> "grid", n |-> n]
NextLines ==
  IF st.bad THEN {}
  ELSE CASE st.sec = "head" -> { [k |-> "head", lat |-> a, scale |-> s] : a \in Lattices, s \in {1, 2, 3} }
    [] st.sec = "blank" -> { [k |-> "blank"] }
    [] st.sec = "grid" -> { Grid(n) : n \in IF Plain THEN Grids ELSE { <<2, 3, 1>> } }
    [] st.sec = "data" -> IF Left > 0 THEN { Data(IF Left < PerLine THEN Left ELSE PerLine) }
                                           \cup (IF Damage /\ Plain THEN { Data(Left + 1), [k |-> "junk"] } ELSE {})
                          ELSE { [k |-> "aug"] } \cup (IF st.d < MaxSets THEN { Grid(st.n) } ELSE {})
    [] st.sec = "aug" -> IF doc[Len(doc)].k = "aug" THEN { [k |-> "other"] }
                         ELSE (IF st.d < MaxSets THEN { Grid(st.n) } ELSE {}) \cup (IF doc[Len(doc) - 2].k = "other" \/ st.d > 1 THEN {} ELSE { [k |-> "aug"] })

InitMC == src = 0 /\ pos = 0 /\ doc = <<>> /\ st = St0
NextMC == /\ \E l \in NextLines : doc' = Append(doc, l) /\ st' = Step(st, l)
          /\ UNCHANGED <<src, pos>>
SpecMC == InitMC /\ [][NextMC]_vars

Docs == ndJsonDeserialize(IOEnv.DOCS)
InitDocs == src \in 1..Len(Docs) /\ pos = 0 /\ doc = <<>> /\ st = St0
NextDocs == /\ pos < Len(Docs[src])
            /\ st' = Step(st, Docs[src][pos + 1])
            /\ pos' = pos + 1
            /\ UNCHANGED <<doc, src>>
SpecDocs == InitDocs /\ [][NextDocs]_vars

Emit == IF src = 0
        THEN Len(doc) < 3 \/ CSVWrite("%1$s", <<ToJson([src |-> 0, doc |-> doc, exp |-> Proj(st)])>>, IOEnv.OUT)
        ELSE pos = Len(Docs[src]) =>
             ndJsonSerialize(IOEnv.OUT \o "." \o ToString(src), <<[src |-> src, exp |-> Proj(st)]>>)

(* Meaning: the number on grid point (x, y, z) of density d is number x + nx (y + ny z) of that       *)
(* density, nothing from the augmentation parts enters, and the volume is the determinant.            *)
Hist == IF src = 0 THEN doc ELSE SubSeq(Docs[src], 1, pos)
Perms == { <<1, 2, 3, 1>>, <<2, 3, 1, 1>>, <<3, 1, 2, 1>>, <<3, 2, 1, -1>>, <<2, 1, 3, -1>>, <<1, 3, 2, -1>> }
RECURSIVE Sum(_, _)
Sum(a, todo) == IF todo = {} THEN 0 ELSE LET p == CHOOSE q \in todo : TRUE IN p[4] * a[1][p[1]] * a[2][p[2]] * a[3][p[3]] + Sum(a, todo \ {p})
Meaning ==
  (src = 0 \/ pos = Len(Docs[src])) =>
  LET p == Proj(st) IN
  ~p.refused =>
    /\ p.n = Hist[3].n
    /\ Len(p.grid) = Cardinality({ i \in 1..Len(Hist) : Hist[i].k = "grid" }) /\ Len(p.names) = Len(p.grid)
    /\ \A d \in 1..Len(p.grid), x \in 0..p.n[1] - 1, y \in 0..p.n[2] - 1, z \in 0..p.n[3] - 1 :
         p.grid[d][z + 1][y + 1][x + 1] = 1000000 * d + 1 + x + p.n[1] * (y + p.n[2] * z)
    /\ LET det == Sum(Hist[1].lat, Perms) IN p.volume \in {det * Hist[1].scale ^ 3, -(det * Hist[1].scale ^ 3)} /\ p.volume > 0
================================================================================
