----------------------------- MODULE KpointsEdit -----------------------------
(* A k-point set under edits. Values are identifiers: the number of the edit that supplied them      *)
(* (initial values: 1000, points: 90000 + position). points is a sequence of identifiers.                           *)
(* A list may hold the same point twice: twin = <<i, j>>, its element j is element i once more.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS MaxLen, Modes, Sizes, Bads

VARIABLES doc, st, trail, src, pos
vars == <<doc, st, trail, src, pos>>

(* ini: [k |-> "init", mode, form, np, tetra (0 none, else number), shifts (BOOLEAN), comment (BOOLEAN)] *)
First(tw, j) == IF tw # <<>> /\ tw[2] = j THEN tw[1] ELSE j
Start(i) == [mode |-> i.mode, comment |-> IF i.comment THEN 1000 ELSE 0,
             points |-> [j \in 1..i.np |-> 90000 + First(i.twin, j)],
             n |-> 1000,                     \* count entry: explicit: number of points, line: identifier, automatic: 0
             tetra |-> IF i.tetra THEN 1000 ELSE 0, tvol |-> IF i.tetra THEN 1000 ELSE 0,
             div |-> IF i.mode = "automatic" THEN 1000 ELSE 0,
             gen |-> IF i.mode = "reciprocal" THEN 1000 ELSE 0,
             shifts |-> IF i.shifts THEN 1000 ELSE 0,
             cent |-> IF i.mode = "automatic" THEN 1000 ELSE 0]

RemoveAt(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
Step(s, e, m) ==
  CASE e.k = "bad" -> s
    [] e.k = "comment" -> [s EXCEPT !.comment = m]
    [] e.k = "point" -> [s EXCEPT !.points = [@ EXCEPT ![e.i] = 100 * m]]
    [] e.k = "points" -> [s EXCEPT !.points = [j \in 1..e.np |-> 100 * m + First(e.twin, j)]]
    [] e.k = "delete" -> [s EXCEPT !.points = RemoveAt(@, e.i)]
    [] e.k = "num" -> [s EXCEPT !.n = m]
    [] e.k = "tetra" -> [s EXCEPT !.tetra = m, !.tvol = IF @ = 0 THEN m ELSE @]
    [] e.k = "tetra_volume" -> [s EXCEPT !.tvol = m]
    [] e.k = "divisions" -> [s EXCEPT !.div = m]
    [] e.k = "generating_vectors" -> [s EXCEPT !.gen = m]
    [] e.k = "shifts" -> [s EXCEPT !.shifts = m]
    [] e.k = "noshifts" -> [s EXCEPT !.shifts = 0]
    [] e.k = "centering" -> [s EXCEPT !.cent = m]

Points(s) == Len(s.points)
Edits(s) ==
  { [k |-> "comment"] } \cup { [k |-> "bad", what |-> b] : b \in Bads }
  \cup (IF s.mode \in {"explicit", "line"}
        THEN { [k |-> "point", i |-> i] : i \in 1..Points(s) } \cup { [k |-> "points", np |-> n, twin |-> <<>>] : n \in Sizes }
             \cup { [k |-> "points", np |-> n, twin |-> <<i, n>>] : n \in { z \in Sizes : z > 1 }, i \in {1} }
             \cup (IF Points(s) > 1 THEN { [k |-> "delete", i |-> i] : i \in 1..Points(s) } ELSE {}) ELSE {})
  \cup (IF s.mode = "line" THEN { [k |-> "num"] } ELSE {})
  \cup (IF s.mode = "explicit" THEN { [k |-> "tetra"] } \cup (IF s.tetra # 0 THEN { [k |-> "tetra_volume"] } ELSE {}) ELSE {})
  \cup (IF s.mode = "automatic" THEN { [k |-> "divisions"], [k |-> "shifts"], [k |-> "noshifts"], [k |-> "centering"] } ELSE {})
  \cup (IF s.mode = "reciprocal" THEN { [k |-> "generating_vectors"], [k |-> "shifts"], [k |-> "noshifts"] } ELSE {})

Inits == { [k |-> "init", form |-> f, mode |-> m, np |-> IF m \in {"explicit", "line"} THEN n ELSE 0,
            twin |-> IF w /\ n > 1 /\ m \in {"explicit", "line"} THEN <<1, n>> ELSE <<>>, tetra |-> t /\ m = "explicit",
            shifts |-> (t /\ m = "automatic") \/ (m = "reciprocal"), comment |-> c]
           : f \in {"dict", "text"}, m \in Modes, n \in Sizes, t \in BOOLEAN, c \in {TRUE}, w \in BOOLEAN }
         \cup { [k |-> "init", form |-> "dict", mode |-> m, np |-> 0, twin |-> <<>>, tetra |-> FALSE, shifts |-> FALSE, comment |-> FALSE]
                : m \in Modes \cap {"automatic", "reciprocal"} }

InitMC == /\ src = 0 /\ pos = 0 /\ trail = <<>>
          /\ \E i \in Inits : doc = <<i>> /\ st = Start(i)
NextMC == /\ Len(doc) <= MaxLen
          /\ \E e \in Edits(st) : doc' = Append(doc, e) /\ st' = Step(st, e, Len(doc) + 1)
          /\ UNCHANGED <<src, pos, trail>>
SpecMC == InitMC /\ [][NextMC]_vars

Docs == ndJsonDeserialize(IOEnv.DOCS)
InitDocs == /\ src \in 1..Len(Docs) /\ pos = 1 /\ doc = <<>> /\ st = Start(Docs[src][1]) /\ trail = <<st>>
NextDocs == /\ pos < Len(Docs[src])
            /\ st' = Step(st, Docs[src][pos + 1], pos + 1)
            /\ trail' = Append(trail, st')
            /\ pos' = pos + 1
            /\ UNCHANGED <<doc, src>>
SpecDocs == InitDocs /\ [][NextDocs]_vars

Emit == IF src = 0
        THEN CSVWrite("%1$s", <<ToJson([src |-> 0, doc |-> doc, exp |-> <<st>>])>>, IOEnv.OUT)
        ELSE pos = Len(Docs[src]) =>
             ndJsonSerialize(IOEnv.OUT \o "." \o ToString(src), <<[src |-> src, exp |-> trail]>>)

(* Bookkeeping: points never appear from nowhere, their order is only changed by whole-list edits,   *)
(* deletions account for every lost point, and data of another mode never appear.                    *)
Hist == IF src = 0 THEN doc ELSE SubSeq(Docs[src], 1, pos)
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Lists == { i \in 1..Len(Hist) : Hist[i].k \in {"init", "points"} }
Base == Max(Lists)
DeletesSince == Cardinality({ i \in (Base + 1)..Len(Hist) : Hist[i].k = "delete" })
Meaning ==
  /\ Len(st.points) = Hist[Base].np - DeletesSince
  /\ \A i, j \in 1..Len(st.points) : i # j /\ st.points[i] = st.points[j]
                                      => Hist[Base].twin # <<>> /\ st.points[i] % 100 = Hist[Base].twin[1]
  /\ \A i \in 1..Len(st.points) : st.points[i] \div 100 <= Len(Hist) \/ (Base = 1 /\ st.points[i] \div 1000 = 90)
  /\ st.mode \in {"automatic", "reciprocal"} => st.points = <<>> /\ st.tetra = 0
  /\ st.mode \in {"explicit", "line"} => st.div = 0 /\ st.gen = 0 /\ st.shifts = 0
  /\ (st.tetra = 0) = (st.tvol = 0)
================================================================================
