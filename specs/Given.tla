------------------------------- MODULE Given -------------------------------
(* Objects made from a dictionary and edited entry by entry. A dictionary is complete and well typed *)
(* or refused, and so is every value an edit supplies. Values are classes ("ints": a list of         *)
(* integers, "none", "absent", ...); which are accepted for which entry is the table below.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS MaxLen, Deviations, MCKinds

VARIABLES doc, held, out, why, trail, src, pos
vars == <<doc, held, out, why, trail, src, pos>>

Kinds == {"poscar", "automatic", "generating", "explicit", "tetrahedra", "line", "incar", "incar-any"}
IsKpoints(c) == c \in {"automatic", "generating", "explicit", "tetrahedra", "line"}
IsIncar(c) == c \in {"incar", "incar-any"}

(* the entries, their usual value by kind, what else is accepted, and what is refused and as what *)
Keys(c) == CASE c = "poscar" -> {"comment", "unitcell", "sites"}
             [] IsKpoints(c) -> {"comment", "divisions", "shifts", "points", "tetra", "tetra_volume", "mode", "centering",
                                 "num_kpoints", "generating_vectors"}
             [] OTHER -> {"one", "two"}
Usual(c, k) ==
  CASE k = "comment" -> "text"
    [] k = "unitcell" -> "matrix"
    [] k = "sites" -> "sites"
    [] k = "divisions" -> IF c = "automatic" THEN "ints" ELSE "none"
    [] k = "shifts" -> IF c \in {"automatic", "generating"} THEN "floats" ELSE "none"
    [] k = "points" -> IF c \in {"explicit", "tetrahedra", "line"} THEN "points" ELSE "none"
    [] k = "tetra" -> IF c = "tetrahedra" THEN "tetra" ELSE "none"
    [] k = "tetra_volume" -> IF c = "tetrahedra" THEN "float" ELSE "none"
    [] k = "mode" -> "mode"
    [] k = "centering" -> IF c \in {"automatic", "generating"} THEN "centering" ELSE "none"
    [] k = "num_kpoints" -> "int"
    [] k = "generating_vectors" -> IF c = "generating" THEN "vectors" ELSE "none"
    [] OTHER -> "int"
Accepted(c, k) ==
  CASE k = "comment" -> {"text", "none"}
    [] k = "unitcell" -> {"matrix", "whole"}
    [] k = "sites" -> {"sites", "dicts", "both"}
    [] k = "divisions" -> {"ints", "none"}
    [] k = "shifts" -> {"floats", "none"}
    [] k = "points" -> {"points", "none"}
    [] k = "tetra" -> {"tetra", "none"}
    [] k = "tetra_volume" -> {"float", "none"}
    [] k = "mode" -> {"mode"}
    [] k = "centering" -> {"centering", "none"}
    [] k = "num_kpoints" -> {"int"}
    [] k = "generating_vectors" -> {"vectors", "none"}
    [] OTHER -> {"int", "float", "bool", "word", "ints", "floats", "bools", "words", "textint", "textfloats", "textbool", "absent"}
                \cup (IF c = "incar-any" THEN {"unknown"} ELSE {})
(* refused, with the reason *)
Refused(c, k) ==
  CASE k = "comment" -> << {"number", "list", "lines"}, "type" >>
    [] k = "unitcell" -> << {"none", "lists", "flat", "short", "text"}, "type" >>
    [] k = "sites" -> << {"none", "tuple", "text", "number", "alien", "aliens"}, "type" >>
    [] k = "divisions" -> << {"tuple", "floats", "text", "number", "array", "fewer", "more"}, "type" >>
    [] k = "shifts" -> << {"tuple", "ints", "text", "number", "fewer", "more"}, "type" >>
    [] k = "points" -> << {"tuple", "text", "number"}, "type" >>
    [] k = "tetra" -> << {"tuples", "floats", "number", "tuple", "text", "list"}, "type" >>
    [] k = "tetra_volume" -> << {"int", "text", "list"}, "type" >>
    [] k = "mode" -> << {"text", "number"}, "mode" >>
    [] k = "centering" -> << {"text", "number"}, "centering" >>
    [] k = "num_kpoints" -> << {"none", "float", "text", "list"}, "type" >>
    [] k = "generating_vectors" -> << {"whole", "flat", "tuples", "number", "fewer", "more", "narrow", "wide"}, "type" >>
    [] OTHER -> << {"none", "tuple", "dict", "complex"}, "type" >>
(* refused for reasons of their own *)
Special(c, k) ==
  CASE k = "sites" -> [v \in {"untold"} |-> "nokey"]
    [] k = "points" -> [v \in {"alien", "aliens"} |-> "object"]
    [] k = "tetra" -> [v \in {"four", "six"} |-> "five"]
    [] IsIncar(c) -> [v \in {"mixed", "hashes", "sign"} \cup (IF c = "incar" THEN {"unknown"} ELSE {})
                      |-> CASE v = "mixed" -> "mixed" [] v = "sign" -> "sign" [] v = "hashes" -> "comments" [] OTHER -> "tag"]
    [] OTHER -> [v \in {} |-> "-"]
Values(c, k) == Accepted(c, k) \cup Refused(c, k)[1] \cup DOMAIN Special(c, k) \cup {"absent"}

(* why a value is refused for an entry: a set, empty if it is not *)
Why(c, k, v) == IF v \in Accepted(c, k) THEN {}
                ELSE IF v = "absent" THEN {"nokey"}
                ELSE IF v \in Refused(c, k)[1] THEN {Refused(c, k)[2]}
                ELSE {Special(c, k)[v]}
Missing(v) == v \in {"none", "absent"}
(* a k-point set without any points, divisions or vectors *)
Empty(c, d) == IsKpoints(c) /\ Missing(d["divisions"]) /\ Missing(d["points"]) /\ Missing(d["generating_vectors"])
WhyNot(c, d) == UNION { Why(c, k, d[k]) : k \in Keys(c) } \cup (IF Empty(c, d) THEN {"empty"} ELSE {})

(* an edit: the value is checked like that of a dictionary; sites have to be objects, tags cannot be  *)
(* checked for being known, and a value is not a comment                                            *)
Editable(c, k) == Values(c, k) \ (CASE k = "sites" -> {"dicts", "both", "untold", "absent"}
                                    [] IsIncar(c) -> {"unknown", "hashes", "absent"}
                                    [] OTHER -> {"absent"})
Writable(c, d) ==
  CASE c \in {"explicit", "tetrahedra"} -> ~Missing(d["points"]) /\ (Missing(d["tetra"]) \/ ~Missing(d["tetra_volume"]))
    [] c = "line" -> ~Missing(d["points"])
    [] c = "automatic" -> ~Missing(d["centering"]) /\ ~Missing(d["divisions"]) /\ Missing(d["generating_vectors"])
    [] c = "generating" -> ~Missing(d["centering"]) /\ Missing(d["divisions"]) /\ ~Missing(d["generating_vectors"])
    [] OTHER -> TRUE

(* a value in an object: its class and the number of the step that supplied it *)
Val(v, n) == [v |-> v, n |-> n]
Nothing == [none |-> TRUE]
Made(c, d) == [k \in Keys(c) |-> Val(d[k], 0)]
Edit(c, s, e, n) == IF Why(c, e.key, e.v) # {} THEN [held |-> s, out |-> "refused", why |-> Why(c, e.key, e.v)]
                    ELSE [held |-> [s EXCEPT ![e.key] = Val(e.v, n)], out |-> "ok", why |-> {}]
Classes(s) == [k \in DOMAIN s |-> s[k].v]

(* dictionaries at most Deviations entries away from the usual one *)
Changes(c) == { << k, v >> : k \in Keys(c), v \in UNION { Values(c, k2) : k2 \in Keys(c) } }
Single(c) == { x \in Changes(c) : x[2] \in Values(c, x[1]) /\ x[2] # Usual(c, x[1]) }
Apply(c, S) == [k \in Keys(c) |-> IF \E x \in S : x[1] = k THEN (CHOOSE x \in S : x[1] = k)[2] ELSE Usual(c, k)]
Sets(c) == { {} } \cup { {x} : x \in Single(c) }
           \cup (IF Deviations > 1 THEN { {x, y} : x \in Single(c), y \in Single(c) } ELSE {})
Dicts(c) == { Apply(c, S) : S \in { T \in Sets(c) : \A x, y \in T : x[1] = y[1] => x = y } }

Begin(c, d) == [c |-> c, d |-> d]
InitMC == /\ src = 0 /\ pos = 0 /\ trail = <<>>
          /\ \E c \in MCKinds : \E d \in Dicts(c) :
             /\ doc = << Begin(c, d) >>
             /\ why = WhyNot(c, d)
             /\ IF WhyNot(c, d) = {} THEN held = Made(c, d) /\ out = "ok" ELSE held = Nothing /\ out = "refused"
(* what an edit does to a k-point set that earlier edits have emptied is left open *)
Open == held # Nothing /\ ~Empty(doc[1].c, [k \in DOMAIN held |-> held[k].v])
NextMC == /\ Len(doc) <= MaxLen /\ Open
          /\ LET c == doc[1].c IN
             \E k \in Keys(c) : \E v \in Editable(c, k) :
             LET e == [key |-> k, v |-> v]
                 r == Edit(c, held, e, Len(doc)) IN
             doc' = Append(doc, e) /\ held' = r.held /\ out' = r.out /\ why' = r.why
             /\ trail' = Append(trail, [held |-> held, out |-> out, why |-> why])
          /\ UNCHANGED <<src, pos>>
SpecMC == InitMC /\ [][NextMC]_vars

Docs == ndJsonDeserialize(IOEnv.DOCS)
First(x) == WhyNot(x.c, x.d)
InitDocs == /\ src \in 1..Len(Docs) /\ pos = 1 /\ doc = << Docs[src][1] >> /\ trail = <<>>
            /\ why = First(Docs[src][1])
            /\ IF First(Docs[src][1]) = {} THEN held = Made(Docs[src][1].c, Docs[src][1].d) /\ out = "ok" ELSE held = Nothing /\ out = "refused"
NextDocs == /\ pos < Len(Docs[src]) /\ pos' = pos + 1
            /\ LET e == Docs[src][pos + 1]
                   c == doc[1].c IN
               IF ~Open \/ e.v \notin Editable(c, e.key) THEN UNCHANGED <<doc, held, out, why, trail>>
               ELSE LET r == Edit(c, held, e, Len(doc)) IN
                    doc' = Append(doc, e) /\ held' = r.held /\ out' = r.out /\ why' = r.why
                    /\ trail' = Append(trail, [held |-> held, out |-> out, why |-> why])
            /\ UNCHANGED src
SpecDocs == InitDocs /\ [][NextDocs]_vars

Note == [held |-> held, out |-> out, why |-> why]
Told(t) == [held |-> t.held, out |-> t.out, why |-> t.why, writable |-> t.held # Nothing /\ Writable(doc[1].c, Classes(t.held))]
Report == [doc |-> doc, exp |-> [i \in 1..(Len(trail) + 1) |-> Told(IF i <= Len(trail) THEN trail[i] ELSE Note)]]
Emit == IF src = 0
        THEN CSVWrite("%1$s", <<ToJson([src |-> 0, doc |-> Report.doc, exp |-> Report.exp])>>, IOEnv.OUT)
        ELSE pos = Len(Docs[src]) =>
             ndJsonSerialize(IOEnv.OUT \o "." \o ToString(src), <<[src |-> src, doc |-> Report.doc, exp |-> Report.exp]>>)

(* ------------------------------------------------------------------------------------ meaning *)
Steps == 2..Len(doc)
(* what is held is accepted, entry by entry, and stems from the dictionary or the last accepted edit of that entry *)
Sound == held # Nothing => \A k \in DOMAIN held :
   /\ held[k].v \in Accepted(doc[1].c, k)
   /\ LET E == { i \in Steps : doc[i].key = k /\ doc[i].v \in Accepted(doc[1].c, k) }
          last == CHOOSE i \in E : \A j \in E : j <= i
      IN IF E = {} THEN held[k] = Val(doc[1].d[k], 0) ELSE held[k] = Val(doc[last].v, last - 1)
(* a refusal has a reason and changes nothing; what is accepted has none *)
Reasons == /\ (out = "refused") = (why # {})
           /\ (out = "refused" /\ Len(doc) > 1) => held = trail[Len(trail)].held
           /\ held = Nothing => Len(doc) = 1
(* the table is a partition: no value both accepted and refused *)
Table == \A k \in Keys(doc[1].c) : /\ Accepted(doc[1].c, k) \cap Refused(doc[1].c, k)[1] = {}
                                   /\ Accepted(doc[1].c, k) \cap DOMAIN Special(doc[1].c, k) = {}
                                   /\ Usual(doc[1].c, k) \in Accepted(doc[1].c, k)
Meaning == Sound /\ Reasons /\ Table
================================================================================
