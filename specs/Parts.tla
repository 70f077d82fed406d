-------------------------------- MODULE Parts --------------------------------
(* The parts users handle directly: watched messages of a stream, sites of a structure, k-points.      *)
(* A part holds what it was given last. A message checks every field, at construction and later, and    *)
(* a refused value changes nothing; looking for a message in a line gives a new, equal message.       *)
(* A value is its class and the number of the step that supplied it (0: the default).                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS MCSteps

VARIABLES objs, trail, outs, src, pos
vars == <<objs, trail, outs, src, pos>>

Fields(kind) == CASE kind = "message" -> {"shortname", "kind", "regex", "message", "suggestion", "location", "recover", "inverse"}
                  [] kind = "site" -> {"specie", "position", "selective", "velocities", "predictors", "direct"}
                  [] kind = "point" -> {"point", "weight", "direct"}
(* what is accepted, what is refused, and what may be left to its default *)
Good(f) == CASE f \in {"shortname", "message"} -> {"text", "empty"}
             [] f = "kind" -> {"error", "warning"}
             [] f = "regex" -> {"text", "compiled"}
             [] f = "suggestion" -> {"text", "none", "empty"}
             [] f = "location" -> {"stdout", "stderr"}
             [] f \in {"recover", "inverse", "direct"} -> {"true", "false"}
             [] f \in {"position", "point"} -> {"array"}
             [] f = "specie" -> {"name"}
             [] f = "selective" -> {"flags"}
             [] f \in {"velocities", "predictors"} -> {"array", "none"}
             [] f = "weight" -> {"number", "none"}
Bad(f) == CASE f \in {"shortname", "message"} -> {"number", "list", "nothing", "bytes"}
            [] f = "kind" -> {"word", "number", "nothing", "list"}
            [] f = "regex" -> {"broken"}
            [] f = "suggestion" -> {"number", "list", "bytes"}
            [] f = "location" -> {"word", "number", "nothing"}
            [] f \in {"recover", "inverse"} -> {"number", "word", "nothing"}
            [] OTHER -> {}
Optional(kind) == CASE kind = "message" -> {"suggestion", "location", "recover", "inverse"}
                    [] kind = "site" -> {"selective", "velocities", "predictors", "direct"}
                    [] kind = "point" -> {"direct"}
Default(f) == CASE f \in {"suggestion", "velocities", "predictors"} -> "none"
                [] f = "location" -> "stdout"
                [] f \in {"recover", "inverse"} -> "false"
                [] f = "direct" -> "true"
                [] f = "selective" -> "free"
                [] OTHER -> "never"
(* what can be set later *)
Settable(kind) == CASE kind = "message" -> Fields(kind)
                    [] kind = "site" -> {"position", "velocities", "direct"}
                    [] kind = "point" -> {}

Value(c, m, f) == IF c = "left" THEN [c |-> Default(f), m |-> 0] ELSE [c |-> c, m |-> m]
Acceptable(f, c) == c = "left" \/ c \in Good(f)
(* the outcome of a step and the parts after it *)
Outcome(q, e) ==
  CASE e.k = "make" -> IF \A f \in Fields(e.kind) : Acceptable(f, e.given[f]) THEN "made" ELSE "refused"
    [] e.k = "set" -> IF e.c \in Good(e.f) THEN "set" ELSE "refused"
    [] e.k = "look" -> IF e.hit THEN "found" ELSE "nothing"
    [] e.k = "touch" -> "touched"
Step(q, e, m) ==
  LET o == Outcome(q, e) IN
  CASE o = "made" -> Append(q, [kind |-> e.kind, f |-> [f \in Fields(e.kind) |-> Value(e.given[f], m, f)]])
    [] o = "set" -> [q EXCEPT ![e.o].f[e.f] = [c |-> e.c, m |-> m]]
    [] o = "found" -> Append(q, q[e.o])
    [] o = "touched" -> [q EXCEPT ![e.o].f["selective"] = [c |-> "touched", m |-> m]]
    [] OTHER -> q
Possible(q, e) ==
  CASE e.k = "make" -> TRUE
    [] e.k = "set" -> e.o <= Len(q) /\ e.f \in Settable(q[e.o].kind)
    [] e.k = "look" -> e.o <= Len(q) /\ q[e.o].kind = "message"
    [] e.k = "touch" -> e.o <= Len(q) /\ q[e.o].kind = "site" /\ q[e.o].f["selective"].c \in {"free", "touched"}
Do(e) == IF Possible(objs, e)
         THEN /\ objs' = Step(objs, e, Len(trail) + 1) /\ outs' = Append(outs, Outcome(objs, e)) /\ trail' = Append(trail, e)
         ELSE UNCHANGED <<objs, outs, trail>>

--------------------------------------------------------------------------------
(* exhaustive: a part made plainly or with up to two unusual fields, then edits and searches *)
Plain(kind) == [f \in Fields(kind) |-> IF f \in Optional(kind) THEN "left" ELSE CASE f = "kind" -> "error" [] f = "regex" -> "text"
                  [] f \in {"position", "point"} -> "array" [] f = "specie" -> "name" [] f = "weight" -> "number" [] OTHER -> "text"]
Every(f) == Good(f) \cup Bad(f)
One(kind) == UNION { { [Plain(kind) EXCEPT ![f] = c] : c \in Every(f) } : f \in Fields(kind) }
Two(kind) == UNION { UNION { { [p EXCEPT ![f] = c] : c \in Every(f) } : f \in Fields(kind) } : p \in One(kind) }
Makes == { [k |-> "make", kind |-> kind, given |-> g] : kind \in {"message"}, g \in Two("message") }
    \cup { [k |-> "make", kind |-> kind, given |-> g] : kind \in {"site"}, g \in Two("site") }
    \cup { [k |-> "make", kind |-> kind, given |-> g] : kind \in {"point"}, g \in Two("point") }
Later(kind, o) == UNION { { [k |-> "set", o |-> o, f |-> f, c |-> c] : c \in Every(f) } : f \in Settable(kind) }
         \cup (IF kind = "message" THEN { [k |-> "look", o |-> o, hit |-> h] : h \in BOOLEAN } ELSE {})
         \cup (IF kind = "site" THEN { [k |-> "touch", o |-> o] } ELSE {})
Start == src = 0 /\ pos = 0 /\ objs = <<>> /\ trail = <<>> /\ outs = <<>>
InitMC == Start
NextMC == /\ Len(trail) < MCSteps
          /\ UNCHANGED <<src, pos>>
          /\ IF trail = <<>> THEN \E e \in (IF MCSteps = 1 THEN Makes ELSE { [k |-> "make", kind |-> x, given |-> Plain(x)] : x \in {"message", "site", "point"} }) : Do(e)
             ELSE \/ \E o \in 1..Len(objs) : \E e \in Later(objs[o].kind, o) : Do(e)
                  \/ Len(objs) = 1 /\ \E x \in {objs[1].kind} : Do([k |-> "make", kind |-> x, given |-> Plain(x)])
SpecMC == InitMC /\ [][NextMC]_vars
Docs == ndJsonDeserialize(IOEnv.DOCS)
InitDocs == src \in 1..Len(Docs) /\ pos = 0 /\ objs = <<>> /\ trail = <<>> /\ outs = <<>>
NextDocs == pos < Len(Docs[src]) /\ Do(Docs[src][pos + 1]) /\ pos' = pos + 1 /\ UNCHANGED src
SpecDocs == InitDocs /\ [][NextDocs]_vars

Done == IF src = 0 THEN Len(trail) = MCSteps ELSE pos = Len(Docs[src])

(* ------------------------------------------------------------------------------------ meaning *)
(* where a part comes from: the step that made it, or found it (then the part it is equal to) *)
Births == SelectSeq([n \in 1..Len(trail) |-> n], LAMBDA n : outs[n] \in {"made", "found"})
RECURSIVE At(_, _, _)
(* the value of a field of a part after n steps: the last accepted edit of it, or what it was born with *)
At(o, f, n) ==
  LET e == trail[n] IN
  IF n = Births[o]
  THEN IF outs[n] = "made" THEN Value(e.given[f], n, f) ELSE At(e.o, f, n - 1)
  ELSE IF outs[n] = "set" /\ e.o = o /\ e.f = f THEN [c |-> e.c, m |-> n]
  ELSE IF outs[n] = "touched" /\ e.o = o /\ f = "selective" THEN [c |-> "touched", m |-> n]
  ELSE At(o, f, n - 1)
Holds == /\ Len(objs) = Len(Births)
         /\ \A o \in 1..Len(objs) : \A f \in Fields(objs[o].kind) : objs[o].f[f] = At(o, f, Len(trail))
Sound == \A o \in 1..Len(objs) : \A f \in Fields(objs[o].kind) :
           objs[o].f[f].c \in Good(f) \cup {Default(f)} \cup (IF f = "selective" THEN {"touched"} ELSE {})
Meaning == Holds /\ Sound
(* the parts after each step, for the replay *)
RECURSIVE After(_)
After(n) == IF n = 0 THEN <<>> ELSE Step(After(n - 1), trail[n], n)
Record == [src |-> src, trail |-> trail, outs |-> outs, states |-> [n \in 1..Len(trail) |-> After(n)]]
Emit == Done => IF src = 0 THEN CSVWrite("%1$s", << ToJson(Record) >>, IOEnv.OUT)
                ELSE ndJsonSerialize(IOEnv.OUT \o "." \o ToString(src), << Record >>)
=============================================================================
