------------------------------ MODULE IncarEdit ------------------------------
(* An INCAR object under edits. State: the tags present, each with its value and comment.           *)
(* Values are abstract: kind (type and number of elements) plus the identifier of the edit that     *)
(* set them, for which the replay driver stands concrete values.                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS MaxLen, Tags, Kinds, BadKinds, MCInits

VARIABLES doc, ent, trail, src, pos
vars == <<doc, ent, trail, src, pos>>

FreeTags == {"SYS", "MAG", "CON"}
Put(f, k, v) == (k :> v) @@ f
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

(* Free-text tags are only ever set to text here; the others to any kind but free text. *)
Fits(t, k) == (t \in FreeTags) = (k = "text")

(* one edit: set (creates or overwrites), del (absent tag: nothing happens), bad (refused: nothing happens) *)
Step(f, e, n) ==
  CASE e.k = "set" -> Put(f, e.t, [id |-> n, kind |-> e.kind, com |-> e.com])
    [] e.k = "del" -> IF e.t \in DOMAIN f THEN Drop(f, e.t) ELSE f
    [] e.k = "bad" -> f
    [] e.k = "init" -> f

(* initial content: a list of settings given at construction, later ones win *)
RECURSIVE Start(_, _, _)
Start(f, ss, i) == IF i > Len(ss) THEN f
                   ELSE Start(Put(f, ss[i].t, [id |-> 1000 + i, kind |-> ss[i].kind, com |-> ss[i].com]), ss, i + 1)

Edits == { [k |-> "set", t |-> t, kind |-> k, com |-> c] : t \in Tags, k \in Kinds, c \in BOOLEAN }
         \cup { [k |-> "del", t |-> t] : t \in Tags }
         \cup { [k |-> "bad", t |-> t, kind |-> b] : t \in Tags, b \in BadKinds }
(* in free text every mixture of words is right *)
Good == { e \in Edits : (e.k = "set" => Fits(e.t, e.kind)) /\ ((e.k = "bad" /\ e.t \in FreeTags) => e.kind \notin {"mixed", "mixed2"}) }

Inits == << [k |-> "init", form |-> "dict", sets |-> <<>>],
            [k |-> "init", form |-> "text", sets |-> << [t |-> "A", kind |-> "int", com |-> TRUE], [t |-> "B", kind |-> "bools", com |-> FALSE] >>],
            [k |-> "init", form |-> "dict", sets |-> << [t |-> "A", kind |-> "floats", com |-> FALSE], [t |-> "SYS", kind |-> "text", com |-> FALSE] >>],
            [k |-> "init", form |-> "text", sets |-> << [t |-> "A", kind |-> "str", com |-> FALSE], [t |-> "SYS", kind |-> "text", com |-> TRUE] >>] >>

InitMC == /\ src = 0 /\ pos = 0 /\ trail = <<>>
          /\ \E i \in 1..MCInits : doc = << Inits[i] >> /\ ent = Start(<<>>, Inits[i].sets, 1)
NextMC == /\ Len(doc) <= MaxLen
          /\ \E e \in Good : doc' = Append(doc, e) /\ ent' = Step(ent, e, Len(doc) + 1)
          /\ UNCHANGED <<src, pos, trail>>
SpecMC == InitMC /\ [][NextMC]_vars

Docs == ndJsonDeserialize(IOEnv.DOCS)
InitDocs == /\ src \in 1..Len(Docs) /\ pos = 1 /\ doc = <<>>
            /\ ent = Start(<<>>, Docs[src][1].sets, 1)
            /\ trail = << ent >>
NextDocs == /\ pos < Len(Docs[src])
            /\ ent' = Step(ent, Docs[src][pos + 1], pos + 1)
            /\ trail' = Append(trail, ent')
            /\ pos' = pos + 1
            /\ UNCHANGED <<doc, src>>
SpecDocs == InitDocs /\ [][NextDocs]_vars

Emit == IF src = 0
        THEN CSVWrite("%1$s", <<ToJson([src |-> 0, doc |-> doc, exp |-> <<ent>>])>>, IOEnv.OUT)
        ELSE pos = Len(Docs[src]) =>
             ndJsonSerialize(IOEnv.OUT \o "." \o ToString(src), <<[src |-> src, exp |-> trail]>>)

(* A tag is present exactly if its last effective edit set it, and then with that edit's value. *)
Hist == IF src = 0 THEN doc ELSE SubSeq(Docs[src], 1, pos)
Touches(t) == { i \in 2..Len(Hist) : Hist[i].k \in {"set", "del"} /\ Hist[i].t = t }
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Given(t) == { i \in 1..Len(Hist[1].sets) : Hist[1].sets[i].t = t }
Known == DOMAIN ent \cup { Hist[i].t : i \in { j \in 2..Len(Hist) : Hist[j].k # "init" } }
Meaning == \A t \in Known :
   IF Touches(t) = {} THEN (t \in DOMAIN ent) = (Given(t) # {}) /\ (t \in DOMAIN ent => ent[t].id = 1000 + Max(Given(t)))
   ELSE LET i == Max(Touches(t)) IN
        IF Hist[i].k = "del" THEN t \notin DOMAIN ent
        ELSE t \in DOMAIN ent /\ ent[t].id = i /\ ent[t].kind = Hist[i].kind
================================================================================
