------------------------------- MODULE Sources -------------------------------
(* Objects made from sources and written to targets. State: the files of a directory, a handle the  *)
(* caller keeps open, and what each of two objects of one class holds. Contents are abstract ("a",  *)
(* "b"; "ae" is "a" after an edit); a file holds either text the user put there (raw) or what a     *)
(* write produced. "gone" is a path in a directory that does not exist, "dir" a directory.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS MaxLen, MCClasses

VARIABLES doc, cls, fs, hnd, objs, out, trail, src, pos
vars == <<doc, cls, fs, hnd, objs, out, trail, src, pos>>

Absent == [c |-> "absent", raw |-> FALSE]
State0 == [fs |-> [p |-> [c |-> "a", raw |-> TRUE], q |-> Absent], hnd |-> <<>>, objs |-> << "none", "none" >>, out |-> "ok"]

Edited(c) == CASE c = "a" -> "ae" [] c = "b" -> "be" [] OTHER -> c
Sourcing(e) == Cardinality({ x \in {"path", "handle", "text", "dict"} : e[x] # "-" })

(* what a construction gets to see: exactly one source, and a file if it is a path *)
Make(s, e) ==
  IF Sourcing(e) # 1 THEN [s EXCEPT !.out = "usage"]
  ELSE IF e.path # "-"
  THEN IF e.path \in {"gone", "dir"} THEN [s EXCEPT !.out = "nofile"]
       ELSE IF s.fs[e.path].c = "absent" THEN [s EXCEPT !.out = "nofile"]
       ELSE [s EXCEPT !.out = "ok", !.objs[e.o] = s.fs[e.path].c]
  ELSE [s EXCEPT !.out = "ok",
                 !.objs[e.o] = IF e.handle # "-" THEN e.handle ELSE IF e.text # "-" THEN e.text ELSE e.dict]

(* a write: exactly one target, a class that can write, a place that can be written *)
Write(s, e, c) ==
  IF (e.path # "-") = e.handle THEN [s EXCEPT !.out = "usage"]
  ELSE IF c = "reader" THEN [s EXCEPT !.out = "refused"]
  ELSE IF e.handle THEN [s EXCEPT !.out = "ok", !.hnd = Append(@, s.objs[e.o])]
  ELSE IF e.path \in {"gone", "dir"} THEN [s EXCEPT !.out = "nofile"]
  ELSE [s EXCEPT !.out = "ok", !.fs[e.path] = [c |-> s.objs[e.o], raw |-> FALSE]]

(* edits, a write that fails half-way because the object was made invalid, and the caller's own line in the handle *)
Step(s, e, c) ==
  CASE e.k = "make" -> Make(s, e)
    [] e.k = "write" -> Write(s, e, c)
    [] e.k = "edit" -> [s EXCEPT !.out = "ok", !.objs[e.o] = Edited(@)]
    [] e.k = "mark" -> [s EXCEPT !.out = "ok", !.hnd = Append(@, "mark")]
    [] e.k = "put" -> [s EXCEPT !.out = "ok", !.fs[e.path] = [c |-> e.c, raw |-> TRUE]]

Enabled(s, e, c) == CASE e.k = "write" -> s.objs[e.o] # "none"
                      [] e.k = "edit" -> c = "writer" /\ s.objs[e.o] # "none"
                      [] e.k = "make" -> c = "writer" \/ (e.text = "-" /\ e.dict = "-")
                      [] OTHER -> TRUE

Put(o, p, h, t, d) == [k |-> "make", o |-> o, path |-> p, handle |-> h, text |-> t, dict |-> d]
Or(x, b) == IF b THEN x ELSE "-"
Makes(o) == { Put(o, p, "-", "-", "-") : p \in {"-", "p", "q", "gone", "dir"} }
            \cup { Put(o, "-", h, "-", "-") : h \in {"a", "b"} } \cup { Put(o, "-", "-", t, "-") : t \in {"a", "b"} }
            \cup { Put(o, "-", "-", "-", d) : d \in {"a", "b"} }
            \cup { Put(o, Or("p", "path" \in S), Or("b", "handle" \in S), Or("b", "text" \in S), Or("a", "dict" \in S))
                   : S \in { T \in SUBSET {"path", "handle", "text", "dict"} : Cardinality(T) > 1 } }
Writes(o) == { [k |-> "write", o |-> o, path |-> p, handle |-> h] : p \in {"-", "p", "q", "gone", "dir"}, h \in BOOLEAN }
Steps == UNION { Makes(o) \cup Writes(o) \cup { [k |-> "edit", o |-> o] } : o \in 1..2 }
         \cup { [k |-> "mark"], [k |-> "put", path |-> "p", c |-> "b"] }

Now == [fs |-> fs, hnd |-> hnd, objs |-> objs, out |-> out]
Becomes(s) == fs' = s.fs /\ hnd' = s.hnd /\ objs' = s.objs /\ out' = s.out

InitMC == /\ src = 0 /\ pos = 0 /\ trail = <<>> /\ cls \in MCClasses
          /\ doc = <<>> /\ fs = State0.fs /\ hnd = State0.hnd /\ objs = State0.objs /\ out = "ok"
NextMC == /\ Len(doc) < MaxLen
          /\ \E e \in Steps : /\ Enabled(Now, e, cls)
                              /\ (doc = <<>> => e.k = "make" /\ e.o = 1)
                              /\ doc' = Append(doc, e) /\ Becomes(Step(Now, e, cls))
                              /\ trail' = Append(trail, Step(Now, e, cls))
          /\ UNCHANGED <<cls, src, pos>>
SpecMC == InitMC /\ [][NextMC]_vars

(* generated histories: steps the specification does not enable are skipped *)
Docs == ndJsonDeserialize(IOEnv.DOCS)
InitDocs == /\ src \in 1..Len(Docs) /\ pos = 0 /\ doc = <<>> /\ cls = Docs[src].cls /\ trail = <<>>
            /\ fs = State0.fs /\ hnd = State0.hnd /\ objs = State0.objs /\ out = "ok"
NextDocs == /\ pos < Len(Docs[src].steps)
            /\ LET e == Docs[src].steps[pos + 1] IN
               IF Enabled(Now, e, cls)
               THEN /\ Becomes(Step(Now, e, cls)) /\ doc' = Append(doc, e) /\ trail' = Append(trail, Step(Now, e, cls))
               ELSE UNCHANGED <<fs, hnd, objs, out, doc, trail>>
            /\ pos' = pos + 1 /\ UNCHANGED <<cls, src>>
SpecDocs == InitDocs /\ [][NextDocs]_vars

Emit == IF src = 0
        THEN Len(doc) = MaxLen => CSVWrite("%1$s", <<ToJson([src |-> 0, cls |-> cls, doc |-> doc, exp |-> trail])>>, IOEnv.OUT)
        ELSE pos = Len(Docs[src].steps) =>
             ndJsonSerialize(IOEnv.OUT \o "." \o ToString(src), <<[src |-> src, cls |-> cls, doc |-> doc, exp |-> trail]>>)

(* ------------------------------------------------------------------------------------ meaning *)
Idx == 1..Len(doc)
Good(i) == trail[i].out = "ok"
Last(S) == CHOOSE x \in S : \A y \in S : y <= x
(* a refused step changes nothing *)
Untouched == \A i \in Idx : ~Good(i) =>
   LET b == IF i = 1 THEN State0 ELSE trail[i - 1] IN trail[i].fs = b.fs /\ trail[i].hnd = b.hnd /\ trail[i].objs = b.objs
(* an object holds what its one source held then, edited since or not; the other object does not matter *)
Held == \A o \in 1..2 :
   LET M == { i \in Idx : doc[i].k = "make" /\ doc[i].o = o /\ Good(i) } IN
   IF M = {} THEN objs[o] = "none"
   ELSE LET m == Last(M)
            e == doc[m]
            was == IF m = 1 THEN State0.fs ELSE trail[m - 1].fs
            given == IF e.path # "-" THEN was[e.path].c ELSE IF e.handle # "-" THEN e.handle ELSE IF e.text # "-" THEN e.text ELSE e.dict
            later == \E i \in Idx : i > m /\ doc[i].k = "edit" /\ doc[i].o = o
        IN Sourcing(e) = 1 /\ objs[o] = IF later THEN Edited(given) ELSE given
(* a file changes by writing to it alone: readers never change one; the handle gets exactly what was written to it *)
Written == \A f \in {"p", "q"} :
   LET W == { i \in Idx : Good(i) /\ ((doc[i].k = "write" /\ doc[i].path = f) \/ (doc[i].k = "put" /\ doc[i].path = f)) } IN
   IF W = {} THEN fs[f] = State0.fs[f]
   ELSE LET w == Last(W) IN IF doc[w].k = "put" THEN fs[f] = [c |-> doc[w].c, raw |-> TRUE]
                            ELSE fs[f] = [c |-> trail[w].objs[doc[w].o], raw |-> FALSE]
Handed == Len(hnd) = Cardinality({ i \in Idx : Good(i) /\ (doc[i].k = "mark" \/ (doc[i].k = "write" /\ doc[i].handle)) })
Readers == cls = "reader" => \A i \in Idx : doc[i].k = "write" => ~Good(i)
Meaning == Untouched /\ Held /\ Written /\ Handed /\ Readers
================================================================================
