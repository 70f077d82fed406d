------------------------------ MODULE Threads ------------------------------
(* Objects used by several threads at once. Every thread has a program of its own: make an object,     *)
(* edit it, look at it, write it, be refused. An operation takes several slices of time, and between     *)
(* any two of them the other threads may do theirs. What a thread sees is what it would see alone.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS Slices, MCThreads, MCPrograms

VARIABLES progs, pc, slice, objs, target, seen, sched, src, pos
vars == <<progs, pc, slice, objs, target, seen, sched, src, pos>>

Edited(c) == CASE c = "a" -> "ae" [] c = "b" -> "be" [] OTHER -> c
(* the object, what was written and what is seen after an operation *)
Apply(s, op) ==
  CASE op \in {"make a", "open a"} -> [s EXCEPT !.obj = "a"]
    [] op \in {"make b", "open b"} -> [s EXCEPT !.obj = "b"]
    [] op = "edit" -> [s EXCEPT !.obj = Edited(@)]
    [] op = "write" -> [s EXCEPT !.target = Append(@, s.obj)]
    [] op = "see" -> [s EXCEPT !.seen = Append(@, s.obj)]
    [] op = "refused" -> s
Fresh == [obj |-> "none", target |-> <<>>, seen |-> <<>>]
RECURSIVE Alone(_, _)
Alone(prog, n) == IF n = 0 THEN Fresh ELSE Apply(Alone(prog, n - 1), prog[n])

(* the programs of the exhaustive runs *)
Reading == { << "make a", "see" >>, << "open b", "see" >> }
Editing == { << "make a", "edit", "see" >>, << "make b", "write" >> }

Threads == DOMAIN progs
Runnable(t) == pc[t] <= Len(progs[t])
Mine(t) == [obj |-> objs[t], target |-> target[t], seen |-> seen[t]]
(* one slice of time for a thread; the last slice of an operation completes it *)
Run(t) ==
  /\ Runnable(t)
  /\ sched' = Append(sched, t)
  /\ IF slice[t] < Slices
     THEN slice' = [slice EXCEPT ![t] = @ + 1] /\ UNCHANGED <<pc, objs, target, seen>>
     ELSE LET s == Apply(Mine(t), progs[t][pc[t]]) IN
          /\ slice' = [slice EXCEPT ![t] = 1] /\ pc' = [pc EXCEPT ![t] = @ + 1]
          /\ objs' = [objs EXCEPT ![t] = s.obj] /\ target' = [target EXCEPT ![t] = s.target]
          /\ seen' = [seen EXCEPT ![t] = s.seen]

Start(ps) == /\ progs = ps /\ pc = [t \in DOMAIN ps |-> 1] /\ slice = [t \in DOMAIN ps |-> 1]
             /\ objs = [t \in DOMAIN ps |-> "none"] /\ target = [t \in DOMAIN ps |-> <<>>]
             /\ seen = [t \in DOMAIN ps |-> <<>>] /\ sched = <<>>
InitMC == /\ src = 0 /\ pos = 0 /\ \E ps \in [1..MCThreads -> MCPrograms] : Start(ps)
NextMC == /\ \E t \in Threads : Run(t)
          /\ UNCHANGED <<progs, src, pos>>
SpecMC == InitMC /\ [][NextMC]_vars

(* schedules supplied from outside: [progs, sched]; slices of threads that are done are skipped *)
Docs == ndJsonDeserialize(IOEnv.DOCS)
InitDocs == /\ src \in 1..Len(Docs) /\ pos = 0 /\ Start(Docs[src].progs)
NextDocs == /\ pos < Len(Docs[src].sched)
            /\ LET t == Docs[src].sched[pos + 1] IN
               IF Runnable(t) THEN Run(t) ELSE UNCHANGED <<pc, slice, objs, target, seen, sched>>
            /\ pos' = pos + 1 /\ UNCHANGED <<progs, src>>
SpecDocs == InitDocs /\ [][NextDocs]_vars

Finished == \A t \in Threads : ~Runnable(t)
Done == IF src = 0 THEN Finished ELSE pos = Len(Docs[src].sched)
Result == [src |-> src, progs |-> progs, sched |-> sched, pc |-> pc, target |-> target, seen |-> seen]
Emit == Done => IF src = 0 THEN CSVWrite("%1$s", << ToJson(Result) >>, IOEnv.OUT)
                ELSE ndJsonSerialize(IOEnv.OUT \o "." \o ToString(src), << Result >>)

(* ------------------------------------------------------------------------------------ meaning *)
(* whatever the schedule, a thread has what its own completed operations give *)
Independent == \A t \in Threads : Mine(t) = Alone(progs[t], pc[t] - 1)
(* time is neither lost nor invented *)
Spent(t) == Len(SelectSeq(sched, LAMBDA x : x = t))
Time == \A t \in Threads : Spent(t) = Slices * (pc[t] - 1) + slice[t] - 1
Meaning == Independent /\ Time
=============================================================================
