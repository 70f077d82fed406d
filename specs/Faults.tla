-------------------------------- MODULE Faults --------------------------------
(* Reading and writing by devices that fail part-way. A content is a sequence of blocks; a device     *)
(* delivers, or takes, one block after the other, and may fail at any of them; looking at an object   *)
(* and making one can be interrupted at any stage. An object comes into being when all of its content *)
(* has been read and never before. State: what each of two objects holds, the file p and the handle   *)
(* written to, the handle read last, the files the parser has open, and the operation that runs.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS MaxOps, Blocks, MCClasses

VARIABLES doc, cls, objs, disk, tgt, last, opened, op, buf, trail, src, pos
vars == <<doc, cls, objs, disk, tgt, last, opened, op, buf, trail, src, pos>>

None == "none"
Idle == [k |-> "idle"]
Whole(c) == [i \in 1..Blocks |-> <<c, i>>]
Prefix(s, t) == Len(s) <= Len(t) /\ \A i \in 1..Len(s) : s[i] = t[i]

(* ------------------------------------------------------------------------------------ operations *)
(* fail: the block the device fails at, 0 if it does not. way: the kind of source or target.         *)
Make(o, way, c, fail) == [k |-> "make", o |-> o, way |-> way, c |-> c, fail |-> fail]
Again(o) == [k |-> "again", o |-> o, way |-> "handle", c |-> "-", fail |-> 0]
Write(o, way, fail) == [k |-> "write", o |-> o, way |-> way, c |-> "-", fail |-> fail]
Look(o, fail) == [k |-> "look", o |-> o, way |-> "-", c |-> "-", fail |-> fail]
Fails == 0..Blocks
Ops == { Make(o, w, c, f) : o \in 1..2, w \in {"path", "handle", "stop"}, c \in {"a", "b"}, f \in Fails }
       \cup { Again(o) : o \in 1..2 }
       \cup { Write(o, w, f) : o \in 1..2, w \in {"path", "handle"}, f \in Fails } \cup { Write(o, "full", 1) : o \in 1..2 }
       \cup { Look(o, f) : o \in 1..2, f \in Fails }

Enabled(e) == /\ e.k = "again" => last # None
              /\ e.k \in {"write", "look"} => objs[e.o] # None
              /\ e.k = "write" => cls = "writer"
              /\ e.way = "stop" => e.fail > 0

(* the content that an operation delivers, block by block *)
Content(e) == CASE e.k = "make" -> e.c [] e.k = "again" -> last [] OTHER -> objs[e.o]
UsesPath(e) == e.way \in {"path", "full"}

Begin(e) == /\ op = Idle /\ Enabled(e)
            /\ op' = e /\ buf' = <<>> /\ doc' = Append(doc, e)
            /\ opened' = IF UsesPath(e) THEN opened + 1 ELSE opened
            /\ disk' = IF e.k = "write" /\ e.way = "path" THEN <<>> ELSE disk
            /\ last' = IF e.k = "make" /\ e.way = "handle" THEN e.c ELSE last
            /\ UNCHANGED <<objs, tgt, trail>>

Deliver == /\ op # Idle /\ Len(buf) < Blocks /\ Len(buf) + 1 # op.fail
           /\ LET b == <<Content(op), Len(buf) + 1>> IN
              /\ buf' = Append(buf, b)
              /\ disk' = IF op.k = "write" /\ op.way = "path" THEN Append(disk, b) ELSE disk
              /\ tgt' = IF op.k = "write" /\ op.way = "handle" THEN Append(tgt, b) ELSE tgt
           /\ UNCHANGED <<doc, objs, last, opened, op, trail>>

Over(out, obs) == /\ op' = Idle /\ buf' = <<>> /\ objs' = obs
                  /\ opened' = IF UsesPath(op) THEN opened - 1 ELSE opened
                  /\ trail' = Append(trail, [out |-> out, objs |-> obs, disk |-> disk, tgt |-> tgt])
                  /\ UNCHANGED <<doc, disk, tgt, last>>

(* the failure reaches the caller *)
Fault == op # Idle /\ Len(buf) + 1 = op.fail /\ Over("raised", objs)
End == /\ op # Idle /\ Len(buf) = Blocks
       /\ Over("ok", IF op.k \in {"make", "again"} THEN [objs EXCEPT ![op.o] = buf[1][1]] ELSE objs)

Start == /\ doc = <<>> /\ objs = <<None, None>> /\ disk = Whole("0") /\ tgt = <<>> /\ last = None /\ opened = 0
         /\ op = Idle /\ buf = <<>> /\ trail = <<>>

InitMC == Start /\ src = 0 /\ pos = 0 /\ cls \in MCClasses
NextMC == /\ \/ Deliver \/ Fault \/ End
             \/ /\ Len(doc) < MaxOps
                /\ \E e \in Ops : (doc = <<>> => e.k = "make" /\ e.o = 1 /\ e.c = "a") /\ Begin(e)
          /\ UNCHANGED <<cls, src, pos>>
SpecMC == InitMC /\ [][NextMC]_vars

(* generated histories: operations that are not enabled are skipped *)
Docs == ndJsonDeserialize(IOEnv.DOCS)
InitDocs == Start /\ src \in 1..Len(Docs) /\ pos = 0 /\ cls = Docs[src].cls
NextDocs == \/ (Deliver \/ Fault \/ End) /\ UNCHANGED <<cls, src, pos>>
            \/ /\ op = Idle /\ pos < Len(Docs[src].ops)
               /\ LET e == Docs[src].ops[pos + 1] IN
                  IF Enabled(e) THEN Begin(e) ELSE UNCHANGED <<doc, objs, disk, tgt, last, opened, op, buf, trail>>
               /\ pos' = pos + 1 /\ UNCHANGED <<cls, src>>
SpecDocs == InitDocs /\ [][NextDocs]_vars

Emit == (op = Idle /\ doc # <<>>) =>
        IF src = 0
        THEN Len(doc) = MaxOps => CSVWrite("%1$s", <<ToJson([src |-> 0, cls |-> cls, doc |-> doc, exp |-> trail])>>, IOEnv.OUT)
        ELSE pos = Len(Docs[src].ops) =>
             ndJsonSerialize(IOEnv.OUT \o "." \o ToString(src), <<[src |-> src, cls |-> cls, doc |-> doc, exp |-> trail]>>)

(* ------------------------------------------------------------------------------------ meaning *)
Idx == 1..Len(trail)
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
(* nothing stays open *)
Closed == (op = Idle => opened = 0) /\ opened \in 0..1
(* an object holds the whole content of the last source that could be read to its end *)
Held == \A o \in 1..2 :
  LET M == { i \in Idx : doc[i].k \in {"make", "again"} /\ doc[i].o = o /\ doc[i].fail = 0 } IN
  IF M = {} THEN objs[o] = None
  ELSE LET m == Max(M)
           H == { i \in 1..m : doc[i].k = "make" /\ doc[i].way = "handle" }
       IN objs[o] = IF doc[m].k = "make" THEN doc[m].c ELSE doc[Max(H)].c
(* a failure always reaches the caller, and nothing else does *)
Told == \A i \in Idx : (trail[i].out = "raised") = (doc[i].fail > 0)
(* writing and looking leave the objects as they are, reading leaves the targets as they are *)
Apart == \A i \in Idx : LET b == IF i = 1 THEN [objs |-> <<None, None>>, disk |-> Whole("0"), tgt |-> <<>>] ELSE trail[i - 1] IN
  /\ doc[i].k \in {"write", "look"} \/ trail[i].out = "raised" => trail[i].objs = b.objs
  /\ doc[i].k # "write" \/ doc[i].way # "path" => trail[i].disk = b.disk
  /\ doc[i].k # "write" \/ doc[i].way # "handle" => trail[i].tgt = b.tgt
(* a target has the beginning of what was written, and all of it if nothing failed *)
Targets == \A i \in Idx : doc[i].k = "write" =>
  LET c == trail[i].objs[doc[i].o]
      was == IF i = 1 THEN <<>> ELSE trail[i - 1].tgt
      n == IF doc[i].fail = 0 THEN Blocks ELSE doc[i].fail - 1
  IN /\ doc[i].way = "path" => trail[i].disk = SubSeq(Whole(c), 1, n)
     /\ doc[i].way = "handle" => trail[i].tgt = was \o SubSeq(Whole(c), 1, n)
Running == op # Idle => Prefix(buf, Whole(Content(op))) /\ (op.fail > 0 => Len(buf) < op.fail)
Meaning == Closed /\ Held /\ Told /\ Apart /\ Targets /\ Running
================================================================================
