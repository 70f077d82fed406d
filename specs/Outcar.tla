------------------------------- MODULE Outcar -------------------------------
(* The OUTCAR reader as a state machine over the file's lines.                                    *)
(* A document is a sequence of events, each one line or one printed block; Step consumes one      *)
(* event, Finish classifies the run. Two ways to run it:                                          *)
(*   SpecMC    TLC builds every document over a small alphabet (Area selects which) and emits     *)
(*             each with the outcome Finish predicts, for replay into the real reader;            *)
(*   SpecDocs  the documents are given (large, generated), TLC steps through them.                *)
(* Values are identifiers (integers); the replay driver stands a distinct number for each.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS Area,       \* "status" | "mag" | "sym" | "stats": the alphabet of SpecMC
          MaxLen,     \* longest document built by SpecMC
          Nelms, Nsws, IbrionCodes, MaxIonic   \* "status" area; code 0: IBRION absent, c: IBRION = c-2

VARIABLES doc,   \* events so far
          st,    \* reader state
          src,   \* 0, or the index of the given document
          pos    \* events consumed
vars == <<doc, st, src, pos>>

NONE == -100000   \* an integer that was never read

--------------------------------------------------------------------------------
(* Reader *)

St0 == [nsw |-> NONE, nelm |-> NONE, nbands |-> NONE, ibrion |-> -1,
        it |-> <<>>,                 \* last <<ionic, electronic>>
        cnt |-> <<>>,                \* ionic index -> number of electronic iterations
        finished |-> FALSE,
        config |-> "",               \* symmetry section announced last
        ngrp |-> [static |-> <<>>, dynamic |-> <<>>],
        orig |-> [static |-> <<>>, dynamic |-> <<>>],
        symm |-> [static |-> <<>>, dynamic |-> <<>>],
        elastic |-> <<>>,            \* name -> 36 identifiers, row by row
        site |-> [x |-> <<>>, y |-> <<>>, z |-> <<>>],   \* direction -> site -> orbital values
        tot |-> [x |-> <<>>, y |-> <<>>, z |-> <<>>],    \* direction -> <<>> or <<orbital values>>
        cell |-> <<>>, cellSeen |-> FALSE,
        stats |-> <<>>]              \* name -> identifier or NONE

Put(f, k, v) == (k :> v) @@ f     \* (left operand wins)

Rec(s, field, v) == IF s.config = "" THEN s
                    ELSE [s EXCEPT ![field] = [@ EXCEPT ![s.config] = Append(@, v)]]

RECURSIVE Join(_)
Join(w) == IF Len(w) = 1 THEN w[1] ELSE w[1] \o "_" \o Join(Tail(w))

Step(s, e) ==
  CASE e.k = "param"   -> [s EXCEPT ![ [NSW |-> "nsw", NELM |-> "nelm", IBRION |-> "ibrion", NBANDS |-> "nbands"][e.key] ] = e.v]
    [] e.k = "iter"    -> [s EXCEPT !.it = <<e.i, e.e>>,
                                    !.cnt = Put(@, e.i, IF e.i \in DOMAIN @ THEN @[e.i] + 1 ELSE 1)]
    [] e.k = "timing"  -> [s EXCEPT !.finished = TRUE]
    [] e.k = "analysis" -> IF e.t = "static" THEN [s EXCEPT !.config = "static"]
                           ELSE IF e.t = "dynamic" THEN [s EXCEPT !.config = "dynamic"]
                           ELSE s                                  \* other analyses keep the section
    [] e.k = "pricel"  -> Rec(s, "orig", 0)                        \* already primitive
    [] e.k = "super"   -> Rec(s, "orig", e.n)                      \* e.n primitive cells
    [] e.k = "setgrp"  -> Rec(s, "symm", e.t)
    [] e.k = "getgrp"  -> Rec(s, "ngrp", e.n)
    [] e.k = "elastic" -> [s EXCEPT !.elastic = Put(@, e.which, e.t)]
    [] e.k = "mag"     -> [s EXCEPT !.site = [@ EXCEPT ![e.d] = e.sites],
                                    !.tot = [@ EXCEPT ![e.d] = <<IF e.total = <<>> THEN e.sites[1] ELSE e.total>>]]
    [] e.k = "nelect"  -> [s EXCEPT !.cell = e.v, !.cellSeen = TRUE]
    [] e.k = "stat"    -> [s EXCEPT !.stats = Put(@, e.pre \o Join(e.words), e.v)]
    [] e.k \in {"noise", "early"} -> s    \* figures printed before the end of the file are no statistics

RECURSIVE Run(_, _, _)
Run(s, d, i) == IF i > Len(d) THEN s ELSE Run(Step(s, d[i]), d, i + 1)

(* Classification at the end of the file, as the reader does it: from the counters. *)
Ionics(s) == DOMAIN s.cnt
Completed(s) == IF s.finished THEN Ionics(s) ELSE Ionics(s) \ {s.it[1]}
Reached(s, i) == s.cnt[i] >= s.nelm
IonicConv(s) == IF ~s.finished THEN "false"
                ELSE IF s.ibrion <= 0 THEN "none"
                ELSE IF s.it[1] < s.nsw THEN "true"
                ELSE IF s.nsw <= 1 THEN "none"
                ELSE "false"
ElecConv(s) == s.finished /\ s.it[2] < s.nelm
ContainsBreach(s) == \E i \in Ionics(s) : Reached(s, i)
Consistent(s) == Completed(s) # {} /\ \A i \in Completed(s) : Reached(s, i)

Proj(s) == IF s.it = <<>> THEN [refused |-> TRUE]
           ELSE [refused |-> FALSE,
                 nsw |-> s.nsw, nelm |-> s.nelm, nbands |-> s.nbands, last |-> s.it, finished |-> s.finished,
                 ionic |-> IonicConv(s), elec |-> ElecConv(s), contains |-> ContainsBreach(s), consistent |-> Consistent(s),
                 ngrp |-> s.ngrp, orig |-> s.orig, symm |-> s.symm,
                 elastic |-> s.elastic, site |-> s.site, tot |-> s.tot, cell |-> s.cell, cellSeen |-> s.cellSeen,
                 stats |-> s.stats]

--------------------------------------------------------------------------------
(* Documents built by TLC *)

Id(n, j) == 1000 * n + j
N == Len(doc) + 1

StatusStart == { << [k |-> "param", key |-> "NELM", v |-> n], [k |-> "param", key |-> "NSW", v |-> w] >>
                  \o (IF b = 0 THEN <<>> ELSE << [k |-> "param", key |-> "IBRION", v |-> b - 2] >>)
                 : n \in Nelms, w \in Nsws, b \in IbrionCodes }
NelmOf == LET p == SelectSeq(doc, LAMBDA e : e.k = "param" /\ e.key = "NELM") IN p[Len(p)].v
StatusNext ==
  IF st.finished THEN {}
  ELSE IF st.it = <<>> THEN { [k |-> "iter", i |-> 1, e |-> 1] }
  ELSE (IF st.it[2] < NelmOf THEN { [k |-> "iter", i |-> st.it[1], e |-> st.it[2] + 1] } ELSE {})
       \cup (IF st.it[1] < MaxIonic THEN { [k |-> "iter", i |-> st.it[1] + 1, e |-> 1] } ELSE {})
       \cup { [k |-> "timing"] }

(* magnetisation/elastic documents: site number and orbitals fixed per document by the first event *)
Shape == doc[1]     \* [k |-> "noise", sites, orbs]
MagStart == { << [k |-> "noise", sites |-> s, orbs |-> o], [k |-> "param", key |-> "NELM", v |-> 60],
                 [k |-> "param", key |-> "NSW", v |-> 5], [k |-> "iter", i |-> 1, e |-> 1] >> : s \in {1, 2, 3}, o \in {3, 4} }
Row(s) == [j \in 1..(Shape.orbs + 1) |-> Id(N, 10 * s + j)]
MagNext ==
  { [k |-> "mag", d |-> d, sites |-> [s \in 1..Shape.sites |-> Row(s)],
     total |-> IF Shape.sites = 1 THEN <<>> ELSE Row(0)] : d \in {"x", "y", "z"} }
  \cup { [k |-> "nelect", v |-> [j \in 1..n |-> Id(N, j)]] : n \in {0, 1, 3} }
  \cup { [k |-> "elastic", which |-> w, t |-> [j \in 1..36 |-> Id(N, j)]] : w \in {"non_symmetrized", "symmetrized", "total", "ionic"} }

SymStart == { << [k |-> "param", key |-> "NELM", v |-> 60], [k |-> "param", key |-> "NSW", v |-> 5] >> }
SymNext ==
  { [k |-> "analysis", t |-> t] : t \in {"static", "dynamic", "magnetic"} }
  \cup { [k |-> "pricel"], [k |-> "super", n |-> 2 + N], [k |-> "setgrp", t |-> 1 + (N % 5)], [k |-> "getgrp", n |-> 7 + N],
         [k |-> "noise"], [k |-> "iter", i |-> 1, e |-> N] }

StatWords == { <<"total", "cpu", "time", "used">>, <<"elapsed", "time">>, <<"user", "time">> }
MemWords == { <<"maximum", "memory", "used">> }
KbWords == { <<"base">>, <<"nonl-proj">>, <<"one-center">> }
StatStart == { << [k |-> "param", key |-> "NELM", v |-> 60], [k |-> "param", key |-> "NSW", v |-> 5] >> \o x
                  \o << [k |-> "iter", i |-> 1, e |-> 1], [k |-> "timing"] >> : x \in { <<>>, << [k |-> "early"] >> } }
StatNext ==
  { [k |-> "stat", form |-> "sec", pre |-> "", words |-> w, v |-> v] : w \in StatWords, v \in {Id(N, 1), NONE} }
  \cup { [k |-> "stat", form |-> "kb", pre |-> "", words |-> w, v |-> v] : w \in MemWords, v \in {Id(N, 1), NONE} }
  \cup { [k |-> "stat", form |-> "kBytes", pre |-> "mem_usage_", words |-> w, v |-> v] : w \in KbWords, v \in {Id(N, 1), NONE} }
  \cup { [k |-> "noise"] }

Starts == CASE Area = "status" -> StatusStart [] Area = "mag" -> MagStart
            [] Area = "sym" -> SymStart [] Area = "stats" -> StatStart [] OTHER -> {}
NextEvents == CASE Area = "status" -> StatusNext [] Area = "mag" -> MagNext
             [] Area = "sym" -> SymNext [] Area = "stats" -> StatNext [] OTHER -> {}
(* the symmetry area needs an iteration to be readable: it is added at the end of every document *)
Closing == IF Area = "sym" THEN << [k |-> "iter", i |-> 1, e |-> 1] >> ELSE <<>>

InitMC == /\ src = 0 /\ pos = 0
          /\ doc \in Starts
          /\ st = Run(St0, doc, 1)
NextMC == /\ Len(doc) < MaxLen
          /\ \E e \in NextEvents : doc' = Append(doc, e) /\ st' = Step(st, e)
          /\ UNCHANGED <<src, pos>>
SpecMC == InitMC /\ [][NextMC]_vars

--------------------------------------------------------------------------------
(* Documents given *)

Docs == ndJsonDeserialize(IOEnv.DOCS)
InitDocs == /\ src \in 1..Len(Docs) /\ pos = 0 /\ doc = <<>> /\ st = St0
NextDocs == /\ pos < Len(Docs[src])
            /\ st' = Step(st, Docs[src][pos + 1])
            /\ pos' = pos + 1
            /\ UNCHANGED <<doc, src>>
SpecDocs == InitDocs /\ [][NextDocs]_vars

Emit == IF src = 0
        THEN CSVWrite("%1$s", <<ToJson([src |-> 0, doc |-> doc \o Closing, exp |-> Proj(Run(st, Closing, 1))])>>, IOEnv.OUT)
        ELSE pos = Len(Docs[src]) =>
             ndJsonSerialize(IOEnv.OUT \o "." \o ToString(src), <<[src |-> src, exp |-> Proj(st)]>>)

--------------------------------------------------------------------------------
(* What the outcome must mean, stated over the document rather than the reader's counters *)

Hist == IF src = 0 THEN doc ELSE SubSeq(Docs[src], 1, pos)
Of(kind) == SelectSeq(Hist, LAMBDA e : e.k = kind)
IterOf(i) == SelectSeq(Of("iter"), LAMBDA e : e.i = i)
IonicSet == { Of("iter")[j].i : j \in 1..Len(Of("iter")) }
LastIter == Of("iter")[Len(Of("iter"))]

StatusMeaning ==
  (st.it # <<>> /\ st.nelm # NONE /\ st.nsw # NONE) =>
    LET fin == Of("timing") # <<>>
        done == IF fin THEN IonicSet ELSE { i \in IonicSet : i # LastIter.i }
        full(i) == Len(IterOf(i)) >= st.nelm
        relax == st.ibrion > 0
    IN /\ st.finished = fin
       /\ st.it = <<LastIter.i, LastIter.e>>
       /\ (IonicConv(st) = "true") = (fin /\ relax /\ LastIter.i < st.nsw)
       /\ (IonicConv(st) = "none") = (fin /\ (~relax \/ (st.nsw <= 1 /\ LastIter.i >= st.nsw)))
       /\ ElecConv(st) = (fin /\ LastIter.e < st.nelm)
       /\ ContainsBreach(st) = \E i \in IonicSet : full(i)
       /\ Consistent(st) = (done # {} /\ \A i \in done : full(i))
       /\ (fin /\ Consistent(st)) => ContainsBreach(st)
       /\ ElecConv(st) => st.finished

SymMeaning ==
  LET first == { j \in 1..Len(Hist) : Hist[j].k = "analysis" /\ Hist[j].t \in {"static", "dynamic"} }
      owner(j) == IF \E m \in first : m < j
                  THEN Hist[CHOOSE m \in first : m < j /\ \A o \in first : o < j => o <= m].t ELSE ""
      kept(kind, c) == Cardinality({ j \in 1..Len(Hist) : Hist[j].k \in kind /\ owner(j) = c })
  IN \A c \in {"static", "dynamic"} :
       /\ Len(st.ngrp[c]) = kept({"getgrp"}, c)
       /\ Len(st.symm[c]) = kept({"setgrp"}, c)
       /\ Len(st.orig[c]) = kept({"pricel", "super"}, c)

MagMeaning ==
  \A d \in {"x", "y", "z"} :
    LET b == SelectSeq(Hist, LAMBDA e : e.k = "mag" /\ e.d = d)
    IN IF b = <<>> THEN st.site[d] = <<>> /\ st.tot[d] = <<>>
       ELSE /\ st.site[d] = b[Len(b)].sites
            /\ st.tot[d] # <<>>

Meaning == (src = 0 \/ pos = Len(Docs[src])) =>
             /\ StatusMeaning
             /\ (Area \in {"sym", "docs"} => SymMeaning)
             /\ (Area \in {"mag", "docs"} => MagMeaning)
================================================================================
