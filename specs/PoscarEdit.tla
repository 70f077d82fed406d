----------------------------- MODULE PoscarEdit ------------------------------
(* A structure under edits and what writing it gives. Values are identifiers: the number of the edit *)
(* that supplied them (initial: 1000; sites: 90000 + position). A site is [id, sp, cell]: cell is 0 if the site was *)
(* given in direct coordinates, else the lattice under which its Cartesian coordinates were given.    *)
(* A list may hold the same site twice: twin = <<i, j>>, its element j is element i once more.        *)
(* A site's vel and pred: 0 if it has none, 1 if it has its own, 2 if it is written with zeros because *)
(* some other site has its own.                                                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS MaxEdits, MaxSites, NSpecies, Conserve, Frames, Forms, Bads, Mixed

VARIABLES doc, st, trail, src, pos
vars == <<doc, st, trail, src, pos>>

First(tw, j) == IF tw # <<>> /\ tw[2] = j THEN tw[1] ELSE j
Own(b) == IF b THEN 1 ELSE 0
Sites(base, l, cell) == [j \in 1..Len(l.sp) |-> [id |-> base + First(l.twin, j), sp |-> l.sp[First(l.twin, j)], cell |-> IF l.cart THEN cell ELSE 0,
                                                 vel |-> Own(l.vel[First(l.twin, j)]), pred |-> Own(l.pred[First(l.twin, j)])]]
Start(i) == [comment |-> IF i.comment THEN 1000 ELSE 0, cell |-> 1000, sites |-> Sites(90000, i, 1000), conserve |-> i.conserve]

RemoveAt(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
Step(s, e, m) ==
  CASE e.k = "bad" -> s
    [] e.k = "comment" -> [s EXCEPT !.comment = m]
    [] e.k = "nocomment" -> [s EXCEPT !.comment = 0]
    [] e.k = "cell" -> [s EXCEPT !.cell = m]
    [] e.k = "site" -> [s EXCEPT !.sites = [@ EXCEPT ![e.i] = [id |-> 100 * m, sp |-> e.sp, cell |-> IF e.cart THEN s.cell ELSE 0,
                                                                   vel |-> Own(e.vel), pred |-> Own(e.pred)]]]
    [] e.k = "sites" -> [s EXCEPT !.sites = Sites(100 * m, e, s.cell)]
    [] e.k = "delete" -> [s EXCEPT !.sites = RemoveAt(@, e.i)]
    [] e.k = "write" -> s

(* ------------------------------------------------------------------ the written structure *)
(* as soon as one site has velocities (predictors), a line is written for every site *)
Filled(s) ==
  LET v == \E i \in 1..Len(s.sites) : s.sites[i].vel = 1
      p == \E i \in 1..Len(s.sites) : s.sites[i].pred = 1
  IN [s EXCEPT !.sites = [i \in 1..Len(@) |-> [@[i] EXCEPT !.vel = IF v /\ @ = 0 THEN 2 ELSE @, !.pred = IF p /\ @ = 0 THEN 2 ELSE @]]]
Species(s) == { s.sites[i].sp : i \in 1..Len(s.sites) }
(* without order conservation: one block per species, its sites in their order *)
Block(s, sp) == SelectSeq(s.sites, LAMBDA t : t.sp = sp)
Blocks(s) == { [sp |-> x, sites |-> Block(s, x)] : x \in Species(s) }
(* with order conservation: maximal runs *)
RECURSIVE Runs(_, _)
Runs(q, acc) ==
  IF q = <<>> THEN acc
  ELSE IF acc # <<>> /\ acc[Len(acc)].sp = q[1].sp
       THEN Runs(Tail(q), [acc EXCEPT ![Len(acc)] = [@ EXCEPT !.sites = Append(@, q[1])]])
       ELSE Runs(Tail(q), Append(acc, [sp |-> q[1].sp, sites |-> <<q[1]>>]))
Written(s) == IF s.conserve THEN Runs(s.sites, <<>>) ELSE <<>>
Out(s) == LET w == Filled(s)
          IN [comment |-> s.comment, cell |-> s.cell, sites |-> s.sites, ordered |-> s.conserve, runs |-> Written(w), blocks |-> Blocks(w)]

--------------------------------------------------------------------------------
Letters == {"a", "b", "c", "d"}
Sp == CASE NSpecies = 1 -> {"a"} [] NSpecies = 2 -> {"a", "b"} [] NSpecies = 3 -> {"a", "b", "c"}
SpLists == UNION { [1..n -> Sp] : n \in 1..MaxSites }
Twins(q) == IF MaxEdits = 0 THEN { <<>> } ELSE { <<>> } \cup { <<1, j>> : j \in { n \in {Len(q)} : n > 1 /\ q[1] = q[n] } }
Short == { <<"a">>, <<"b", "a">>, <<"a", "b", "a">> }
(* which sites have velocities (predictors): all, none, or (not in a file) only the first, only the last *)
Having(f, n) == { [j \in 1..n |-> TRUE], [j \in 1..n |-> FALSE] } \cup
                (IF f = "text" \/ ~Mixed THEN {} ELSE { [j \in 1..n |-> j = 1], [j \in 1..n |-> j = n] })
Inits == UNION { { [k |-> "init", form |-> f, sp |-> q, twin |-> tw, cart |-> c, vel |-> v, pred |-> w, comment |-> TRUE, conserve |-> o, wd |-> d]
           : tw \in Twins(q), c \in (IF Frames > 1 THEN BOOLEAN ELSE {FALSE}), v \in Having(f, Len(q)), w \in Having(f, Len(q)),
             o \in (IF Conserve THEN BOOLEAN ELSE {FALSE}), d \in BOOLEAN } : q \in SpLists, f \in Forms }
Has(s) == s.sites[1].vel = 1
Edits(s) ==
  { [k |-> "comment"], [k |-> "nocomment"], [k |-> "cell"], [k |-> "write"] } \cup { [k |-> "bad", what |-> b] : b \in Bads }
  \cup { [k |-> "site", i |-> i, sp |-> x, cart |-> c, vel |-> v, pred |-> w]
           : i \in 1..Len(s.sites), x \in {"a", "c"}, c \in BOOLEAN, v \in (IF Mixed THEN BOOLEAN ELSE {Has(s)}), w \in (IF Mixed THEN BOOLEAN ELSE {Has(s)}) }
  \cup { [k |-> "sites", sp |-> q, twin |-> <<>>, cart |-> c, vel |-> [j \in 1..Len(q) |-> ~Has(s)], pred |-> [j \in 1..Len(q) |-> Has(s)]] : q \in Short, c \in BOOLEAN }
  \cup { [k |-> "sites", sp |-> <<"a", "b", "a">>, twin |-> <<1, 3>>, cart |-> FALSE, vel |-> [j \in 1..3 |-> (~Mixed) \/ j = 2], pred |-> [j \in 1..3 |-> Has(s)]] }
  \cup (IF Len(s.sites) > 1 THEN { [k |-> "delete", i |-> i] : i \in 1..Len(s.sites) } ELSE {})

InitMC == /\ src = 0 /\ pos = 0 /\ trail = <<>>
          /\ \E i \in Inits : doc = <<i>> /\ st = Start(i)
NextMC == /\ Len(doc) <= MaxEdits
          /\ \E e \in Edits(st) : doc' = Append(doc, e) /\ st' = Step(st, e, Len(doc) + 1)
          /\ UNCHANGED <<src, pos, trail>>
SpecMC == InitMC /\ [][NextMC]_vars

Docs == ndJsonDeserialize(IOEnv.DOCS)
InitDocs == /\ src \in 1..Len(Docs) /\ pos = 1 /\ doc = <<>> /\ st = Start(Docs[src][1]) /\ trail = <<Out(st)>>
NextDocs == /\ pos < Len(Docs[src])
            /\ st' = Step(st, Docs[src][pos + 1], pos + 1)
            /\ trail' = Append(trail, Out(st'))
            /\ pos' = pos + 1
            /\ UNCHANGED <<doc, src>>
SpecDocs == InitDocs /\ [][NextDocs]_vars

Emit == IF src = 0
        THEN CSVWrite("%1$s", <<ToJson([src |-> 0, doc |-> doc, exp |-> <<Out(st)>>])>>, IOEnv.OUT)
        ELSE pos = Len(Docs[src]) =>
             ndJsonSerialize(IOEnv.OUT \o "." \o ToString(src), <<[src |-> src, exp |-> trail]>>)

(* Meaning: writing loses and invents no site, keeps each with its species, and deletions account for *)
(* every lost site.                                                                                   *)
Hist == IF src = 0 THEN doc ELSE SubSeq(Docs[src], 1, pos)
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Base == Max({ i \in 1..Len(Hist) : Hist[i].k \in {"init", "sites"} })
RECURSIVE Concat(_)
Concat(r) == IF r = <<>> THEN <<>> ELSE r[1].sites \o Concat(Tail(r))
Meaning ==
  /\ Len(st.sites) = Len(Hist[Base].sp) - Cardinality({ i \in (Base + 1)..Len(Hist) : Hist[i].k = "delete" })
  /\ \A i, j \in 1..Len(st.sites) : i # j /\ st.sites[i].id = st.sites[j].id
                                     => Hist[Base].twin # <<>> /\ st.sites[i].id % 100 = Hist[Base].twin[1] /\ st.sites[i] = st.sites[j]
  /\ UNION { { b.sites[i].id : i \in 1..Len(b.sites) } : b \in Blocks(st) } = { st.sites[i].id : i \in 1..Len(st.sites) }
  /\ \A b \in Blocks(st) : \A i \in 1..Len(b.sites) : b.sites[i].sp = b.sp
  /\ LET w == Filled(st)
     IN \A i \in 1..Len(w.sites) : /\ (w.sites[i].vel = 0) = (\A j \in 1..Len(st.sites) : st.sites[j].vel = 0)
                                  /\ (w.sites[i].pred = 0) = (\A j \in 1..Len(st.sites) : st.sites[j].pred = 0)
                                  /\ (w.sites[i].vel = 1) = (st.sites[i].vel = 1) /\ (w.sites[i].pred = 1) = (st.sites[i].pred = 1)
  /\ st.conserve => /\ Concat(Written(st)) = st.sites
                    /\ \A i \in 1..(Len(Written(st)) - 1) : Written(st)[i].sp # Written(st)[i + 1].sp
================================================================================
