-------------------------------- MODULE Doscar -------------------------------
(* Reading a DOSCAR. Lines: head (one of the first five lines), dims (emin/emax, number of energies,  *)
(* Fermi level, weight), row (numbers), blank. The number in column c of line n is the identifier     *)
(* 1000 * n + c, so every cell of the file is distinct.                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS MaxAtoms, MaxEnergies, TotalCols, ProjCols, Slack

VARIABLES doc, st, src, pos
vars == <<doc, st, src, pos>>

(* doc[1] describes the request: [k |-> "open", nc |-> BOOLEAN]; the file starts at doc[2] (line 1) *)
S == <<"s">>   P == <<"py", "px", "pz">>   D == <<"dxy", "dyz", "dz2", "dxz", "dx2-y2">>
F == <<"fy(3x2-y2)", "fxyz", "fyz2", "fz3", "fxz2", "fz(x2-y2)", "fx(x2-3y2)">>
Orbitals == { <<"s", "p", "d">>, <<"s", "p", "d", "f">>, S \o P \o D, S \o P \o D \o F }
(* the layout with this many columns: non-collinear has four components each, otherwise one or two *)
Layouts(nc) == { [orb |-> o, comp |-> c] : o \in Orbitals, c \in (IF nc THEN {4} ELSE {1, 2}) }
Fits(nc, n) == { y \in Layouts(nc) : n = 1 + y.comp * Len(y.orb) }

St0 == [sec |-> "head", nc |-> FALSE, line |-> 0, na |-> 0, nd |-> 0,
        tot |-> <<>>, tcols |-> 0,          \* rows of the total density of states: line number of each
        ion |-> 0, proj |-> <<>>, pcols |-> 0, bad |-> FALSE]

Refuse(s) == [s EXCEPT !.bad = TRUE, !.sec = "rest"]
Step(s, l) ==
  LET t == [s EXCEPT !.line = @ + 1] IN
  CASE l.k = "open" -> [s EXCEPT !.nc = l.nc]
    [] s.sec = "rest" -> t
    [] s.sec = "head" -> IF l.k # "head" THEN Refuse(t)
                         ELSE [t EXCEPT !.na = IF t.line = 1 THEN l.na ELSE @, !.sec = IF t.line = 5 THEN "dims" ELSE "head"]
    [] s.sec = "dims" -> IF l.k # "dims" THEN Refuse(t) ELSE [t EXCEPT !.nd = l.nd, !.sec = "total"]
    [] s.sec = "total" -> IF l.k # "row" \/ (s.tot # <<>> /\ l.n # s.tcols) \/ l.n \notin {3, 5} THEN Refuse(t)
                          ELSE [t EXCEPT !.tot = Append(@, t.line), !.tcols = l.n, !.sec = IF Len(s.tot) + 1 = s.nd THEN "pdims" ELSE "total"]
    [] s.sec = "pdims" -> IF l.k = "dims" THEN [t EXCEPT !.ion = @ + 1, !.proj = Append(@, <<>>), !.sec = "proj"]
                          ELSE IF l.k = "blank" THEN [t EXCEPT !.sec = "rest"] ELSE Refuse(t)
    [] s.sec = "proj" -> IF l.k # "row" \/ (s.pcols # 0 /\ l.n # s.pcols) \/ Fits(s.nc, l.n) = {} THEN Refuse(t)
                         ELSE LET q == [t EXCEPT !.proj = [@ EXCEPT ![s.ion] = Append(@, t.line)], !.pcols = l.n] IN
                              [q EXCEPT !.sec = IF Len(s.proj[s.ion]) + 1 < s.nd THEN "proj" ELSE IF s.ion = s.na THEN "rest" ELSE "pdims"]

Cell(n, c) == 1000 * n + c
Col(name, comps, first) == [name |-> name, col |-> first, comp |-> comps]
TotalLayout(s) == IF s.tcols = 5 THEN << Col("energy", 1, 1), Col("total", 2, 2), Col("integrated", 2, 4) >>
                  ELSE << Col("energy", 1, 1), Col("total", 1, 2), Col("integrated", 1, 3) >>
Layout(s) == CHOOSE y \in Fits(s.nc, s.pcols) : TRUE
ProjLayout(s) == LET y == Layout(s) IN
                 << Col("energy", 1, 1) >> \o [o \in 1..Len(y.orb) |-> Col(y.orb[o], y.comp, 2 + (o - 1) * y.comp)]
Field(c, n) == [j \in 1..c.comp |-> Cell(n, c.col + j - 1)]
Table(layout, rows) == [f \in 1..Len(layout) |-> [name |-> layout[f].name, v |-> [i \in 1..Len(rows) |-> Field(layout[f], rows[i])]]]

(* a file may stop right behind the total density of states (no projections) *)
Whole(s) == ~s.bad /\ (s.sec = "rest" \/ (s.sec = "pdims" /\ s.ion = 0))
Proj(s) == IF ~Whole(s) THEN [refused |-> TRUE]
           ELSE [refused |-> FALSE, na |-> s.na, nd |-> s.nd, total |-> Table(TotalLayout(s), s.tot),
                 hasProj |-> s.ion > 0, atoms |-> IF s.ion = 0 THEN <<>> ELSE [a \in 1..Len(s.proj) |-> Table(ProjLayout(s), s.proj[a])]]

--------------------------------------------------------------------------------
Row(n) == [k |-> "row", n |-> n]
Blank == [k |-> "blank"]
Dims == [k |-> "dims", nd |-> st.nd]
NextLines ==
  CASE doc = <<>> -> { [k |-> "open", nc |-> b] : b \in BOOLEAN }
    [] OTHER ->
  CASE st.sec = "head" -> { [k |-> "head", na |-> a] : a \in (IF st.line = 0 THEN 1..MaxAtoms ELSE {0}) }
    [] st.sec = "dims" -> { [k |-> "dims", nd |-> n] : n \in 1..MaxEnergies }
    [] st.sec = "total" -> IF st.tot # <<>> THEN { Row(st.tcols) } ELSE { Row(n) : n \in TotalCols }
    [] st.sec = "pdims" -> IF st.ion = 0 THEN { Dims, Blank } ELSE { Dims }
    [] st.sec = "proj" -> IF st.pcols # 0 THEN { Row(st.pcols) } ELSE { Row(n) : n \in ProjCols }
    [] st.sec = "rest" -> IF st.bad THEN {} ELSE { Blank }

InitMC == src = 0 /\ pos = 0 /\ doc = <<>> /\ st = St0
NextMC == /\ Len(doc) < 8 + MaxEnergies + MaxAtoms * (MaxEnergies + 1) + Slack
          /\ ~(Slack = 0 /\ st.sec = "rest")
          /\ \E l \in NextLines : doc' = Append(doc, l) /\ st' = Step(st, l)
          /\ UNCHANGED <<src, pos>>
SpecMC == InitMC /\ [][NextMC]_vars

Docs == ndJsonDeserialize(IOEnv.DOCS)
InitDocs == src \in 1..Len(Docs) /\ pos = 0 /\ doc = <<>> /\ st = St0
NextDocs == /\ pos < Len(Docs[src])
            /\ st' = Step(st, Docs[src][pos + 1])
            /\ pos' = pos + 1
            /\ UNCHANGED <<doc, src>>
SpecDocs == InitDocs /\ [][NextDocs]_vars

Emit == IF src = 0
        THEN Len(doc) < 8 \/ CSVWrite("%1$s", <<ToJson([src |-> 0, doc |-> doc, exp |-> Proj(st)])>>, IOEnv.OUT)
        ELSE pos = Len(Docs[src]) =>
             ndJsonSerialize(IOEnv.OUT \o "." \o ToString(src), <<[src |-> src, exp |-> Proj(st)]>>)

(* Meaning: every cell of every row is reported exactly once, and where: line arithmetic.            *)
Hist == IF src = 0 THEN doc ELSE SubSeq(Docs[src], 1, pos)
CellsOf(tab) == UNION { UNION { { tab[f].v[i][j] : j \in 1..Len(tab[f].v[i]) } : i \in 1..Len(tab[f].v) } : f \in 1..Len(tab) }
Meaning ==
  (src = 0 \/ pos = Len(Docs[src])) =>
  LET p == Proj(st) IN
  ~p.refused =>
    /\ CellsOf(p.total) = { Cell(6 + i, c) : i \in 1..p.nd, c \in 1..Hist[8].n }
    /\ \A i \in 1..p.nd : p.total[1].v[i] = << Cell(6 + i, 1) >>
    /\ \A i \in 1..p.nd, up \in {1} : p.total[2].v[i][up] = Cell(6 + i, 2)
    /\ p.total[3].v[p.nd][Len(p.total[3].v[p.nd])] = Cell(6 + p.nd, Hist[8].n)
    /\ p.hasProj = (Len(Hist) > 7 + p.nd /\ Hist[8 + p.nd].k = "dims")
    /\ p.hasProj =>
         /\ Len(p.atoms) = p.na
         /\ \A a \in 1..p.na : LET first == 6 + p.nd + (a - 1) * (p.nd + 1) + 1 IN
              /\ CellsOf(p.atoms[a]) = { Cell(first + i, c) : i \in 1..p.nd, c \in 1..st.pcols }
              /\ \A f \in 2..Len(p.atoms[a]), i \in 1..p.nd :
                   /\ Len(p.atoms[a][f].v[i]) = IF st.nc THEN 4 ELSE Len(p.atoms[a][2].v[1])
                   /\ p.atoms[a][f].v[i][1] = p.atoms[a][f - 1].v[i][Len(p.atoms[a][f - 1].v[i])] + 1
================================================================================
