------------------------------- MODULE Eigenval -------------------------------
(* Reading an EIGENVAL. Lines: ints (ions, spins), five, one, word, name (the header), dims (numbers  *)
(* of k-points and bands), blank, kpt (coordinates and weight of a k-point), band (its index and n    *)
(* further columns: energies of the spins, perhaps occupations), stars (a band whose number did not   *)
(* fit). Column c of line l is the identifier 1000 * l + c.                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS MaxSpins, MaxKpts, MaxBands, Slack, Extras

VARIABLES doc, st, src, pos
vars == <<doc, st, src, pos>>

St0 == [sec |-> "head", line |-> 0, na |-> 0, ns |-> 0, nk |-> 0, nb |-> 0,
        sep |-> FALSE,                     \* a blank line was seen since the last block
        kp |-> <<>>,                       \* line of each k-point
        ev |-> <<>>,                       \* for each k-point the function band -> line, as a sequence of <<band, line>>
        bad |-> FALSE]

Header == <<"ints", "five", "one", "word", "name", "dims">>
Refuse(s) == [s EXCEPT !.bad = TRUE]
Bands(s) == IF s.ev = <<>> THEN {} ELSE LET e == s.ev[Len(s.ev)] IN { e[i][1] : i \in 1..Len(e) }
Complete(s) == s.ev = <<>> \/ Cardinality(Bands(s)) = s.nb

Step(s, l) ==
  LET t == [s EXCEPT !.line = @ + 1] IN
  CASE s.bad -> t
    [] s.sec = "head" ->
         IF l.k # Header[t.line] THEN Refuse(t)
         ELSE CASE l.k = "ints" -> [t EXCEPT !.na = l.na, !.ns = l.ns]
                [] l.k = "dims" -> [t EXCEPT !.nk = l.nk, !.nb = l.nb, !.sec = "body"]
                [] OTHER -> t
    [] l.k = "blank" -> IF Complete(s) THEN [t EXCEPT !.sep = TRUE] ELSE Refuse(t)
    [] l.k = "kpt" -> IF s.sep /\ Complete(s) /\ Len(s.kp) < s.nk
                      THEN [t EXCEPT !.kp = Append(@, t.line), !.ev = Append(@, <<>>), !.sep = FALSE] ELSE Refuse(t)
    [] l.k = "band" -> IF s.kp # <<>> /\ ~s.sep /\ ~Complete(s) /\ l.b \in (1..s.nb) \ Bands(s) /\ l.n >= s.ns
                       THEN [t EXCEPT !.ev = [@ EXCEPT ![Len(s.ev)] = Append(@, <<l.b, t.line>>)]] ELSE Refuse(t)
    [] OTHER -> Refuse(t)

Cell(n, c) == 1000 * n + c
LineOf(e, b) == e[CHOOSE i \in 1..Len(e) : e[i][1] = b][2]
Proj(s) ==
  IF s.bad \/ s.sec # "body" \/ Len(s.kp) # s.nk \/ ~Complete(s) THEN [refused |-> TRUE]
  ELSE [refused |-> FALSE, ns |-> s.ns, nk |-> s.nk, nb |-> s.nb,
        kp |-> [k \in 1..s.nk |-> [c \in 1..4 |-> Cell(s.kp[k], c)]],
        ev |-> [u \in 1..s.ns |-> [k \in 1..s.nk |-> [b \in 1..s.nb |-> Cell(LineOf(s.ev[k], b), 1 + u)]]]]

--------------------------------------------------------------------------------
Blank == [k |-> "blank"]
Kpt == [k |-> "kpt"]
Left == (1..st.nb) \ Bands(st)
(* the columns behind the index: energies only, or energies and occupations: one choice per file *)
Width == LET w == { i \in 1..Len(doc) : doc[i].k = "band" } IN IF w = {} THEN {st.ns, 2 * st.ns} ELSE { doc[CHOOSE i \in w : TRUE].n }
NextLines ==
  IF st.bad THEN {}
  ELSE IF st.sec = "head" THEN
    CASE st.line = 0 -> { [k |-> "ints", na |-> a, ns |-> n] : a \in 1..2, n \in 1..MaxSpins }
      [] st.line = 5 -> { [k |-> "dims", nk |-> n, nb |-> m] : n \in 1..MaxKpts, m \in 1..MaxBands }
      [] OTHER -> { [k |-> Header[st.line + 1]] }
  ELSE IF ~Complete(st) THEN { [k |-> "band", b |-> b, n |-> w] : b \in Left, w \in Width }
                             \cup (IF Extras THEN { [k |-> "stars"], Blank, Kpt } ELSE {})
  ELSE IF ~st.sep THEN {Blank} \cup (IF Extras /\ st.kp # <<>> THEN { Kpt, [k |-> "band", b |-> 1, n |-> st.ns] } ELSE {})
  ELSE (IF doc[Len(doc) - 1].k = "blank" THEN {} ELSE {Blank}) \cup (IF Len(st.kp) < st.nk \/ Extras THEN {Kpt} ELSE {})

InitMC == src = 0 /\ pos = 0 /\ doc = <<>> /\ st = St0
NextMC == /\ Len(doc) < 6 + st.nk * (st.nb + 2) + Slack
          /\ \E l \in NextLines : doc' = Append(doc, l) /\ st' = Step(st, l)
          /\ UNCHANGED <<src, pos>>
SpecMC == InitMC /\ [][NextMC]_vars

Docs == ndJsonDeserialize(IOEnv.DOCS)
InitDocs == src \in 1..Len(Docs) /\ pos = 0 /\ doc = <<>> /\ st = St0
NextDocs == /\ pos < Len(Docs[src])
            /\ st' = Step(st, Docs[src][pos + 1])
            /\ pos' = pos + 1
            /\ UNCHANGED <<doc, src>>
SpecDocs == InitDocs /\ [][NextDocs]_vars

Emit == IF src = 0
        THEN Len(doc) < 6 \/ CSVWrite("%1$s", <<ToJson([src |-> 0, doc |-> doc, exp |-> Proj(st)])>>, IOEnv.OUT)
        ELSE pos = Len(Docs[src]) =>
             ndJsonSerialize(IOEnv.OUT \o "." \o ToString(src), <<[src |-> src, exp |-> Proj(st)]>>)

(* Meaning: the eigenvalue reported for spin u, k-point k and band b stands in column 1 + u of a band *)
(* line with index b, behind the k-th k-point line and before the next; none is used twice.           *)
Hist == IF src = 0 THEN doc ELSE SubSeq(Docs[src], 1, pos)
Meaning ==
  (src = 0 \/ pos = Len(Docs[src])) =>
  LET p == Proj(st)
      Kpts(n) == Cardinality({ i \in 1..n : Hist[i].k = "kpt" }) IN
  ~p.refused =>
    /\ p.ns = Hist[1].ns /\ p.nk = Hist[6].nk /\ p.nb = Hist[6].nb
    /\ Cardinality({ i \in 1..Len(Hist) : Hist[i].k = "kpt" }) = p.nk
    /\ Cardinality({ i \in 1..Len(Hist) : Hist[i].k = "band" }) = p.nk * p.nb
    /\ \A k \in 1..p.nk : LET n == p.kp[k][1] \div 1000 IN
         /\ Hist[n].k = "kpt" /\ Kpts(n) = k
         /\ \A c \in 1..4 : p.kp[k][c] = 1000 * n + c
    /\ \A u \in 1..p.ns, k \in 1..p.nk, b \in 1..p.nb : LET n == p.ev[u][k][b] \div 1000 IN
         /\ Hist[n].k = "band" /\ Hist[n].b = b /\ Kpts(n) = k
         /\ p.ev[u][k][b] = 1000 * n + 1 + u
================================================================================
