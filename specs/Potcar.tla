-------------------------------- MODULE Potcar --------------------------------
(* Reading the metadata of a POTCAR. Lines: title (the first line, repeats a title), text (prose or    *)
(* numbers), fake (a line that looks like a field), begin / end of the control section, fields (one or *)
(* more fields separated by semicolons, perhaps followed by an explanation). A field has a name and,   *)
(* for TITEL, its words and the parts of its symbol; for LEXCH, its label. The value of the j-th field *)
(* of line l is the identifier 10 * l + j. Fields with names the reader does not know are ignored.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS MaxLines, Keys, Labels, TitleFirst

VARIABLES doc, st, src, pos
vars == <<doc, st, src, pos>>

Text == {"VRHFIN", "LEXCH", "TITEL"}
Bool == {"LULTRA", "LCOR", "LPAW"}
Whole == {"IUNSCR", "NDATA", "ICORE"}
Real == {"EATOM", "RPACOR", "POMASS", "ZVAL", "RCORE", "RWIGS", "ENMAX", "ENMIN", "RCLOC", "EAUG", "DEXC", "RMAX", "RAUG", "RDEP", "RDEPT"}
List == {"STEP"}
Known == Text \cup Bool \cup Whole \cup Real \cup List

Functional(x) ==
  CASE x = "pe" -> <<"PBE", "GGA">> [] x = "91" -> <<"PW91", "GGA">> [] x = "rp" -> <<"revPBE", "GGA">>
    [] x = "am" -> <<"AM05", "GGA">> [] x = "ps" -> <<"PBEsol", "GGA">> [] x = "pw" -> <<"PW86", "GGA">>
    [] x = "lm" -> <<"Langreth-Mehl-Hu", "GGA">> [] x = "pb" -> <<"Perdew-Becke", "GGA">>
    [] x = "ca" -> <<"Perdew-Zunger81", "LDA">> [] x = "hl" -> <<"Hedin-Lundquist", "LDA">>
    [] x = "wi" -> <<"Wigner Interpoloation", "LDA">> [] OTHER -> <<"none", "none">>

St0 == [sec |-> "before", line |-> 0,
        meta |-> <<>>,                  \* fields seen: <<name, identifier>>, at most one per name
        words |-> 0, parts |-> 0,       \* of the last TITEL
        label |-> "none", bad |-> FALSE]

Has(m, k) == \E i \in 1..Len(m) : m[i][1] = k
Put(m, k, v) == IF Has(m, k) THEN [i \in 1..Len(m) |-> IF m[i][1] = k THEN <<k, v>> ELSE m[i]] ELSE Append(m, <<k, v>>)

RECURSIVE Fields(_, _, _)
Fields(s, fs, j) ==
  IF j > Len(fs) THEN s
  ELSE LET f == fs[j]
           t == IF f.key \notin Known THEN s ELSE [s EXCEPT !.meta = Put(@, f.key, 10 * s.line + j)]
           u == IF f.key = "TITEL" THEN [t EXCEPT !.words = f.words, !.parts = f.parts]
                ELSE IF f.key = "LEXCH" THEN [t EXCEPT !.label = f.label] ELSE t
       IN Fields(u, fs, j + 1)

Step(s, l) ==
  LET t == [s EXCEPT !.line = @ + 1] IN
  CASE s.sec = "before" -> IF l.k = "begin" THEN [t EXCEPT !.sec = "in"] ELSE t
    [] s.sec = "in" -> CASE l.k = "end" -> [t EXCEPT !.sec = "after"]
                         [] l.k = "fields" -> Fields(t, l.f, 1)
                         [] OTHER -> t
    [] OTHER -> t

(* the section has to be closed and to have a title *)
Proj(s) == IF s.sec # "after" \/ ~Has(s.meta, "TITEL") THEN [refused |-> TRUE]
           ELSE [refused |-> FALSE, meta |-> s.meta,
                 symbolWord |-> IF s.words > 1 THEN 2 ELSE 1,
                 hasLabel |-> Has(s.meta, "LEXCH"), functional |-> Functional(s.label)]

--------------------------------------------------------------------------------
Field(k) == CASE k = "TITEL" -> { [key |-> k, words |-> w, parts |-> p] : w \in 1..3, p \in 1..3 }
              [] k = "LEXCH" -> { [key |-> k, label |-> x] : x \in Labels }
              [] OTHER -> { [key |-> k] }
One == UNION { Field(k) : k \in Keys }
Lines == { [k |-> "fields", f |-> <<a>>] : a \in One }
         \cup { [k |-> "fields", f |-> <<[key |-> a], [key |-> b]>>] : a \in Keys \ {"TITEL", "LEXCH", "STEP"}, b \in Keys \ {"TITEL", "LEXCH"} }
         \cup { [k |-> "text"] }
Title == [k |-> "fields", f |-> <<[key |-> "TITEL", words |-> 3, parts |-> 2]>>]
NextLines ==
  CASE doc = <<>> -> { [k |-> "title"], [k |-> "begin"] }
    [] st.sec = "before" -> { [k |-> "begin"] } \cup (IF Len(doc) = 1 THEN { [k |-> "text"], [k |-> "fake"] } ELSE {})
    [] st.sec = "in" -> IF TitleFirst /\ st.meta = <<>> THEN {Title} ELSE Lines \cup { [k |-> "end"] } \cup (IF Has(st.meta, "TITEL") THEN {} ELSE {Title})
    [] st.sec = "after" -> IF doc[Len(doc)].k = "end" THEN { [k |-> "text"], [k |-> "fake"] } ELSE {}

Inside == Cardinality({ i \in 1..Len(doc) : \E j \in 1..(i - 1) : doc[j].k = "begin" })
InitMC == src = 0 /\ pos = 0 /\ doc = <<>> /\ st = St0
NextMC == \E l \in NextLines :
            /\ (st.sec = "in" /\ Inside = MaxLines) => l.k = "end"
            /\ doc' = Append(doc, l) /\ st' = Step(st, l)
            /\ UNCHANGED <<src, pos>>
SpecMC == InitMC /\ [][NextMC]_vars

Docs == ndJsonDeserialize(IOEnv.DOCS)
InitDocs == src \in 1..Len(Docs) /\ pos = 0 /\ doc = <<>> /\ st = St0
NextDocs == /\ pos < Len(Docs[src])
            /\ st' = Step(st, Docs[src][pos + 1])
            /\ pos' = pos + 1
            /\ UNCHANGED <<doc, src>>
SpecDocs == InitDocs /\ [][NextDocs]_vars

Emit == IF src = 0
        THEN Len(doc) < 2 \/ CSVWrite("%1$s", <<ToJson([src |-> 0, doc |-> doc, exp |-> Proj(st)])>>, IOEnv.OUT)
        ELSE pos = Len(Docs[src]) =>
             ndJsonSerialize(IOEnv.OUT \o "." \o ToString(src), <<[src |-> src, exp |-> Proj(st)]>>)

(* Meaning: exactly the known names between begin and end are reported, each with its last value.     *)
Hist == IF src = 0 THEN doc ELSE SubSeq(Docs[src], 1, pos)
Meaning ==
  (src = 0 \/ pos = Len(Docs[src])) =>
  LET p == Proj(st)
      n == Len(Hist)
      Opened(i) == \E j \in 1..(i - 1) : Hist[j].k = "begin"
      Closed(i) == \E j \in 1..(i - 1) : Hist[j].k = "end" /\ Opened(j)
      Uses == { u \in (1..n) \X (1..4) : Hist[u[1]].k = "fields" /\ Opened(u[1]) /\ ~Closed(u[1]) /\ u[2] <= Len(Hist[u[1]].f) }
      Named(k) == { 10 * u[1] + u[2] : u \in { v \in Uses : Hist[v[1]].f[v[2]].key = k } }
      Last(a) == CHOOSE x \in a : \A y \in a : y <= x IN
  /\ p.refused = (~Closed(n + 1) \/ Named("TITEL") = {})
  /\ ~p.refused =>
       /\ { p.meta[i][1] : i \in 1..Len(p.meta) } = { k \in Known : Named(k) # {} }
       /\ Cardinality({ p.meta[i][1] : i \in 1..Len(p.meta) }) = Len(p.meta)
       /\ \A i \in 1..Len(p.meta) : p.meta[i][2] = Last(Named(p.meta[i][1]))
       /\ p.hasLabel = (Named("LEXCH") # {})
================================================================================
