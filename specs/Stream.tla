-------------------------------- MODULE Stream -------------------------------
(* Standard streams. A document is a list of events: new (a Stream with its configuration) and line   *)
(* (one line of the newest stream, given by the messages it contains). A message text is              *)
(* [name, ver]: ver "b" is what the built-in entry of that name looks for, "u" what the user's does.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS MaxLines, MaxPer, Confs, Builtins, Inverse, Probe

VARIABLES doc, st, src, pos
vars == <<doc, st, src, pos>>

(* conf: sequence of [name, kind, inv, valid]; valid: "ok", "unknown" (a kind that does not exist), "bad" (wrong types) *)
Seqs(q) == { q[i] : i \in 1..Len(q) }
Given(conf) == { conf[i].name : i \in 1..Len(conf) }
Watched(builtin, conf) ==
  { [name |-> b, ver |-> "b", inv |-> b \in Inverse] : b \in builtin \ Given(conf) }
  \cup { [name |-> conf[i].name, ver |-> "u", inv |-> conf[i].inv] : i \in { j \in 1..Len(conf) : conf[j].valid = "ok" } }

New(e) == [conf |-> e.conf, hist |-> e.hist, watched |-> Watched(IF src = 0 THEN Builtins ELSE Seqs(e.builtin), e.conf),
           refused |-> \E i \in 1..Len(e.conf) : e.conf[i].valid = "bad",
           mayRefuse |-> \E i \in 1..Len(e.conf) : e.conf[i].valid = "unknown",
           seen |-> {},          \* watched messages seen so far
           out |-> <<>>]         \* per line: names reported for it
Fires(w, line) == \E i \in 1..Len(line) : line[i].name = w.name /\ line[i].ver = w.ver
Line(s, l) ==
  LET hit == { w \in s.watched : Fires(w, l) }
      new == IF s.hist THEN hit ELSE hit \ s.seen
  IN [s EXCEPT !.seen = @ \cup hit, !.out = Append(@, { w.name : w \in { x \in new : ~x.inv } })]
Missing(s) == { w.name : w \in { x \in s.watched : x.inv /\ x \notin s.seen } }

(* st: the streams in the order of their construction *)
Step(s, e) == IF e.k = "new" THEN Append(s, New(e)) ELSE [s EXCEPT ![Len(s)] = Line(@, e.v)]
Proj(s) == [i \in 1..Len(s) |-> [refused |-> s[i].refused, mayRefuse |-> s[i].mayRefuse, out |-> s[i].out, missing |-> Missing(s[i]),
                                   watched |-> s[i].watched]]

--------------------------------------------------------------------------------
ConfOf(c) ==
  CASE c = "none" -> <<>>
    [] c = "override" -> << [name |-> "p1", kind |-> "WARNING", inv |-> FALSE, valid |-> "ok"] >>
    [] c = "extend" -> << [name |-> "n1", kind |-> "ERROR", inv |-> FALSE, valid |-> "ok"], [name |-> "n2", kind |-> "warning", inv |-> TRUE, valid |-> "ok"] >>
    [] c = "flip" -> << [name |-> "p1", kind |-> "ERROR", inv |-> TRUE, valid |-> "ok"], [name |-> "nostart", kind |-> "Error", inv |-> FALSE, valid |-> "ok"] >>
    [] c = "unknown" -> << [name |-> "n1", kind |-> "INFO", inv |-> FALSE, valid |-> "unknown"] >>
    [] c = "bad" -> << [name |-> "n1", kind |-> "ERROR", inv |-> FALSE, valid |-> "bad"] >>
Texts == { [name |-> n, ver |-> v] : n \in Probe, v \in {"b", "u"} }
(* lines with up to MaxPer messages; the order inside a line is kept, the specification must not depend on it *)
LineTexts == UNION { { q \in [1..n -> Texts] : \A i, j \in 1..n : i # j => q[i] # q[j] } : n \in 0..MaxPer }

InitMC == /\ src = 0 /\ pos = 0
          /\ \E c \in Confs, h \in BOOLEAN : /\ doc = << [k |-> "new", conf |-> ConfOf(c), hist |-> h] >>
                                            /\ st = << [conf |-> ConfOf(c), hist |-> h, watched |-> Watched(Builtins, ConfOf(c)),
                                                        refused |-> c = "bad", mayRefuse |-> c = "unknown", seen |-> {}, out |-> <<>>] >>
NextMC == /\ Len(doc) <= MaxLines
          /\ \E l \in LineTexts : LET e == [k |-> "line", v |-> l] IN doc' = Append(doc, e) /\ st' = Step(st, e)
          /\ UNCHANGED <<src, pos>>
SpecMC == InitMC /\ [][NextMC]_vars

Docs == ndJsonDeserialize(IOEnv.DOCS)
InitDocs == src \in 1..Len(Docs) /\ pos = 0 /\ doc = <<>> /\ st = <<>>
NextDocs == /\ pos < Len(Docs[src])
            /\ st' = Step(st, Docs[src][pos + 1])
            /\ pos' = pos + 1
            /\ UNCHANGED <<doc, src>>
SpecDocs == InitDocs /\ [][NextDocs]_vars

Emit == IF src = 0
        THEN CSVWrite("%1$s", <<ToJson([src |-> 0, doc |-> doc, exp |-> Proj(st)])>>, IOEnv.OUT)
        ELSE pos = Len(Docs[src]) =>
             ndJsonSerialize(IOEnv.OUT \o "." \o ToString(src), <<[src |-> src, exp |-> Proj(st)]>>)

(* Meaning, of the whole history: nothing is reported whose text does not occur in that very line, every *)
(* watched text that occurs is reported (first time, or every time), an inverse one if and only if its   *)
(* text never occurs, and no stream's report mentions what only another stream contains.                 *)
Hist == IF src = 0 THEN doc ELSE SubSeq(Docs[src], 1, pos)
Starts == { i \in 1..Len(Hist) : Hist[i].k = "new" }
Meaning ==
  (src = 0 \/ pos = Len(Docs[src])) =>
  /\ Cardinality(Starts) = Len(st)
  /\ \A a \in Starts :
       LET me == Cardinality({ b \in Starts : b <= a })
           mine == { i \in (a + 1)..Len(Hist) : \A b \in Starts : b > a => i < b }
           s == st[me]
           Has(i, w) == \E j \in 1..Len(Hist[i].v) : Hist[i].v[j] = [name |-> w.name, ver |-> w.ver]
       IN /\ Len(s.out) = Cardinality(mine)
          /\ \A w \in s.watched :
               LET when == { i \in mine : Has(i, w) } IN
               IF w.inv THEN /\ (w.name \in Missing(s)) = (when = {})
                             /\ \A i \in 1..Len(s.out) : w.name \notin s.out[i]
               ELSE /\ w.name \notin Missing(s)
                    /\ { a + i : i \in { j \in 1..Len(s.out) : w.name \in s.out[j] } }
                       = IF s.hist THEN when ELSE { i \in when : \A j \in when : i <= j }
          /\ UNION { s.out[i] : i \in 1..Len(s.out) } \subseteq { w.name : w \in s.watched }
          (* every built-in message and every valid entry of the user is watched, once, in the user's version *)
          /\ \A w \in s.watched, v \in s.watched : w.name = v.name => w = v
          /\ { w.name : w \in s.watched } =
               ((IF src = 0 THEN Builtins ELSE Seqs(Hist[a].builtin)) \ { Hist[a].conf[j].name : j \in { x \in 1..Len(Hist[a].conf) : Hist[a].conf[x].valid # "ok" } })
               \cup { Hist[a].conf[j].name : j \in { x \in 1..Len(Hist[a].conf) : Hist[a].conf[x].valid = "ok" } }
          /\ \A w \in s.watched : (w.ver = "u") = (w.name \in Given(Hist[a].conf))
================================================================================
