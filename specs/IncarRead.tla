------------------------------ MODULE IncarRead ------------------------------
(* Reading an INCAR: a lexer-parser over the lexemes of the text.                                  *)
(* A document is a sequence of lexemes: words (class tag, int, float, bool or str), "=", ";", "#"   *)
(* and line ends. Words are rendered separated by white space. The outcome names, per tag, the      *)
(* positions of the words that form its value and its comment, so the replay driver can look up     *)
(* what was written there.                                                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS Mode,     \* "lex": every lexeme sequence; "asg": sequences of assignments and separators; "docs"
          MaxLen, Tags, Kinds, Seps

VARIABLES doc, st, src, pos
vars == <<doc, st, src, pos>>

FreeTags == {"SYS", "MAG", "CON"}       \* SYSTEM, MAGMOM, M_CONSTR: value is the text itself
UnknownTags == {"U", "V"}               \* not in the list of supported tags

--------------------------------------------------------------------------------
(* Reader: lexemes are consumed one by one; entries are stored when the line ends, because a        *)
(* trailing comment belongs to every entry of its line.                                             *)

St0 == [n |-> 0,               \* lexemes consumed
        piece |-> <<>>,        \* [p, l] of the entry being read
        line |-> <<>>,         \* finished pieces of this line
        com |-> <<>>, incom |-> FALSE,
        out |-> <<>>,          \* assignments in file order
        bad |-> {},            \* reasons to refuse
        vague |-> FALSE]       \* input about which nothing is promised

Words(p) == SelectSeq(p, LAMBDA q : q.l.x = "w")
Eqs(p) == { i \in 1..Len(p) : p[i].l.x = "=" }

Type(c) == IF c \in {"int", "float"} THEN c ELSE "string"

Assign(s, p) ==   \* a finished piece becomes an assignment or a reason to refuse
  IF p = <<>> THEN s
  ELSE IF Cardinality(Eqs(p)) > 1 THEN [s EXCEPT !.bad = @ \cup {"equals"}]
  ELSE IF Eqs(p) = {} THEN [s EXCEPT !.bad = @ \cup {"noequals"}]
  ELSE LET e == CHOOSE i \in Eqs(p) : TRUE
           tagw == SubSeq(p, 1, e - 1)
           valw == SubSeq(p, e + 1, Len(p))
           classes == { valw[i].l.c : i \in 1..Len(valw) }
           types == { Type(c) : c \in classes }
       IN IF tagw = <<>> THEN [s EXCEPT !.bad = @ \cup {"notag"}]
          ELSE LET t == tagw[1].l
                   free == t.c = "tag" /\ t.t \in FreeTags
                   s1 == [s EXCEPT !.vague = @ \/ Len(tagw) > 1
                                               \/ (~free /\ "bool" \in classes /\ Cardinality(classes) > 1
                                                   /\ Cardinality(types) = 1)]
               IN IF ~free /\ Cardinality(types) > 1 THEN [s1 EXCEPT !.bad = @ \cup {"mixed"}]
                  ELSE [s1 EXCEPT !.out = Append(@, [tag |-> IF t.c = "tag" THEN t.t ELSE "?", at |-> tagw[1].p, free |-> free,
                                                     val |-> [i \in 1..Len(valw) |-> valw[i].p], com |-> <<>>, hascom |-> FALSE])]

RECURSIVE AssignAll(_, _, _)
AssignAll(s, ps, i) == IF i > Len(ps) THEN s ELSE AssignAll(Assign(s, ps[i]), ps, i + 1)

EndLine(s) ==
  LET pieces == Append(s.line, s.piece)
      before == Len(s.out)
      s1 == AssignAll(s, pieces, 1)
      s2 == [s1 EXCEPT !.out = [i \in 1..Len(@) |-> IF i > before THEN [@[i] EXCEPT !.com = s.com, !.hascom = s.incom] ELSE @[i]]]
  IN [s2 EXCEPT !.piece = <<>>, !.line = <<>>, !.com = <<>>, !.incom = FALSE]

Step(s0, l) ==
  LET s == [s0 EXCEPT !.n = @ + 1] IN
  IF l.x = "nl" THEN
     EndLine(s)
  ELSE IF s.incom THEN [s EXCEPT !.com = Append(@, s.n)]
  ELSE IF l.x = "#" THEN [s EXCEPT !.incom = TRUE]
  ELSE IF l.x = ";" THEN [s EXCEPT !.line = Append(@, s.piece), !.piece = <<>>]
  ELSE [s EXCEPT !.piece = Append(@, [p |-> s.n, l |-> l])]

NL == [x |-> "nl"]
Close(s) == Step(s, NL)      \* end of text ends the last line

(* last assignment of each tag, in order of first appearance of the tag *)
TagKey(s, i) == IF s.out[i].tag = "?" THEN ToString(s.out[i].at) ELSE s.out[i].tag
LastOf(s, i) == \A j \in (i + 1)..Len(s.out) : TagKey(s, j) # TagKey(s, i)
Table(s) == LET keep == { i \in 1..Len(s.out) : LastOf(s, i) }
            IN [i \in keep |-> s.out[i]]
Unknown(s) == \E i \in 1..Len(s.out) : s.out[i].tag \in UnknownTags \cup {"?"}
RECURSIVE Pick(_, _)
Pick(s, i) == IF i > Len(s.out) THEN <<>> ELSE (IF LastOf(s, i) THEN <<s.out[i]>> ELSE <<>>) \o Pick(s, i + 1)

Proj(s0) == LET s == Close(s0) IN
   [vague |-> s.vague, refused |-> s.bad # {}, bad |-> s.bad, unknown |-> Unknown(s), entries |-> Pick(s, 1)]

--------------------------------------------------------------------------------
W(c, t) == [x |-> "w", c |-> c, t |-> t]
Sym(x) == [x |-> x]
Lexemes == { W("tag", t) : t \in Tags } \cup { W(k, "") : k \in Kinds } \cup { Sym("="), Sym(";"), Sym("#"), NL }

ValueOf == [int |-> << W("int", "") >>, float |-> << W("float", "") >>, bool |-> << W("bool", "") >>, str |-> << W("str", "") >>,
            ints |-> << W("int", ""), W("int", "") >>, bools |-> << W("bool", ""), W("bool", ""), W("bool", "") >>,
            floats |-> << W("float", ""), W("float", ""), W("float", "") >>, strs |-> << W("str", ""), W("str", "") >>,
            mixif |-> << W("int", ""), W("float", "") >>, mixsi |-> << W("str", ""), W("int", "") >>,
            mixbf |-> << W("float", ""), W("bool", "") >>, none |-> << >>]
SepOf == [nl |-> << NL >>, semi |-> << Sym(";") >>, semnl |-> << Sym(";"), NL >>, com |-> << Sym("#"), W("str", ""), NL >>,
          semcom |-> << Sym(";"), Sym("#"), Sym("="), Sym(";"), NL >>, skip |-> << NL, Sym("#"), W("tag", "A"), Sym("="), W("int", ""), NL, NL >>,
          empty |-> << >>]
Assignments == { << W("tag", t), Sym("=") >> \o ValueOf[k] \o SepOf[e] : t \in Tags, k \in Kinds, e \in Seps }

RECURSIVE Run(_, _, _)
Run(s, d, i) == IF i > Len(d) THEN s ELSE Run(Step(s, d[i]), d, i + 1)

InitMC == src = 0 /\ pos = 0 /\ doc = <<>> /\ st = St0
NextMC == /\ pos < MaxLen
          /\ \/ Mode = "lex" /\ \E l \in Lexemes : doc' = Append(doc, l) /\ st' = Step(st, l)
             \/ Mode = "asg" /\ \E a \in Assignments : doc' = doc \o a /\ st' = Run(st, a, 1)
          /\ pos' = pos + 1
          /\ UNCHANGED src
SpecMC == InitMC /\ [][NextMC]_vars

Docs == ndJsonDeserialize(IOEnv.DOCS)
InitDocs == src \in 1..Len(Docs) /\ pos = 0 /\ doc = <<>> /\ st = St0
NextDocs == /\ pos < Len(Docs[src])
            /\ st' = Step(st, Docs[src][pos + 1])
            /\ pos' = pos + 1
            /\ UNCHANGED <<doc, src>>
SpecDocs == InitDocs /\ [][NextDocs]_vars

Emit == IF src = 0
        THEN CSVWrite("%1$s", <<ToJson([src |-> 0, doc |-> doc, exp |-> Proj(st)])>>, IOEnv.OUT)
        ELSE pos = Len(Docs[src]) =>
             ndJsonSerialize(IOEnv.OUT \o "." \o ToString(src), <<[src |-> src, exp |-> Proj(st)]>>)

--------------------------------------------------------------------------------
(* What the outcome must mean, over the text: the value of a tag is the words between the last      *)
(* "tag =" outside a comment and the next separator.                                                *)
Hist == IF src = 0 THEN doc ELSE Docs[src]
InComment(i) == \E j \in 1..(i - 1) : Hist[j].x = "#" /\ \A k \in j..i : Hist[k].x # "nl"
EqAt == { i \in 2..Len(Hist) : Hist[i].x = "=" /\ ~InComment(i) /\ Hist[i - 1].x = "w" }
TagAt(t) == { i \in EqAt : Hist[i - 1].c = "tag" /\ Hist[i - 1].t = t }
Span(i) == { j \in (i + 1)..Len(Hist) : \A k \in (i + 1)..j : Hist[k].x \notin {";", "#", "nl"} }
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
SetOf(q) == { q[i] : i \in 1..Len(q) }
Meaning ==
  (src = 0 \/ pos = Len(Docs[src])) =>
    LET p == Proj(st) IN
    (~p.refused /\ ~p.vague) =>
       /\ { p.entries[i].tag : i \in 1..Len(p.entries) } \ {"?"} =
             { Hist[i - 1].t : i \in { k \in EqAt : Hist[k - 1].c = "tag" } }
       /\ \A i \in 1..Len(p.entries) :
            p.entries[i].tag # "?" =>
              /\ SetOf(p.entries[i].val) = Span(Max(TagAt(p.entries[i].tag)))
              /\ ~p.entries[i].free =>
                   Cardinality({ Type(Hist[j].c) : j \in SetOf(p.entries[i].val) }) <= 1
       /\ \A i, j \in 1..Len(p.entries) : i # j => p.entries[i].at # p.entries[j].at
================================================================================
