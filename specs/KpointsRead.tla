----------------------------- MODULE KpointsRead -----------------------------
(* Reading a KPOINTS file, line by line. A document is a sequence of lines:                         *)
(*   text (the comment), count (an integer), word (a line that starts with a letter), nums (numbers) *)
(*   ints (integers), blank. Numbers are identifiers except counts and integers.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS MaxLen, Counts, Letters

VARIABLES doc, st, src, pos
vars == <<doc, st, src, pos>>

NONE == -100000
St0 == [sec |-> "comment", n |-> NONE, mode |-> "", cent |-> "none",
        points |-> <<>>,      \* [p |-> three identifiers, w |-> identifier, 0 if none, 1 the number one]
        div |-> <<>>, gen |-> <<>>, shifts |-> <<>>, hasShifts |-> FALSE,
        tetra |-> <<>>, hasTetra |-> FALSE, tvol |-> 0, ntet |-> 0,
        bad |-> FALSE]

Refuse(s) == [s EXCEPT !.bad = TRUE, !.sec = "rest"]
Go(s, sec) == [s EXCEPT !.sec = sec]

ModeLine(s, c) ==
  IF c = "l" THEN IF s.n <= 0 THEN Refuse(s) ELSE [s EXCEPT !.mode = "line", !.sec = "ref"]
  ELSE IF s.n > 0 THEN
     IF c \in {"k", "c"} THEN Refuse(s) ELSE [s EXCEPT !.mode = "explicit", !.sec = "points"]
  ELSE LET a == [s EXCEPT !.mode = "automatic"] IN
     CASE c = "g" -> [a EXCEPT !.cent = "Gamma", !.sec = "div"]
       [] c = "m" -> [a EXCEPT !.cent = "Monkhorst-Pack", !.sec = "div"]
       [] c = "r" -> [a EXCEPT !.cent = "Reciprocal", !.sec = "gen"]
       [] OTHER -> Refuse(s)          \* automatic length mode, expert mode, unknown centring

Step(s, l) ==
  CASE s.sec = "rest" -> s
    [] s.sec = "comment" -> Go(s, "count")
    [] s.sec = "count" -> IF l.k = "count" THEN [s EXCEPT !.n = l.v, !.sec = "mode"] ELSE Refuse(s)
    [] s.sec = "mode" -> IF l.k = "word" THEN ModeLine(s, l.c) ELSE Refuse(s)
    (* line mode *)
    [] s.sec = "ref" -> IF l.k = "word" /\ l.c \in {"r", "d"} THEN Go(s, "segments") ELSE Refuse(s)
    [] s.sec = "segments" -> IF l.k = "blank" THEN s
                             ELSE IF l.k = "nums" THEN [s EXCEPT !.points = Append(@, [p |-> SubSeq(l.v, 1, 3), w |-> 1])]
                             ELSE Refuse(s)
    (* explicit list *)
    [] s.sec = "points" -> IF l.k # "nums" THEN Refuse(s)
                           ELSE [s EXCEPT !.points = Append(@, [p |-> SubSeq(l.v, 1, 3), w |-> IF Len(l.v) > 3 THEN l.v[4] ELSE 0]),
                                          !.sec = IF Len(s.points) + 1 = s.n THEN "after" ELSE "points"]
    [] s.sec = "after" -> IF l.k = "word" /\ l.c = "t" THEN [s EXCEPT !.hasTetra = TRUE, !.sec = "tethead"] ELSE Go(s, "rest")
    [] s.sec = "tethead" -> IF l.k = "tet" THEN [s EXCEPT !.ntet = l.n, !.tvol = l.v, !.sec = IF l.n = 0 THEN "rest" ELSE "tetra"]
                            ELSE Refuse(s)
    [] s.sec = "tetra" -> IF l.k = "ints" /\ Len(l.v) = 5
                          THEN [s EXCEPT !.tetra = Append(@, l.v), !.sec = IF Len(s.tetra) + 1 = s.ntet THEN "rest" ELSE "tetra"]
                          ELSE Refuse(s)
    (* automatic grids *)
    [] s.sec = "div" -> IF l.k = "ints" THEN [s EXCEPT !.div = l.v, !.sec = "shifts"] ELSE Refuse(s)
    [] s.sec = "shifts" -> IF l.k = "nums" THEN [s EXCEPT !.shifts = l.v, !.hasShifts = TRUE, !.sec = "rest"] ELSE Go(s, "rest")
    [] s.sec = "gen" -> IF l.k # "nums" THEN Refuse(s)
                        ELSE [s EXCEPT !.gen = Append(@, l.v), !.sec = IF Len(s.gen) = 2 THEN "gshifts" ELSE "gen"]
    [] s.sec = "gshifts" -> IF l.k # "nums" THEN Refuse(s) ELSE [s EXCEPT !.shifts = l.v, !.hasShifts = TRUE, !.sec = "rest"]

Complete == {"rest", "after", "shifts", "segments"}
Proj(s) == IF s.bad \/ s.sec \notin Complete THEN [refused |-> TRUE, vague |-> s.sec = "tethead"]
           ELSE [refused |-> FALSE, vague |-> s.mode = "line" /\ s.points = <<>>,
                 n |-> s.n, mode |-> s.mode, cent |-> s.cent, points |-> s.points, div |-> s.div, gen |-> s.gen,
                 shifts |-> s.shifts, hasShifts |-> s.hasShifts, tetra |-> s.tetra, hasTetra |-> s.hasTetra, tvol |-> s.tvol]

--------------------------------------------------------------------------------
N == Len(doc) + 1
Nums(k) == [k |-> "nums", v |-> [j \in 1..k |-> 100 * N + j]]
Ints(k) == [k |-> "ints", v |-> [j \in 1..k |-> 7 * N + j]]
Blank == [k |-> "blank"]
Word(c) == [k |-> "word", c |-> c]

NextLines ==
  CASE st.sec = "comment" -> { [k |-> "text"] }
    [] st.sec = "count" -> { [k |-> "count", v |-> c - 1] : c \in Counts }
    [] st.sec = "mode" -> { Word(c) : c \in Letters }
    [] st.sec = "ref" -> { Word("r"), Word("d"), Word("c"), Word("k") }
    [] st.sec = "segments" -> { Nums(3), Nums(4), Blank }
    [] st.sec = "points" -> { Nums(3), Nums(4) }
    [] st.sec = "after" -> { Word("t"), Blank }
    [] st.sec = "tethead" -> { [k |-> "tet", n |-> n, v |-> 100 * N] : n \in {0, 1, 2} }
    [] st.sec = "tetra" -> { Ints(5), Ints(4), Ints(6) }
    [] st.sec = "div" -> { Ints(3) }
    [] st.sec = "shifts" -> { Nums(3), Blank }
    [] st.sec = "gen" -> { Nums(3) }
    [] st.sec = "gshifts" -> { Nums(3) }
    [] st.sec = "rest" -> IF st.bad THEN {} ELSE { Blank }

InitMC == src = 0 /\ pos = 0 /\ doc = <<>> /\ st = St0
NextMC == /\ Len(doc) < MaxLen
          /\ \E l \in NextLines : doc' = Append(doc, l) /\ st' = Step(st, l)
          /\ UNCHANGED <<src, pos>>
SpecMC == InitMC /\ [][NextMC]_vars

Docs == ndJsonDeserialize(IOEnv.DOCS)
InitDocs == src \in 1..Len(Docs) /\ pos = 0 /\ doc = <<>> /\ st = St0
NextDocs == /\ pos < Len(Docs[src])
            /\ st' = Step(st, Docs[src][pos + 1])
            /\ pos' = pos + 1
            /\ UNCHANGED <<doc, src>>
SpecDocs == InitDocs /\ [][NextDocs]_vars

Emit == IF src = 0
        THEN Len(doc) < 3 \/ CSVWrite("%1$s", <<ToJson([src |-> 0, doc |-> doc, exp |-> Proj(st)])>>, IOEnv.OUT)
        ELSE pos = Len(Docs[src]) =>
             ndJsonSerialize(IOEnv.OUT \o "." \o ToString(src), <<[src |-> src, exp |-> Proj(st)]>>)

(* Meaning over the file: the mode decides where each line belongs. *)
Hist == IF src = 0 THEN doc ELSE SubSeq(Docs[src], 1, pos)
Body == SubSeq(Hist, 4, Len(Hist))
Filled == SelectSeq(Body, LAMBDA l : l.k # "blank")
Meaning ==
  (src = 0 \/ pos = Len(Docs[src])) =>
  LET p == Proj(st) IN
  ~p.refused =>
    LET n == Hist[2].v  c == Hist[3].c IN
    /\ p.n = n
    /\ (p.mode = "line") = (c = "l") /\ (p.mode = "automatic") = (c # "l" /\ n <= 0)
    /\ p.mode = "explicit" =>
         /\ Len(p.points) = n
         /\ \A i \in 1..n : p.points[i].p = SubSeq(Hist[3 + i].v, 1, 3)
         /\ p.hasTetra = (Len(Hist) > n + 3 /\ Hist[n + 4].k = "word" /\ Hist[n + 4].c = "t")
    /\ p.mode = "line" =>
         /\ Len(p.points) = Len(Filled) - 1
         /\ \A i \in 1..Len(p.points) : p.points[i].p = SubSeq(Filled[i + 1].v, 1, 3)
    /\ p.mode = "automatic" =>
         /\ p.points = <<>>
         /\ (p.div = <<>>) = (c = "r") /\ (p.gen # <<>>) = (c = "r")
         /\ p.div # <<>> => p.div = Hist[4].v /\ (p.hasShifts = (Len(Hist) >= 5 /\ Hist[5].k = "nums"))
         /\ p.gen # <<>> => p.gen = <<Hist[4].v, Hist[5].v, Hist[6].v>> /\ p.shifts = Hist[7].v
================================================================================
