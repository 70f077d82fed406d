-------------------------------- MODULE Words --------------------------------
(* Words of a line: what is written decides whether it is an integer, a float, a flag or a word.        *)
(* A word is a sequence of signs: d digit, s sign, p point, e the letter of an exponent, x another       *)
(* letter, u any other sign, T and F a flag between points. The reader is a small automaton.             *)
(* Lines: words between blanks; lines of a file are chosen by what occurs in them.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS Mode, MaxLen, Signs, Names

VARIABLES doc, st, acc, src, pos
vars == <<doc, st, acc, src, pos>>

(* ---------------------------------------------------------------------------- one word *)
Next1(q, c) ==
  CASE q = "start" -> CASE c = "s" -> "signed" [] c = "d" -> "int" [] c = "p" -> "point" [] c = "T" -> "true" [] c = "F" -> "false" [] OTHER -> "word"
    [] q = "signed" -> CASE c = "d" -> "int" [] c = "p" -> "point" [] OTHER -> "word"
    [] q = "int" -> CASE c = "d" -> "int" [] c = "p" -> "frac" [] c = "e" -> "exp" [] OTHER -> "word"
    [] q = "point" -> CASE c = "d" -> "frac" [] OTHER -> "word"
    [] q = "frac" -> CASE c = "d" -> "frac" [] c = "e" -> "exp" [] OTHER -> "word"
    [] q = "exp" -> CASE c = "s" -> "expsign" [] c = "d" -> "power" [] OTHER -> "word"
    [] q = "expsign" -> CASE c = "d" -> "power" [] OTHER -> "word"
    [] q = "power" -> CASE c = "d" -> "power" [] OTHER -> "word"
    [] q \in {"true", "false", "free"} -> "free"
    [] q = "word" -> "word"
(* "free": a flag with something behind it, no promise is made *)
Verdict(q) == CASE q = "int" -> "int" [] q \in {"frac", "power"} -> "float" [] q \in {"true", "false", "free"} -> q [] OTHER -> "word"
RECURSIVE Run(_, _)
Run(q, w) == IF w = <<>> THEN q ELSE Run(Next1(q, Head(w)), Tail(w))
Class(w) == Verdict(Run("start", w))

(* ---------------------------------------------------------------------------- lines *)
Numeric(c) == c \in {"int", "float"}
Line(cs) == [numbers |-> cs # <<>> /\ \A i \in 1..Len(cs) : Numeric(cs[i]),
             ints |-> \A i \in 1..Len(cs) : cs[i] = "int",
             floats |-> \A i \in 1..Len(cs) : Numeric(cs[i]),
             single |-> Len(cs) = 1]
(* lines of a file: acc collects the numbers of those in which something asked for occurs *)
Chosen(line, asked) == \E n \in asked : n \in line

--------------------------------------------------------------------------------
AsSet(q) == { q[i] : i \in 1..Len(q) }
Init0 == st = "start" /\ acc = <<>>
InitMC == /\ src = 0 /\ Init0 /\ pos = 0
          /\ doc \in (CASE Mode = "word" -> UNION { [1..n -> Signs] : n \in 1..MaxLen }
                        [] Mode = "line" -> UNION { [1..n -> {"int", "float", "word", "true"}] : n \in 0..MaxLen }
                        [] Mode = "file" -> { [lines |-> ls, asked |-> a] : ls \in UNION { [1..n -> SUBSET Names] : n \in 0..MaxLen }, a \in (SUBSET Names) \ {{}} })
StepWord == pos < Len(doc) /\ st' = Next1(st, doc[pos + 1]) /\ UNCHANGED acc
StepLine == pos < Len(doc) /\ acc' = Append(acc, doc[pos + 1]) /\ UNCHANGED st
StepFile == /\ pos < Len(doc.lines)
            /\ acc' = IF Chosen(doc.lines[pos + 1], doc.asked) THEN Append(acc, pos + 1) ELSE acc
            /\ UNCHANGED st
NextMC == /\ pos' = pos + 1 /\ UNCHANGED <<doc, src>>
          /\ (CASE Mode = "word" -> StepWord [] Mode = "line" -> StepLine [] Mode = "file" -> StepFile)
SpecMC == InitMC /\ [][NextMC]_vars
(* longer words from outside *)
Docs == ndJsonDeserialize(IOEnv.DOCS)
InitDocs == src \in 1..Len(Docs) /\ doc = Docs[src] /\ Init0 /\ pos = 0
SpecDocs == InitDocs /\ [][pos' = pos + 1 /\ UNCHANGED <<doc, src>> /\ StepWord]_vars

Done == CASE Mode = "file" -> pos = Len(doc.lines) [] OTHER -> pos = Len(doc)
Result == CASE Mode = "word" -> [src |-> src, word |-> doc, class |-> Verdict(st)]
            [] Mode = "line" -> [src |-> src, words |-> doc, line |-> Line(acc)]
            [] Mode = "file" -> [src |-> src, lines |-> doc.lines, asked |-> doc.asked, chosen |-> acc]
Emit == Done => IF src = 0 THEN CSVWrite("%1$s", << ToJson(Result) >>, IOEnv.OUT)
                ELSE ndJsonSerialize(IOEnv.OUT \o "." \o ToString(src), << Result >>)

(* ------------------------------------------------------------------------------------ meaning *)
Digits(w) == w # <<>> /\ \A i \in 1..Len(w) : w[i] = "d"
MaybeDigits(w) == \A i \in 1..Len(w) : w[i] = "d"
Unsigned(w) == IF w # <<>> /\ w[1] = "s" THEN Tail(w) ELSE w
(* digits, or digits around a point with at least one of them *)
Mantissa(w) == \/ Digits(w)
               \/ \E k \in 1..Len(w) : w[k] = "p" /\ Len(w) > 1 /\ MaybeDigits(SubSeq(w, 1, k - 1)) /\ MaybeDigits(SubSeq(w, k + 1, Len(w)))
IntWord(w) == Digits(Unsigned(w))
FloatWord(w) == /\ ~IntWord(w)
                /\ LET v == Unsigned(w) IN
                   \/ Mantissa(v)
                   \/ \E k \in 1..Len(v) : v[k] = "e" /\ Mantissa(SubSeq(v, 1, k - 1)) /\ Digits(Unsigned(SubSeq(v, k + 1, Len(v))))
FlagFirst(w) == w # <<>> /\ w[1] \in {"T", "F"}
Meaning ==
  CASE Mode = "word" ->
         LET w == SubSeq(doc, 1, pos) IN
         (pos > 0) => /\ (Verdict(st) = "int") <=> IntWord(w)
                      /\ (Verdict(st) = "float") <=> FloatWord(w)
                      /\ (Verdict(st) \in {"true", "false"}) <=> (FlagFirst(w) /\ Len(w) = 1)
                      /\ (Verdict(st) = "free") <=> (FlagFirst(w) /\ Len(w) > 1)
                      /\ Run("start", w) = st
    [] Mode = "line" -> Line(acc).numbers => Line(acc).floats
    [] Mode = "file" -> /\ \A i \in 1..Len(acc) : doc.lines[acc[i]] \cap doc.asked # {}
                        /\ \A i, j \in 1..Len(acc) : i < j => acc[i] < acc[j]
                        /\ Cardinality(AsSet(acc)) = Cardinality({ n \in 1..pos : doc.lines[n] \cap doc.asked # {} })
=============================================================================
