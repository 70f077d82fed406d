-------------------------------- MODULE Rewrite --------------------------------
(* Generations of a structure or k-point set: every generation is written with some number of          *)
(* decimals and read back as the next one. A number is a whole number of millionths; writing it with    *)
(* fewer decimals rounds it to the nearest one. Rounding of exact halves is left open.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS Numbers, Decimals, MaxGens

VARIABLES start, cur, gens, open, src
vars == <<start, cur, gens, open, src>>

Places == 6
Abs(n) == IF n < 0 THEN -n ELSE n
Unit(p) == 10 ^ (Places - p)
Mod(a, b) == a - b * (a \div b)
Half(v, p) == p < Places /\ 2 * Mod(Abs(v), Unit(p)) = Unit(p)
Round(v, p) ==
  IF p >= Places THEN v
  ELSE LET u == Unit(p)
           down == (Abs(v) \div u) * u
           near == IF 2 * (Abs(v) - down) >= u THEN down + u ELSE down
       IN IF v < 0 THEN -near ELSE near

Write(p) ==
  /\ Len(gens) < MaxGens
  /\ cur' = [i \in 1..Len(cur) |-> Round(cur[i], p)]
  /\ open' = (open \/ \E i \in 1..Len(cur) : Half(cur[i], p))
  /\ gens' = Append(gens, [p |-> p, v |-> cur'])
  /\ UNCHANGED <<start, src>>

Docs == ndJsonDeserialize(IOEnv.DOCS)
InitMC == src = 0 /\ start \in Numbers \X Numbers \X Numbers /\ cur = start /\ gens = <<>> /\ open = FALSE
NextMC == \E p \in Decimals : Write(p)
SpecMC == InitMC /\ [][NextMC]_vars
InitDocs == src \in 1..Len(Docs) /\ start = Docs[src].v /\ cur = start /\ gens = <<>> /\ open = FALSE
NextDocs == Len(gens) < Len(Docs[src].p) /\ Write(Docs[src].p[Len(gens) + 1])
SpecDocs == InitDocs /\ [][NextDocs]_vars

Exp == [start |-> start, gens |-> gens, open |-> open]
Emit == IF src = 0 THEN Len(gens) < MaxGens \/ CSVWrite("%1$s", <<ToJson([src |-> 0, doc |-> <<>>, exp |-> Exp])>>, IOEnv.OUT)
        ELSE Len(gens) = Len(Docs[src].p) => ndJsonSerialize(IOEnv.OUT \o "." \o ToString(src), <<[src |-> src, exp |-> Exp]>>)

(* the first writing is within half a unit of its last decimal; a later one with at least the fewest    *)
(* decimals used so far changes nothing; what was written with p decimals has no more than p            *)
Least == LET ps == { gens[i].p : i \in 1..Len(gens) } IN CHOOSE p \in ps : \A q \in ps : p <= q
Meaning ==
  gens # <<>> =>
    /\ \A i \in 1..Len(start) : gens[1].p >= Places \/ 2 * Abs(gens[1].v[i] - start[i]) <= Unit(gens[1].p)
    /\ gens[1].p >= Places => gens[1].v = start
    /\ \A g \in 2..Len(gens) : (\A h \in 1..g - 1 : gens[h].p >= gens[g].p) \/ gens[g].v = gens[g - 1].v
                               \/ \E h \in 1..g - 1 : gens[h].p > gens[g].p
    /\ \A g \in 2..Len(gens) : gens[g].p >= gens[g - 1].p => gens[g].v = gens[g - 1].v
    /\ Least < Places => \A i \in 1..Len(cur) : Mod(Abs(cur[i]), Unit(Least)) = 0
================================================================================
