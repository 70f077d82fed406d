----------------------------- MODULE PoscarRead ------------------------------
(* Reading a POSCAR file, line by line, with exact arithmetic: the lattice, coordinates and          *)
(* velocities are integers (in decimal units chosen by the harness), the scaling factor a rational.  *)
(* Lines: text, scale (n/d), vec (three integers), names, counts, word (starts with letter c),       *)
(*        nums (three integers and possibly flags), blank.                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS MaxLen, Size, NLat

VARIABLES doc, st, src, pos
vars == <<doc, st, src, pos>>

St0 == [sec |-> "comment", sn |-> 0, sd |-> 0, lat |-> <<>>, names |-> <<>>, counts |-> <<>>,
        sel |-> FALSE, frame |-> "", ps |-> <<>>, fl |-> <<>>, vframe |-> "none", vel |-> <<>>, pred |-> <<>>,
        hasPred |-> FALSE, bad |-> FALSE, vague |-> FALSE]

Refuse(s) == [s EXCEPT !.bad = TRUE, !.sec = "rest"]
Vague(s) == [s EXCEPT !.vague = TRUE, !.sec = "rest"]
Go(s, sec) == [s EXCEPT !.sec = sec]

RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE q[1] + Sum(Tail(q))
NIons(s) == Sum(s.counts)
(* the species of site i is the k for which i falls in the k-th block *)
SpeciesOf(s, i) == CHOOSE k \in 1..Len(s.counts) : Sum(SubSeq(s.counts, 1, k - 1)) < i /\ i <= Sum(SubSeq(s.counts, 1, k))

Frame(c) == IF c = "d" THEN "direct" ELSE "cartesian"
Coord(s, l, sec2) ==
  [s EXCEPT !.ps = Append(@, l.v), !.fl = Append(@, IF s.sel THEN l.f ELSE <<TRUE, TRUE, TRUE>>),
            !.sec = IF Len(s.ps) + 1 = NIons(s) THEN sec2 ELSE "pos"]

Step(s, l) ==
  CASE s.sec = "rest" -> s
    [] s.sec = "comment" -> Go(s, "scale")
    [] s.sec = "scale" -> IF l.k # "scale" \/ l.n < 0 THEN Refuse(s) ELSE [s EXCEPT !.sn = l.n, !.sd = l.d, !.sec = "vec"]
    [] s.sec = "vec" -> IF l.k # "vec" THEN Refuse(s)
                        ELSE [s EXCEPT !.lat = Append(@, l.v), !.sec = IF Len(s.lat) = 2 THEN "names" ELSE "vec"]
    [] s.sec = "names" -> IF l.k # "names" THEN Refuse(s) ELSE [s EXCEPT !.names = l.v, !.sec = "counts"]
    [] s.sec = "counts" -> IF l.k # "counts" THEN Refuse(s) ELSE [s EXCEPT !.counts = l.v, !.sec = "mode"]
    [] s.sec = "mode" -> IF l.k # "word" THEN Vague(s)
                         ELSE IF l.c = "s" THEN [s EXCEPT !.sel = TRUE, !.sec = "mode2"]
                         ELSE IF l.c \in {"d", "c", "k"} THEN [s EXCEPT !.frame = Frame(l.c), !.sec = "pos"]
                         ELSE Vague(s)
    [] s.sec = "mode2" -> IF l.k = "word" /\ l.c \in {"d", "c", "k"} THEN [s EXCEPT !.frame = Frame(l.c), !.sec = "pos"] ELSE Vague(s)
    [] s.sec = "pos" -> IF l.k # "nums" THEN Refuse(s)
                        ELSE IF s.sel /\ l.f = <<>> THEN Vague(s) ELSE Coord(s, l, "after")
    (* behind the positions *)
    [] s.sec = "after" -> IF l.k = "blank" THEN Go(s, "predfirst")
                          ELSE IF l.k = "word" /\ l.c \in {"d", "c"} THEN [s EXCEPT !.vframe = Frame(l.c), !.sec = "vel"]
                          ELSE IF l.k = "word" THEN Go(s, "text") ELSE Vague(s)
    [] s.sec = "text" -> IF l.k = "word" THEN Refuse(s) ELSE Vague(s)
    [] s.sec = "predfirst" -> IF l.k = "blank" THEN Go(s, "blanks")
                              ELSE IF l.k = "nums" THEN [s EXCEPT !.hasPred = TRUE, !.pred = <<l.v>>, !.sec = IF NIons(s) = 1 THEN "rest" ELSE "pred"]
                              ELSE Refuse(s)
    [] s.sec = "blanks" -> IF l.k = "blank" THEN s ELSE Vague(s)
    [] s.sec = "vel" -> IF l.k # "nums" THEN Refuse(s)
                        ELSE [s EXCEPT !.vel = Append(@, l.v), !.sec = IF Len(s.vel) + 1 = NIons(s) THEN "aftervel" ELSE "vel"]
    [] s.sec = "aftervel" -> IF l.k = "blank" THEN Go(s, "vpredfirst") ELSE Vague(s)
    [] s.sec = "vpredfirst" -> IF l.k = "nums" THEN [s EXCEPT !.hasPred = TRUE, !.pred = <<l.v>>, !.sec = IF NIons(s) = 1 THEN "rest" ELSE "pred"]
                               ELSE IF l.k = "blank" THEN Go(s, "blanks") ELSE Vague(s)
    [] s.sec = "pred" -> IF l.k # "nums" THEN Refuse(s)
                         ELSE [s EXCEPT !.pred = Append(@, l.v), !.sec = IF Len(s.pred) + 1 = NIons(s) THEN "rest" ELSE "pred"]

--------------------------------------------------------------------------------
(* exact linear algebra *)
Minor(L, a, b, i, j) == L[a][i] * L[b][j] - L[a][j] * L[b][i]
Det(L) == L[1][1] * Minor(L, 2, 3, 2, 3) - L[1][2] * Minor(L, 2, 3, 1, 3) + L[1][3] * Minor(L, 2, 3, 1, 2)
Cyc(i) == IF i = 3 THEN 1 ELSE i + 1
Cof(L, i, j) == L[Cyc(i)][Cyc(j)] * L[Cyc(Cyc(i))][Cyc(Cyc(j))] - L[Cyc(i)][Cyc(Cyc(j))] * L[Cyc(Cyc(i))][Cyc(j)]
Adj(L) == [i \in 1..3 |-> [j \in 1..3 |-> Cof(L, j, i)]]
VM(v, M) == [j \in 1..3 |-> v[1] * M[1][j] + v[2] * M[2][j] + v[3] * M[3][j]]
Times(v, k) == [j \in 1..3 |-> k * v[j]]
(* u: decimal unit of the value - p of a coordinate, l of the lattice, s of the scaling factor: "p", "sp", "spl", "p/l", "p/sl", "sl" *)
Q(n, d, u) == [n |-> n, d |-> d, u |-> u]

PosDirect(s, i) == IF s.frame = "direct" THEN Q(s.ps[i], 1, "p") ELSE Q(VM(s.ps[i], Adj(s.lat)), Det(s.lat), "p/l")
PosCart(s, i) == IF s.frame = "direct" THEN Q(Times(VM(s.ps[i], s.lat), s.sn), s.sd, "spl") ELSE Q(Times(s.ps[i], s.sn), s.sd, "sp")
VelDirect(s, i) == IF s.vframe = "direct" THEN Q(s.vel[i], 1, "p") ELSE Q(Times(VM(s.vel[i], Adj(s.lat)), s.sd), Det(s.lat) * s.sn, "p/sl")
VelCart(s, i) == IF s.vframe = "direct" THEN Q(Times(VM(s.vel[i], s.lat), s.sn), s.sd, "spl") ELSE Q(s.vel[i], 1, "p")

Complete == {"rest", "after", "predfirst", "blanks", "aftervel", "vpredfirst"}
Site(s, i) == [sp |-> s.names[SpeciesOf(s, i)], fl |-> s.fl[i], dir |-> PosDirect(s, i), cart |-> PosCart(s, i),
               hasVel |-> s.vframe # "none",
               vdir |-> IF s.vframe = "none" THEN Q(<<0, 0, 0>>, 1, "p") ELSE VelDirect(s, i),
               vcart |-> IF s.vframe = "none" THEN Q(<<0, 0, 0>>, 1, "p") ELSE VelCart(s, i),
               hasPred |-> s.hasPred, pred |-> IF s.hasPred THEN s.pred[i] ELSE <<0, 0, 0>>]
Proj(s) == IF s.vague \/ s.sec = "text" THEN [refused |-> FALSE, vague |-> TRUE]
           ELSE IF s.bad \/ s.sec \notin Complete THEN [refused |-> TRUE, vague |-> FALSE]
           ELSE [refused |-> FALSE, vague |-> FALSE, lat |-> [i \in 1..3 |-> Q(Times(s.lat[i], s.sn), s.sd, "sl")],
                 sites |-> [i \in 1..NIons(s) |-> Site(s, i)]]

--------------------------------------------------------------------------------
N == Len(doc) + 1
Vec == LET M(a, b) == a - b * (a \div b) IN <<M(N * 3, 7) - 2, 5 - N, M(N * N, 11) - 4>>
Nums(f) == [k |-> "nums", v |-> Vec, f |-> f]
Word(c) == [k |-> "word", c |-> c]
Blank == [k |-> "blank"]
Lattices == << << <<2, 1, 0>>, <<0, 3, 1>>, <<1, 0, 2>> >>,
               << <<0, 2, 2>>, <<2, 0, 2>>, <<2, 2, 0>> >>,
               << <<4, 0, 0>>, <<-1, 5, 0>>, <<2, -2, 3>> >>,
               << <<0, 0, -3>>, <<0, 2, 0>>, <<1, 0, 0>> >> >>
Fits(L) == SubSeq(Lattices[L], 1, Len(st.lat)) = st.lat
FlagSet == IF Size = 1 THEN { <<FALSE, TRUE, FALSE>>, <<TRUE, TRUE, FALSE>> } ELSE { <<b, c, ~b>> : b \in BOOLEAN, c \in BOOLEAN }
Scales == IF Size = 1 THEN { <<1, 1>>, <<5, 2>> } ELSE { <<1, 1>>, <<5, 2>>, <<3, 4>>, <<10, 1>> }
NameLists == { <<"Si">>, <<"In", "As">>, <<"O", "H", "O">> } \cup (IF Size = 1 THEN {} ELSE { <<"N", "N">>, <<"B", "C", "F">> })
CountLists == { <<1>>, <<2>>, <<1, 2>>, <<2, 1>>, <<1, 0, 2>>, <<1, 1, 1>> } \cup (IF Size = 1 THEN {} ELSE { <<3>>, <<1, 1>>, <<0, 2>>, <<2, 0, 1>>, <<0, 0, 2>> })

NextLines ==
  CASE st.sec = "comment" -> { [k |-> "text"] }
    [] st.sec = "scale" -> { [k |-> "scale", n |-> q[1], d |-> q[2]] : q \in Scales } \cup { [k |-> "scale", n |-> -1, d |-> 1] }
    [] st.sec = "vec" -> { [k |-> "vec", v |-> Lattices[L][Len(st.lat) + 1]] : L \in { M \in 1..NLat : Fits(M) } }
    [] st.sec = "names" -> { [k |-> "names", v |-> q] : q \in NameLists } \cup { [k |-> "counts", v |-> <<2>>] }
    [] st.sec = "counts" -> { [k |-> "counts", v |-> q] : q \in { c \in CountLists : Len(c) = Len(st.names) } }
    [] st.sec = "mode" -> { Word("s"), Word("d"), Word("c"), Word("k") }
    [] st.sec = "mode2" -> { Word("d"), Word("c") }
    [] st.sec = "pos" -> IF st.sel THEN { Nums(f) : f \in FlagSet } ELSE { Nums(<<>>) }
    [] st.sec = "after" -> { Blank, Word("d"), Word("c"), Word("x") }
    [] st.sec = "text" -> { Word("x"), Word("d") }
    [] st.sec = "predfirst" -> { Blank, Nums(<<>>), Word("d"), Word("x") }
    [] st.sec = "blanks" -> { Blank }
    [] st.sec = "vel" -> { Nums(<<>>) }
    [] st.sec = "aftervel" -> { Blank }
    [] st.sec = "vpredfirst" -> { Nums(<<>>), Blank }
    [] st.sec = "pred" -> { Nums(<<>>) }
    [] st.sec = "rest" -> IF st.bad \/ st.vague THEN (IF Len(doc) < 8 THEN { Word("d"), Nums(<<>>) } ELSE {}) ELSE { Blank }

InitMC == src = 0 /\ pos = 0 /\ doc = <<>> /\ st = St0
NextMC == /\ Len(doc) < MaxLen
          /\ \E l \in NextLines : doc' = Append(doc, l) /\ st' = Step(st, l)
          /\ UNCHANGED <<src, pos>>
SpecMC == InitMC /\ [][NextMC]_vars

Docs == ndJsonDeserialize(IOEnv.DOCS)
InitDocs == src \in 1..Len(Docs) /\ pos = 0 /\ doc = <<>> /\ st = St0
NextDocs == /\ pos < Len(Docs[src])
            /\ st' = Step(st, Docs[src][pos + 1])
            /\ pos' = pos + 1
            /\ UNCHANGED <<doc, src>>
SpecDocs == InitDocs /\ [][NextDocs]_vars

Emit == IF src = 0
        THEN Len(doc) < 8 \/ CSVWrite("%1$s", <<ToJson([src |-> 0, doc |-> doc, exp |-> Proj(st)])>>, IOEnv.OUT)
        ELSE pos = Len(Docs[src]) =>
             ndJsonSerialize(IOEnv.OUT \o "." \o ToString(src), <<[src |-> src, exp |-> Proj(st)]>>)

(* Meaning: by line numbers and by the law  direct * (scale * lattice) = cartesian  in both frames.  *)
Hist == IF src = 0 THEN doc ELSE SubSeq(Docs[src], 1, pos)
Law(dir, cart, s) == \A j \in 1..3 : VM(dir.n, s.lat)[j] * s.sn * cart.d = cart.n[j] * dir.d * s.sd
Meaning ==
  (src = 0 \/ pos = Len(Docs[src])) =>
  LET p == Proj(st) IN
  ~p.refused /\ ~p.vague =>
    LET off == IF Hist[8].c = "s" THEN 9 ELSE 8  n == Sum(Hist[7].v) IN
    /\ Len(p.sites) = n
    /\ \A i \in 1..n :
         LET t == p.sites[i]  own == Hist[off + i] IN
         /\ IF Hist[off].c = "d" THEN t.dir = Q(own.v, 1, "p") ELSE t.cart = Q(Times(own.v, st.sn), st.sd, "sp")
         /\ src = 0 => Law(t.dir, t.cart, st)
         /\ t.fl = IF off = 9 THEN own.f ELSE <<TRUE, TRUE, TRUE>>
         /\ i > 1 /\ p.sites[i - 1].sp # t.sp => \E k \in 1..Len(Hist[7].v) : i - 1 = Sum(SubSeq(Hist[7].v, 1, k))
         /\ t.hasVel = (Len(Hist) > off + n /\ Hist[off + n + 1].k = "word")
         /\ t.hasVel =>
              LET v == Hist[off + n + 1 + i].v IN
              /\ IF Hist[off + n + 1].c = "d" THEN t.vdir = Q(v, 1, "p") ELSE t.vcart = Q(v, 1, "p")
              /\ src = 0 => Law(t.vdir, t.vcart, st)
         /\ t.hasPred => LET after == IF t.hasVel THEN off + 2 * n + 2 ELSE off + n + 1 IN
                         Hist[after].k = "blank" /\ t.pred = Hist[after + i].v
         /\ ~t.hasPred /\ ~t.hasVel => Len(Hist) <= off + n + 1 \/ (Hist[off + n + 1].k = "blank" /\ Hist[off + n + 2].k = "blank")
    /\ \A k \in 1..Len(Hist[7].v) : Cardinality({ i \in 1..n : SpeciesOf(st, i) = k }) = Hist[7].v[k]
================================================================================
