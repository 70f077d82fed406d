-------------------------------- MODULE Vasprun --------------------------------
(* Reading a vasprun.xml. The file is a sequence of tokens: open and close of the elements that        *)
(* structure it, and leafs, the smallest elements that hold values (n rows of c numbers, or one text). *)
(* A leaf is in the file as a whole or not at all; a file that is cut ends behind any token, the rest  *)
(* of the next one is not a token. Number (row r, column c) of the leaf that is token t of the file is *)
(* the identifier Cell(t, r, c). What a reader reports is the projection Proj(st) of the state.        *)
(* Elements: calc (calculation, an ionic step), sc (scstep), energy, struct, eig (eigenvalues), eigi   *)
(* and vel (eigenvalues and eigenvelocities on a separate k-point list, each with leafs kplist and     *)
(* weights), spin n, dos (a is its comment), total, partial, ion n, diel (dielectricfunction, a is its *)
(* comment), proj (projected), kset (the bands of a k-point), dynmat. Rows of eig and vel hold the     *)
(* bands of a k-point, rows of proj the atoms of a band, rows of dos the energies.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS Mode, MaxAtoms, MaxK, MaxB, MaxSteps, MaxSc

VARIABLES doc, st, src, pos
vars == <<doc, st, src, pos>>

Cell(t, r, c) == 1000000 * t + 100 * r + c
Names == {"SYMPREC", "ISMEAR", "SIGMA", "ISPIN", "NBANDS", "NELECT", "SYSTEM", "NELM", "NSW"}
Types == {"ext", "free", "noent"}
None == [has |-> FALSE]
Step0 == [cell |-> 0, pos |-> 0, forces |-> 0, stress |-> 0, sc |-> <<>>, fin |-> [y \in Types |-> 0], closed |-> FALSE]

St0 == [n |-> 0, stk |-> <<>>, buf |-> <<>>,
        ver |-> 0, div |-> 0, kp |-> 0, kw |-> 0, nk |-> 0,
        par |-> [p \in Names |-> 0], nb |-> 0, sp |-> 0, na |-> 0,
        steps |-> <<>>,
        eig |-> None, eigi |-> None, vel |-> None, proj |-> None, dos |-> None, dosi |-> None,
        diel |-> None, eps |-> 0, epsi |-> 0, born |-> 0, hess |-> 0, dyn |-> None,
        doubt |-> {}, dsteps |-> {}, done |-> FALSE]

--------------------------------------------------------------------------------
(* What a closed element means; b is the sequence of the leafs in it.                                  *)
Rows(b, part, u, i) == SelectSeq(b, LAMBDA e : e.t = "rows" /\ e.part = part /\ e.u = u /\ e.i = i)
Only(b, t) == SelectSeq(b, LAMBDA e : e.t = t)
TokOf(b, t) == LET o == Only(b, t) IN IF o = <<>> THEN 0 ELSE o[1].tok
CountOf(b, t) == LET o == Only(b, t) IN IF o = <<>> THEN 0 ELSE o[1].n
NSpin(b, part) == IF Rows(b, part, 2, 0) # <<>> THEN 2 ELSE 1

Bands(b, nk, nb) ==
  LET ns == NSpin(b, "")
      R == [u \in 1..ns |-> Rows(b, "", u, 0)] IN
  IF \E u \in 1..ns : Len(R[u]) # nk \/ \E k \in 1..Len(R[u]) : R[u][k].n # nb
  THEN [has |-> FALSE]
  ELSE LET c == R[1][1].c IN
       [has |-> TRUE, ns |-> ns, cols |-> c,
        v |-> [u \in 1..ns |-> [x \in 1..nb |-> [k \in 1..nk |-> [y \in 1..c |-> Cell(R[u][k].tok, x, y)]]]]]

(* the rows of proj: k-points, in each the bands, in each one row for each atom                        *)
Projectors(b, nk, nb, na) ==
  LET ns == NSpin(b, "")
      R == [u \in 1..ns |-> Rows(b, "", u, 0)] IN
  IF \E u \in 1..ns : Len(R[u]) # nk * nb \/ \E k \in 1..Len(R[u]) : R[u][k].n # na
  THEN [has |-> FALSE]
  ELSE LET c == R[1][1].c IN
       [has |-> TRUE, ns |-> ns, cols |-> c,
        v |-> [u \in 1..ns |-> [a \in 1..na |-> [x \in 1..nb |-> [k \in 1..nk |-> [y \in 1..c |->
                Cell(R[u][(k - 1) * nb + x].tok, a, y)]]]]]]

Dos(b, atoms) ==
  LET ns == NSpin(b, "total")
      (* a file that does not list its atoms holds as many as there are projections for *)
      Ions == { b[x].i : x \in 1..Len(b) }
      na == IF atoms # 0 \/ b = <<>> THEN atoms ELSE CHOOSE x \in Ions : \A y \in Ions : y <= x
      tot(u) == Rows(b, "total", u, 0)[1]
      ne == tot(1).n
      part == SelectSeq(b, LAMBDA e : e.part = "partial")
      P == [u \in 1..ns |-> [i \in 1..na |-> Rows(b, "partial", u, i)]] IN
  IF Rows(b, "total", 1, 0) = <<>> \/ \E u \in 1..ns : tot(u).n # ne THEN [has |-> FALSE]
  ELSE [has |-> TRUE, ns |-> ns, ef |-> TokOf(b, "efermi"), ne |-> ne,
        en |-> [x \in 1..ne |-> Cell(tot(1).tok, x, 1)],
        tot |-> [u \in 1..ns |-> [x \in 1..ne |-> Cell(tot(u).tok, x, 2)]],
        int |-> [u \in 1..ns |-> [x \in 1..ne |-> Cell(tot(u).tok, x, 3)]],
        (* a spin channel without projections of its own reports none *)
        part |-> [u \in 1..ns |-> IF part = <<>> \/ \E i \in 1..na : P[u][i] = <<>> THEN <<>>
                 ELSE [i \in 1..na |-> [x \in 1..ne |-> [y \in 1..(part[1].c - 1) |-> Cell(P[u][i][1].tok, x, 1 + y)]]]]]

Matrix(tok, n, c, from) == [x \in 1..n |-> [y \in 1..(c - from + 1) |-> Cell(tok, x, from + y - 1)]]

--------------------------------------------------------------------------------
Top(s) == IF s.stk = <<>> THEN "" ELSE s.stk[Len(s.stk)].t
InCalc(s) == Len(s.stk) >= 2 /\ s.stk[2].t = "calc"
Section(s) == IF InCalc(s) THEN (IF Len(s.stk) >= 3 THEN s.stk[3].t ELSE "") ELSE (IF Len(s.stk) >= 2 THEN s.stk[2].t ELSE "")
Index(s, t) == LET w == { i \in 1..Len(s.stk) : s.stk[i].t = t } IN IF w = {} THEN 0 ELSE s.stk[CHOOSE i \in w : TRUE].n
Part(s) == IF \E i \in 1..Len(s.stk) : s.stk[i].t = "total" THEN "total"
           ELSE IF \E i \in 1..Len(s.stk) : s.stk[i].t = "partial" THEN "partial" ELSE ""
Put(s, l) == [s EXCEPT !.buf = Append(@, [t |-> l.t, tok |-> s.n, n |-> l.n, c |-> l.c, a |-> l.a,
                                          u |-> Index(s, "spin"), i |-> Index(s, "ion"), part |-> Part(s)])]
(* the quantity a leaf belongs to, in which damage of the leaf may show                                *)
Owner(s, l) == CASE Section(s) \in {"kpoints", "parameters", "eig", "eigi", "vel", "proj", "diel", "dynmat"} -> Section(s)
                 [] Section(s) = "dos" -> IF s.stk[3].a = "" THEN "dos" ELSE "dosi"
                 [] Section(s) \in {"sc", "energy"} -> "energies"
                 [] OTHER -> l.t

LeafStep(s, l) ==
  CASE Section(s) = "initial" \/ Section(s) = "final" \/ l.t = "noise" -> s
    [] Section(s) \in {"eig", "eigi", "vel", "proj", "dos", "diel", "dynmat", "sc", "energy", "struct", "kpoints"} -> Put(s, l)
    [] l.t = "version" -> [s EXCEPT !.ver = s.n]
    [] l.t = "param" -> [s EXCEPT !.buf = Append(@, [t |-> l.a, tok |-> s.n, n |-> l.n])]
    [] l.t = "atoms" -> [s EXCEPT !.sp = s.n, !.na = l.n]
    [] l.t = "forces" -> [s EXCEPT !.steps = [@ EXCEPT ![Len(@)] = [@ EXCEPT !.forces = s.n]]]
    [] l.t = "stress" -> [s EXCEPT !.steps = [@ EXCEPT ![Len(@)] = [@ EXCEPT !.stress = s.n]]]
    [] l.t = "epsilon" -> [s EXCEPT !.eps = s.n]
    [] l.t = "epsion" -> [s EXCEPT !.epsi = s.n]
    [] l.t = "born" -> IF l.n = 3 * s.na THEN [s EXCEPT !.born = s.n] ELSE [s EXCEPT !.doubt = @ \cup {"born"}]
    [] OTHER -> s

Energies(b) == [y \in Types |-> LET o == SelectSeq(b, LAMBDA e : e.t = "ene" /\ e.a = y) IN IF o = <<>> THEN 0 ELSE o[1].tok]
Doubt(s, q) == [s EXCEPT !.doubt = @ \cup {q}]
Counts(s) == s.par["NBANDS"] # 0 /\ s.par["ISPIN"] # 0
(* a section that does not fit the file is not reported, nor is an earlier one in its place             *)
Reject(s, q) == [Doubt(s, q) EXCEPT ![q] = None]
Set(s, q, v) == IF ~v.has THEN Reject(s, q) ELSE [s EXCEPT ![q] = v]

(* the close of element t, whose leafs are s.buf                                                       *)
CloseStep(s, t, a) ==
  CASE t = "modeling" -> [s EXCEPT !.done = TRUE]
    [] t = "calc" -> [s EXCEPT !.steps = [@ EXCEPT ![Len(@)] = [@ EXCEPT !.closed = TRUE]]]
    [] t = "kpoints" -> [s EXCEPT !.kp = TokOf(s.buf, "kplist"), !.kw = TokOf(s.buf, "weights"), !.div = TokOf(s.buf, "div"),
                                  !.nk = CountOf(s.buf, "kplist")]
    [] t = "parameters" -> [s EXCEPT !.par = [p \in Names |-> TokOf(s.buf, p)], !.nb = CountOf(s.buf, "NBANDS")]
    [] t = "struct" -> [s EXCEPT !.steps = [@ EXCEPT ![Len(@)] = [@ EXCEPT !.cell = TokOf(s.buf, "basis"), !.pos = TokOf(s.buf, "pos")]]]
    [] t = "sc" -> [s EXCEPT !.steps = [@ EXCEPT ![Len(@)] = [@ EXCEPT !.sc = Append(@, Energies(s.buf))]]]
    [] t = "energy" -> IF Section(s) = "sc" THEN s ELSE [s EXCEPT !.steps = [@ EXCEPT ![Len(@)] = [@ EXCEPT !.fin = Energies(s.buf)]]]
    [] t = "eig" -> IF Counts(s) /\ s.kp # 0 THEN Set(s, "eig", Bands(s.buf, s.nk, s.nb)) ELSE Reject(s, "eig")
    [] t \in {"eigi", "vel"} ->
         LET v == Bands(s.buf, CountOf(s.buf, "kplist"), s.nb) IN
         IF Counts(s) /\ v.has
         THEN [s EXCEPT ![t] = [has |-> TRUE, ns |-> v.ns, cols |-> v.cols, v |-> v.v, kp |-> TokOf(s.buf, "kplist"), kw |-> TokOf(s.buf, "weights")]]
         ELSE Reject(s, t)
    [] t = "proj" -> IF Counts(s) /\ s.kp # 0 /\ s.sp # 0 THEN Set(s, "proj", Projectors(s.buf, s.nk, s.nb, s.na)) ELSE Reject(s, "proj")
    [] t = "dos" -> Set(s, IF a = "" THEN "dos" ELSE "dosi", Dos(s.buf, s.na))
    [] t = "diel" -> IF s.diel.has /\ s.diel.a = "density-density" /\ a # "density-density" THEN s
                     ELSE [s EXCEPT !.diel = [has |-> TRUE, a |-> a, n |-> CountOf(s.buf, "imag"), im |-> TokOf(s.buf, "imag"), re |-> TokOf(s.buf, "real")]]
    [] t = "dynmat" -> [s EXCEPT !.hess = TokOf(s.buf, "hessian"),
                                 !.dyn = IF TokOf(s.buf, "dyneval") = 0 THEN None
                                         ELSE [has |-> TRUE, val |-> TokOf(s.buf, "dyneval"), vec |-> TokOf(s.buf, "dynevec")]]
    [] OTHER -> s

(* elements whose leafs are collected until they close *)
Collectors == {"kpoints", "parameters", "struct", "sc", "eig", "eigi", "vel", "proj", "dos", "diel", "dynmat"}

StepTok(s0, l) ==
  LET s == [s0 EXCEPT !.n = @ + 1] IN
  CASE l.k = "open" ->
         LET p == [s EXCEPT !.stk = Append(@, [t |-> l.t, a |-> l.a, n |-> l.n])] IN
         IF l.t = "calc" THEN [p EXCEPT !.steps = Append(@, Step0), !.doubt = IF s.sp = 0 THEN @ \cup {"atoms"} ELSE @]
         ELSE IF l.t \in Collectors \/ (l.t = "energy" /\ Top(s) = "calc") THEN [p EXCEPT !.buf = <<>>] ELSE p
    [] l.k = "close" -> LET p == [s EXCEPT !.stk = SubSeq(@, 1, Len(@) - 1)] IN CloseStep(p, l.t, s.stk[Len(s.stk)].a)
    [] OTHER -> LET p == LeafStep(s, l) IN
                IF l.d THEN [p EXCEPT !.doubt = @ \cup {Owner(s, l)}, !.dsteps = @ \cup {Len(s.steps)}] ELSE p

--------------------------------------------------------------------------------
(* Selections over the ionic steps.                                                                    *)
With(s, q) == SelectSeq([n \in 1..Len(s.steps) |-> <<n, s.steps[n][q]>>], LAMBDA e : e[2] # 0)
Select(s, q) == LET w == With(s, q) IN
  IF w = <<>> THEN [has |-> FALSE] ELSE [has |-> TRUE, all |-> w, initial |-> w[1][2], last |-> w[Len(w)][2]]

Completed(s) == SelectSeq(s.steps, LAMBDA e : \A y \in Types : e.fin[y] # 0)
(* a step that ends with its final energy only by the cut may be left out                              *)
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))
Last1(q) == IF q = <<>> THEN <<>> ELSE <<q[Len(q)]>>
EnergiesOf(w, y, nosc) ==
  LET sc(e) == [i \in 1..Len(e.sc) |-> e.sc[i][y]]
      use(e) == IF nosc THEN Last1(sc(e)) ELSE sc(e) IN
  [vals |-> Flat([n \in 1..Len(w) |-> use(w[n])]), fin |-> [n \in 1..Len(w) |-> w[n].fin[y]],
   steps |-> [n \in 1..Len(w) |-> Len(use(w[n]))]]
EnergiesSel(s, sel) ==
  LET w == Completed(s)
      v == CASE sel = "all" -> w [] sel = "initial" -> <<w[1]>> [] OTHER -> <<w[Len(w)]>> IN
  [y \in Types |-> [full |-> EnergiesOf(v, y, FALSE), nosc |-> EnergiesOf(v, y, TRUE)]]

Proj(s) ==
  [done |-> s.done, doubt |-> s.doubt, dsteps |-> s.dsteps, open |-> Section(s), calc |-> InCalc(s), ncalc |-> Len(s.steps),
   ver |-> s.ver, div |-> s.div, kp |-> s.kp, kw |-> s.kw, par |-> s.par, sp |-> s.sp,
   sel |-> [q \in {"cell", "pos", "forces", "stress"} |-> Select(s, q)],
   energies |-> IF Completed(s) = <<>> THEN [has |-> FALSE]
                ELSE [has |-> TRUE, sel |-> [z \in {"all", "initial", "last"} |-> EnergiesSel(s, z)]],
   lastopen |-> IF s.steps = <<>> THEN FALSE ELSE ~s.steps[Len(s.steps)].closed,
   eig |-> s.eig, eigi |-> s.eigi, vel |-> s.vel, proj |-> s.proj, dos |-> s.dos, dosi |-> s.dosi,
   diel |-> IF ~s.diel.has THEN None
            ELSE [has |-> TRUE, en |-> [x \in 1..s.diel.n |-> Cell(s.diel.im, x, 1)],
                  im |-> Matrix(s.diel.im, s.diel.n, 7, 2), re |-> Matrix(s.diel.re, s.diel.n, 7, 2)],
   eps |-> s.eps, epsi |-> s.epsi, hess |-> s.hess, dyn |-> s.dyn,
   born |-> IF s.born = 0 THEN <<>> ELSE [i \in 1..s.na |-> [x \in 1..3 |-> [y \in 1..3 |-> Cell(s.born, 3 * (i - 1) + x, y)]]],
   (* complete leafs in a section that the end of the file left open may be reported *)
   may |-> IF Section(s) \in {"kpoints", "parameters", "struct"} /\ s.buf # <<>> THEN [i \in 1..Len(s.buf) |-> <<s.buf[i].t, s.buf[i].tok>>] ELSE <<>>]

--------------------------------------------------------------------------------
(* Files in sections.                                                                                  *)
Leaf(t, n, c) == [k |-> "leaf", t |-> t, a |-> "", n |-> n, c |-> c, d |-> FALSE]
LeafA(t, a, n) == [k |-> "leaf", t |-> t, a |-> a, n |-> n, c |-> 1, d |-> FALSE]
Open(t, a, n) == [k |-> "open", t |-> t, a |-> a, n |-> n, c |-> 0, d |-> FALSE]
Close(t) == [k |-> "close", t |-> t, a |-> "", n |-> 0, c |-> 0, d |-> FALSE]
Elem(t, a, n, inner) == <<Open(t, a, n)>> \o inner \o <<Close(t)>>
RECURSIVE Cat(_, _)
Cat(n, f) == IF n = 0 THEN <<>> ELSE Cat(n - 1, f) \o f[n]

Params(absent, nb, ns) ==
  Elem("parameters", "", 0,
       SelectSeq(<<LeafA("param", "SYSTEM", 0), LeafA("param", "NBANDS", nb), LeafA("param", "NELECT", 0), LeafA("param", "ISMEAR", 0),
                   LeafA("param", "SIGMA", 0), LeafA("param", "ISPIN", ns), LeafA("param", "NELM", 0), LeafA("param", "NSW", 0),
                   LeafA("param", "SYMPREC", 0)>>, LAMBDA e : e.a \notin absent))
KP(n, div) == Elem("kpoints", "", 0, (IF div THEN <<Leaf("div", 1, 3)>> ELSE <<>>) \o <<Leaf("kplist", n, 3), Leaf("weights", n, 1)>>)
Lattice(t, na) == Elem(t, "", 0, <<Leaf("basis", 3, 3), Leaf("pos", na, 3)>>)
Header(na, nk, nb, ns, absent, div, ver) ==
  <<Open("modeling", "", 0)>> \o (IF ver THEN <<Leaf("version", 1, 1)>> ELSE <<>>) \o <<Leaf("noise", 1, 1)>> \o KP(nk, div)
  \o Params(absent, nb, ns) \o <<Leaf("atoms", na, 1)>> \o Lattice("initial", na)
EnergySec == Elem("energy", "", 0, <<LeafA("ene", "free", 1), LeafA("ene", "noent", 1), LeafA("ene", "ext", 1)>>)
Sc == Elem("sc", "", 0, EnergySec)
Spins(ns, f) == Cat(ns, [u \in 1..ns |-> Elem("spin", "", u, f)])
Eig(ns, nk, nb, c) == Elem("eig", "", 0, Spins(ns, [k \in 1..nk |-> Leaf("rows", nb, c)]))
Separate(t, ns, nk, nb, c) == Elem(t, "", 0, <<Leaf("kplist", nk, 3), Leaf("weights", nk, 1)>> \o Spins(ns, [k \in 1..nk |-> Leaf("rows", nb, c)]))
ProjSec(ns, nk, nb, na, c) == Elem("proj", "", 0, Spins(ns, Cat(nk, [k \in 1..nk |-> Elem("kset", "", k, [x \in 1..nb |-> Leaf("rows", na, c)])])))
DosSec(a, ns, ne, na, c, np) ==
  Elem("dos", a, 0, <<Leaf("efermi", 1, 1)>> \o Elem("total", "", 0, Spins(ns, <<Leaf("rows", ne, 3)>>))
       \o (IF c = 0 THEN <<>> ELSE Elem("partial", "", 0, Cat(na, [i \in 1..na |-> Elem("ion", "", i, Spins(np, <<Leaf("rows", ne, c)>>))]))))
Diel(a, n) == Elem("diel", a, 0, <<Leaf("imag", n, 7), Leaf("real", n, 7)>>)
StepSec(na, nsc, str, rest) ==
  Elem("calc", "", 0, Cat(nsc, [i \in 1..nsc |-> Sc]) \o Lattice("struct", na) \o <<Leaf("forces", na, 3)>>
       \o (IF str THEN <<Leaf("stress", 3, 3)>> ELSE <<>>) \o EnergySec \o rest)

(* The choices of each mode: the sequence of pieces a file consists of.                                *)
FirstOf(P(_)) == LET i == CHOOSE i \in 1..Len(doc) : P(doc[i]) /\ \A j \in 1..(i - 1) : ~P(doc[j]) IN doc[i].n
NA == FirstOf(LAMBDA l : l.t = "atoms")
NK == FirstOf(LAMBDA l : l.t = "kplist")
NB == FirstOf(LAMBDA l : l.a = "NBANDS")
NS == FirstOf(LAMBDA l : l.a = "ISPIN")
NCalc == Cardinality({ i \in 1..Len(doc) : doc[i].k = "open" /\ doc[i].t = "calc" })
End == Lattice("final", NA) \o <<Close("modeling")>>
B == BOOLEAN

HeaderPieces ==
  CASE Mode = "steps" -> { Header(na, 1, 1, 1, {}, TRUE, TRUE) : na \in 1..MaxAtoms }
    [] Mode = "dos" -> { Header(na, 1, 1, ns, {}, TRUE, TRUE) : na \in 1..MaxAtoms, ns \in 1..2 }
    [] Mode = "resp" -> { Header(na, 2, 1, 1, ab, dv, vr) : na \in 1..MaxAtoms, dv \in B, vr \in B,
                          ab \in {{}, {"SYSTEM", "SYMPREC"}, {"NBANDS", "SIGMA"}} }
    [] Mode = "params" -> { Header(1, nk, 1, 1, ab, dv, vr) : nk \in 1..MaxK, ab \in SUBSET Names, dv \in B, vr \in B }
    [] OTHER -> { Header(na, nk, nb, ns, {}, TRUE, TRUE) : na \in 1..MaxAtoms, nk \in 1..MaxK, nb \in 1..MaxB, ns \in 1..2 }

CalcPieces ==
  CASE Mode = "steps" -> { StepSec(NA, n, sr, <<>>) : n \in 0..MaxSc, sr \in B } \cup { Elem("calc", "", 0, <<Leaf("noise", 1, 1)>>) }
    [] Mode = "bands" ->
         { StepSec(NA, 1, TRUE, x \o y) :
             x \in {<<>>} \cup { Separate("eigi", NS, n, NB, c) : n \in 1..MaxK, c \in 1..2 }
                          \cup { Separate("vel", NS, n, NB, 4) : n \in 1..MaxK },
             y \in {<<>>} \cup { Eig(NS, NK, NB, c) \o z : c \in 1..2, z \in {<<>>} \cup { ProjSec(NS, NK, NB, NA, o) : o \in {3, 9} } } }
    [] Mode = "dos" ->
         { StepSec(NA, 1, TRUE, x \o y) :
             x \in {<<>>} \cup { DosSec("interpolated", NS, n, NA, c, NS) : n \in {1, 3}, c \in {0, 4} },
             y \in {<<>>} \cup { DosSec("", NS, n, NA, c, np) : n \in 1..2, c \in {0, 4, 10}, np \in 1..NS } }
    [] Mode = "resp" ->
         { StepSec(NA, 1, TRUE, w \o x \o y \o z) :
             w \in {<<>>, <<Leaf("epsilon", 3, 3)>>, <<Leaf("epsion", 3, 3)>>, <<Leaf("epsilon", 3, 3), Leaf("noise", 1, 1), Leaf("epsion", 3, 3)>>},
             x \in {<<>>, Diel("", 2), Diel("density-density", 1), Diel("density-density", 2) \o Diel("current-current", 2),
                    Diel("current-current", 1) \o Diel("density-density", 2), Diel("", 1) \o Diel("", 1)},
             y \in {<<>>, <<Leaf("born", 3 * NA, 3)>>},
             z \in {<<>>, Elem("dynmat", "", 0, <<Leaf("hessian", 3 * NA, 3 * NA)>>),
                    Elem("dynmat", "", 0, <<Leaf("dyneval", 1, 3 * NA), Leaf("dynevec", 3 * NA, 3 * NA)>>),
                    Elem("dynmat", "", 0, <<Leaf("hessian", 3 * NA, 3 * NA), Leaf("dyneval", 1, 3 * NA), Leaf("dynevec", 3 * NA, 3 * NA)>>)} }
    [] OTHER -> {}
Pieces == IF doc = <<>> THEN HeaderPieces ELSE IF NCalc < MaxSteps THEN CalcPieces \cup {End} ELSE {End}

RECURSIVE Fold(_, _)
Fold(s, q) == IF q = <<>> THEN s ELSE Fold(StepTok(s, Head(q)), Tail(q))

InitMC == src = 0 /\ pos = 0 /\ doc = <<>> /\ st = St0
NextMC == /\ ~st.done
          /\ \E p \in Pieces : doc' = doc \o p /\ st' = Fold(st, p)
          /\ UNCHANGED <<src, pos>>
SpecMC == InitMC /\ [][NextMC]_vars

Docs == ndJsonDeserialize(IOEnv.DOCS)
InitDocs == src \in 1..Len(Docs) /\ pos = 0 /\ doc = <<>> /\ st = St0
NextDocs == /\ pos < Len(Docs[src])
            /\ st' = StepTok(st, Docs[src][pos + 1])
            /\ pos' = pos + 1
            /\ UNCHANGED <<doc, src>>
SpecDocs == InitDocs /\ [][NextDocs]_vars

(* every prefix of a document is a file that was cut                                                   *)
AtCut == IF Mode = "cut" THEN TRUE ELSE pos = Len(Docs[src])
Emit == IF src = 0
        THEN ~st.done \/ CSVWrite("%1$s", <<ToJson([src |-> 0, doc |-> doc, exp |-> Proj(st)])>>, IOEnv.OUT)
        ELSE AtCut =>
             ndJsonSerialize(IOEnv.OUT \o "." \o ToString(src) \o "." \o ToString(pos), <<[src |-> src, pos |-> pos, exp |-> Proj(st)]>>)

--------------------------------------------------------------------------------
(* Meaning, without the reader's state: where in the file the reported numbers stand.                  *)
Hist == IF src = 0 THEN doc ELSE Docs[src]
Here == IF src = 0 THEN Len(doc) ELSE pos
TokAt(c) == c \div 1000000
RowAt(c) == (c - 1000000 * TokAt(c)) \div 100
ColAt(c) == c - 1000000 * TokAt(c) - 100 * RowAt(c)
CloseOf(i) == LET w == { j \in (i + 1)..Here : Hist[j].k = "close" /\ Hist[j].t = Hist[i].t } IN
              IF w = {} THEN 0 ELSE CHOOSE j \in w : \A x \in w : j <= x
Closes == [i \in 1..Here |-> IF Hist[i].k = "open" THEN CloseOf(i) ELSE 0]
(* the complete elements t with comment a, as pairs of first and last token; C is Closes               *)
Elems(C, t, a) == { <<i, C[i]>> : i \in { j \in 1..Here : C[j] # 0 /\ Hist[j].t = t /\ Hist[j].a = a } }
LastOf(S) == CHOOSE e \in S : \A f \in S : f[1] <= e[1]
Between(i, e, t) == e[1] < i /\ i < e[2] /\ Hist[i].t = t
(* the innermost open element t around token i *)
Around(C, i, t) == LET w == { j \in 1..(i - 1) : C[j] > i /\ Hist[j].t = t } IN
                IF w = {} THEN 0 ELSE CHOOSE j \in w : \A x \in w : x <= j
Rank(i, j, t) == Cardinality({ x \in (j + 1)..i : Hist[x].k = "leaf" /\ Hist[x].t = t })
StepOf(i) == Cardinality({ x \in 1..i : Hist[x].k = "open" /\ Hist[x].t = "calc" })

BandMeaning(C, q, t) ==
  q.has => /\ Elems(C, t, "") # {}
           /\ \A u \in 1..q.ns, k \in 1..Len(q.v[1][1]) :
                LET i == TokAt(q.v[u][1][k][1])  sp == Around(C, i, "spin") IN
                /\ Between(i, LastOf(Elems(C, t, "")), "rows") /\ Hist[sp].n = u /\ Rank(i, sp, "rows") = k
                /\ \A b \in 1..Len(q.v[1]), y \in 1..q.cols : q.v[u][b][k][y] = Cell(i, b, y)
DosMeaning(C, q, a) ==
  q.has => LET e == LastOf(Elems(C, "dos", a))
               In(i, u, el) == Between(i, e, "rows") /\ Hist[Around(C, i, "spin")].n = u /\ Around(C, i, el) > e[1] IN
    /\ q.ef # 0 => Between(q.ef, e, "efermi")
    /\ Len(q.en) = q.ne
    /\ \A u \in 1..q.ns :
         LET i == TokAt(q.tot[u][1]) IN
         /\ In(i, u, "total")
         /\ \A x \in 1..q.ne : q.tot[u][x] = Cell(i, x, 2) /\ q.int[u][x] = Cell(i, x, 3) /\ (u = 1 => q.en[x] = Cell(i, x, 1))
    /\ Len(q.part) = q.ns
    /\ \A u \in 1..q.ns : q.part[u] = <<>> <=> ~\E t \in e[1]..e[2] : Hist[t].t = "rows" /\ Around(C, t, "partial") > e[1]
                                                                    /\ Hist[Around(C, t, "spin")].n = u
    /\ \A u \in 1..q.ns : \A i \in 1..Len(q.part[u]) :
         LET t == TokAt(q.part[u][i][1][1]) IN
         /\ In(t, u, "partial") /\ Hist[Around(C, t, "ion")].n = i
         /\ \A x \in 1..q.ne, y \in 1..Len(q.part[u][1][1]) : q.part[u][i][x][y] = Cell(t, x, y + 1)
SelMeaning(C, p) ==
  \A q \in {"cell", "pos", "forces", "stress"} :
    LET leaf == CASE q = "cell" -> "basis" [] OTHER -> q
        el == IF q \in {"cell", "pos"} THEN "struct" ELSE "calc"
        (* a structure counts when it is complete, the others when they are there *)
        there == { i \in 1..Here : Hist[i].k = "leaf" /\ Hist[i].t = leaf /\
                     IF el = "struct" THEN Around(C, i, "struct") # 0 ELSE StepOf(i) > 0 } IN
    /\ p.sel[q].has <=> there # {}
    /\ p.sel[q].has => /\ { p.sel[q].all[n][2] : n \in 1..Len(p.sel[q].all) } = there
                       /\ \A n \in 1..Len(p.sel[q].all) : p.sel[q].all[n][1] = StepOf(p.sel[q].all[n][2])
                       /\ \A i \in there : p.sel[q].initial <= i /\ i <= p.sel[q].last
(* every energy of a completed step is listed once, in the order of the file, under its step and type  *)
(* token i is inside an element t, complete or not *)
Inside(i, t) == Cardinality({ j \in 1..i : Hist[j].k = "open" /\ Hist[j].t = t }) > Cardinality({ j \in 1..i : Hist[j].k = "close" /\ Hist[j].t = t })
EnergyMeaning(C, p) ==
  p.energies.has =>
    LET all == { i \in 1..Here : Hist[i].k = "leaf" /\ Hist[i].t = "ene" }
        calcs == { i \in 1..Here : Hist[i].k = "open" /\ Hist[i].t = "calc" }
        so == [i \in all |-> Cardinality({ j \in calcs : j <= i })]
        isin == [i \in all |-> Inside(i, "sc")]
        inner == { i \in all : isin[i] }
        complete == { i \in all \ inner : Around(C, i, "energy") # 0 }
        done == { so[i] : i \in complete }
        E == [y \in Types |-> { i \in inner : Hist[i].a = y /\ so[i] \in done }] IN
    \A y \in Types :
      LET e == p.energies.sel["all"][y].full  f == p.energies.sel["all"][y].nosc  S == E[y] IN
      /\ { e.vals[i] : i \in 1..Len(e.vals) } = S /\ Len(e.vals) = Cardinality(S)
      /\ \A i \in 2..Len(e.vals) : e.vals[i - 1] < e.vals[i]
      /\ Len(e.fin) = Cardinality(done)
      /\ \A i \in 2..Len(e.fin) : so[e.fin[i - 1]] < so[e.fin[i]]
      /\ \A n \in 1..Len(e.fin) : e.fin[n] \in complete /\ Hist[e.fin[n]].a = y
                                  /\ e.steps[n] = Cardinality({ i \in S : so[i] = so[e.fin[n]] })
      /\ \A i \in 1..Len(f.vals) : \A j \in S : so[j] = so[f.vals[i]] => j <= f.vals[i]
      /\ p.energies.sel["last"][y].full.fin = <<e.fin[Len(e.fin)]>> /\ p.energies.sel["initial"][y].full.fin = <<e.fin[1]>>

Meaning ==
  (IF src = 0 THEN st.done ELSE AtCut) =>
  LET p == Proj(st)
      C == Closes IN
  /\ BandMeaning(C, p.eig, "eig") /\ BandMeaning(C, p.eigi, "eigi") /\ BandMeaning(C, p.vel, "vel")
  /\ p.proj.has => \A u \in 1..p.proj.ns, b \in 1..Len(p.proj.v[1][1]), k \in 1..Len(p.proj.v[1][1][1]) :
       LET i == TokAt(p.proj.v[u][1][b][k][1])  ks == Around(C, i, "kset") IN
       /\ Hist[Around(C, i, "spin")].n = u /\ Hist[ks].n = k /\ Rank(i, ks, "rows") = b
       /\ Between(i, LastOf(Elems(C, "proj", "")), "rows")
       /\ \A a \in 1..Len(p.proj.v[1]), y \in 1..p.proj.cols : p.proj.v[u][a][b][k][y] = Cell(i, a, y)
  /\ DosMeaning(C, p.dos, "") /\ DosMeaning(C, p.dosi, "interpolated")
  /\ SelMeaning(C, p) /\ EnergyMeaning(C, p)
  /\ p.dos.has => Elems(C, "dos", "") # {}
  /\ Elems(C, "dos", "") # {} /\ "dos" \notin p.doubt => p.dos.has
  /\ p.diel.has <=> (\E a \in {"", "density-density", "current-current"} : Elems(C, "diel", a) # {})
================================================================================
