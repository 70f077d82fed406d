------------------------------ MODULE Report ------------------------------
(* Who is told about what is refused. Objects are made from good and bad sources and used, each with  *)
(* the logger of a user or with the one of its own class; whatever is refused with one of the exit    *)
(* codes is reported, with the text that belongs to the code, to the logger of that object and to no  *)
(* other.                                                                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS MaxLen, MCKinds

VARIABLES objs, logs, trail, src, pos
vars == <<objs, logs, trail, src, pos>>

Kinds == {"incar", "poscar", "kpoints", "outcar", "doscar", "eigenval", "chgcar", "potcar", "stream", "xml", "xml-event", "item", "files"}
Classes == {"incar", "poscar", "kpoints", "outcar", "doscar", "eigenval", "chgcar", "potcar", "stream", "xml", "item", "files"}
ClassOf(c) == IF c = "xml-event" THEN "xml" ELSE c
(* entries of INCAR and the helpers on files are not parsers, they have no logger of their own *)
Loggers(c) == IF c \in {"item", "files"} THEN {"a", "b"} ELSE {"own", "a", "b"}
Target(c, l) == IF l = "own" THEN "own " \o ClassOf(c) ELSE l
AllLogs == {"a", "b"} \cup { "own " \o c : c \in Classes }

(* how an object can be asked for, and the exit code: 0 is fine *)
IsXml(c) == c \in {"xml", "xml-event"}
Writer(c) == c \in {"incar", "poscar", "kpoints"}
Parser(c) == c \notin {"item", "files"}
Usage(c) == IF ~Parser(c) THEN {}
            ELSE { << "two", IF IsXml(c) THEN 510 ELSE 10 >>, << "missing", 14 >>, << "folder", 14 >> }
                 \cup (IF c = "potcar" THEN {} ELSE { << "none", IF IsXml(c) THEN 510 ELSE 10 >> })
Content(c) ==
  CASE c = "incar" -> { << "two equals", 101 >>, << "no sign", 102 >>, << "hashes", 103 >>, << "mixed", 104 >>,
                        << "mixed given", 104 >>, << "type", 105 >>, << "sign", 106 >>, << "unknown", 100 >>,
                        << "unknown given", 100 >> }
    [] c = "poscar" -> { << "scaling", 307 >>, << "four", 301 >>, << "velocities", 302 >>, << "no cell", 12 >>,
                         << "no comment", 12 >>, << "no sites", 12 >>, << "site untold", 12 >>, << "cell", 13 >>,
                         << "comment", 13 >>, << "sites", 13 >>, << "site", 13 >> }
    [] c = "kpoints" -> { << "cartesian", 200 >>, << "line cartesian", 200 >>, << "five", 201 >>, << "automatic", 202 >>,
                          << "expert", 203 >>, << "nothing", 206 >>, << "mode", 213 >>, << "centering", 212 >>,
                          << "object", 210 >>, << "four given", 201 >> }
                        \cup { << k, 12 >> : k \in {"no comment", "no points", "no shifts", "no tetra_volume", "no divisions",
                                                   "no generating_vectors", "no tetra", "no centering", "no num_kpoints", "no mode"} }
                        \cup { << k, 13 >> : k \in {"bad comment", "bad points", "bad shifts", "bad tetra_volume", "bad divisions",
                                                   "bad generating_vectors", "bad tetra", "bad num_kpoints"} }
    [] c = "outcar" -> { << "no steps", 600 >> }
    [] IsXml(c) -> { << "element", 506 >>, << "no spins", 502 >>, << "no bands", 503 >>, << "bands", 505 >>, << "force stars", 509 >>,
                     << "energy stars", 509 >>, << "number stars", 509 >> }
                   \cup (IF c = "xml" THEN {} ELSE { << "no atoms", 501 >>, << "two fermi", 500 >> })
    [] c = "item" -> { << "mixed", 104 >>, << "type", 105 >>, << "sign", 106 >>, << "lines", 106 >> }
    [] OTHER -> {}
Good(c) == IF Parser(c) THEN { << "path", 0 >>, << "handler", 0 >> }
                             \cup (IF c = "outcar" THEN { << "warned", 0 >> } ELSE {})
                             \cup (IF c = "incar" THEN { << "twice", 0 >> } ELSE {})
           ELSE { << "plain", 0 >> }
Asks(c) == Good(c) \cup Usage(c) \cup Content(c)

(* how an object can be used *)
Uses(c) ==
  (IF Writer(c) THEN { << "write to path", 0 >>, << "write to handler", 0 >>, << "write missing", 14 >> } ELSE {})
  \cup (IF Parser(c) THEN { << "write none", 10 >>, << "write two", 10 >> } ELSE {})
  \cup (CASE c = "incar" -> { << "modify", 0 >>, << "modify mixed", 104 >>, << "modify type", 105 >>, << "modify sign", 106 >> }
          [] c = "poscar" -> { << "modify", 0 >>, << "modify entry", 305 >>, << "modify cell", 13 >>, << "modify none", 13 >>,
                               << "modify number", 13 >>, << "modify site", 13 >>, << "delete far", 304 >>,
                               << "modify far", 304 >>, << "delete word", 13 >> }
          [] c = "kpoints" -> { << "modify", 0 >>, << "modify entry", 207 >>, << "modify shifts", 13 >>, << "modify none", 13 >>,
                                << "modify number", 13 >>, << "modify mode", 213 >>, << "modify centering", 212 >>,
                                << "delete far", 211 >>, << "modify far", 211 >>, << "modify cartesian", 205 >>,
                                << "points cartesian", 205 >>, << "modify object", 210 >>, << "points object", 210 >> }
          [] IsXml(c) -> { << "get", 0 >>, << "status", 507 >>, << "energies status", 507 >>, << "forces status", 507 >>,
                           << "stress status", 507 >> }
          [] c = "files" -> { << "open missing", 14 >>, << "read missing", 14 >>, << "close nothing", 15 >>, << "no path", 16 >>,
                              << "read", 0 >> }
          [] c = "item" -> { << "get", 0 >> }
          [] OTHER -> { << "get", 0 >> })

Begin == /\ objs = <<>> /\ logs = [l \in AllLogs |-> <<>>] /\ trail = <<>>
Tell(l, code) == IF code = 0 THEN logs ELSE [logs EXCEPT ![l] = Append(@, code)]
(* an object that is refused is not there to be used: "gone" *)
Make(c, l, ask) ==
  /\ objs' = Append(objs, [c |-> c, l |-> Target(c, l), gone |-> ask[2] # 0])
  /\ logs' = Tell(Target(c, l), ask[2])
  /\ trail' = Append(trail, [do |-> "make", c |-> c, l |-> l, how |-> ask[1], code |-> ask[2], i |-> Len(objs) + 1, log |-> Target(c, l)])
Use(i, use) ==
  /\ ~objs[i].gone
  /\ objs' = objs
  /\ logs' = Tell(objs[i].l, use[2])
  /\ trail' = Append(trail, [do |-> "use", c |-> objs[i].c, l |-> "-", how |-> use[1], code |-> use[2], i |-> i, log |-> objs[i].l])

InitMC == Begin /\ src = 0 /\ pos = 0
NextMC == /\ Len(trail) < MaxLen
          /\ \/ \E c \in MCKinds : \E l \in Loggers(c) : \E ask \in Asks(c) : Make(c, l, ask)
             \/ \E i \in DOMAIN objs : \E use \in Uses(objs[i].c) : Use(i, use)
          /\ UNCHANGED <<src, pos>>
SpecMC == InitMC /\ [][NextMC]_vars

(* histories supplied from outside: [do, c, l, how, i]; the code is looked up here *)
Docs == ndJsonDeserialize(IOEnv.DOCS)
DocAt(n) == Docs[n]
InitDocs == Begin /\ src \in 1..Len(Docs) /\ pos = 0
NextDocs == /\ pos < Len(DocAt(src))
            /\ pos' = pos + 1 /\ src' = src
            /\ LET s == DocAt(src)[pos + 1] IN
               IF s.do = "make"
               THEN \E ask \in Asks(s.c) : ask[1] = s.how /\ Make(s.c, s.l, ask)
               ELSE IF objs[s.i].gone THEN UNCHANGED <<objs, logs, trail>>
               ELSE \E use \in Uses(objs[s.i].c) : use[1] = s.how /\ Use(s.i, use)
SpecDocs == InitDocs /\ [][NextDocs]_vars

(* every refusal is in exactly one log, the one of the object it happened to, in order *)
CodesFor(l) == LET mine == SelectSeq(trail, LAMBDA t : t.log = l /\ t.code # 0) IN [n \in DOMAIN mine |-> mine[n].code]
Told == \A l \in AllLogs : logs[l] = CodesFor(l)
(* what one user is told depends on the objects that have the logger of that user only *)
Apart == \A l \in AllLogs : logs[l] # <<>> => \E i \in DOMAIN objs : objs[i].l = l
(* the text of a code is the same whoever reports it; a code belongs to one class, or to all *)
Range(code) == CASE code \in 10..16 -> Classes \ {"item"} [] code \in 100..103 -> {"incar"} [] code \in 104..106 -> {"incar", "item"}
                 [] code \in 200..299 -> {"kpoints"} [] code \in 300..399 -> {"poscar"} [] code \in 500..599 -> {"xml"}
                 [] code = 600 -> {"outcar"}
Codes == \A n \in DOMAIN trail : trail[n].code = 0 \/ ClassOf(trail[n].c) \in Range(trail[n].code)

Done == IF src = 0 THEN TRUE ELSE pos = Len(DocAt(src))
Lengths == [l \in AllLogs |-> Len(logs[l])]
Record == [src |-> src, doc |-> trail, lengths |-> Lengths]
Emit == (Done /\ trail # <<>>) =>
          IF src = 0 THEN CSVWrite("%1$s", << ToJson(Record) >>, IOEnv.OUT)
          ELSE ndJsonSerialize(IOEnv.OUT \o "." \o ToString(src), << Record >>)
=============================================================================
