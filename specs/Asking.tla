------------------------------- MODULE Asking -------------------------------
(* Asking questions. Objects of all classes hold contents; a question has a name and what is chosen with *)
(* it (a selection, a type of energy, a tag). An answer is determined by the content and the question:   *)
(* not by what was asked before, of this object or of others, nor by how often. What was handed out stays *)
(* as it was while other questions are asked.                                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS MCKinds, MCSteps

VARIABLES objs, held, trail, src, pos
vars == <<objs, held, trail, src, pos>>

(* ------------------------------------------------------------------------------------ questions *)
Selections == {"all", "last", "initial", "first"}          \* the last one does not exist and is refused
Types == {"default", "energy_extrapolated", "energy_free", "energy_no_entropy",
          "energy_free+energy_extrapolated", "energy_total"}
XmlPlain == {"get_hessian", "get_dynmat", "get_dielectrics", "get_epsilon", "get_epsilon_ion", "get_fermi_level",
             "get_fermi_level_specific", "get_born", "get_species", "get_kpoints", "get_kpointsw", "get_dos",
             "get_dos_specific", "get_eigenvalues", "get_eigenvalues_specific", "get_eigenvelocities",
             "get_kpoints_specific", "get_kpointsw_specific", "get_occupancies", "get_projectors", "get_dict",
             "get_parameters", "get_version", "truncated"}
Xml == { << q >> : q \in XmlPlain }
       \cup { << q, s >> : q \in {"get_forces", "get_stress", "get_unitcell", "get_positions", "get_lattice"}, s \in Selections }
       \cup { << "get_energies", s, t, n >> : s \in Selections, t \in Types, n \in {"ends", "steps"} }
Incar == { << q >> : q \in {"get_dict", "get_string", "validate", "write", "write comments"} }
         \cup { << q, t >> : q \in {"get", "get comment"}, t \in {"encut", "ismear", "magmom", "nsw", "system", "rwigs", "nelm", "ENCUT"} }
Poscar == { << q >> : q \in {"get_string", "write"} } \cup { << "get_dict", d >> : d \in {"direct", "cartesian"} }
          \cup { << "get", t >> : t \in {"comment", "unitcell", "sites", "nothing"} }
Kpoints == { << q >> : q \in {"get_dict", "get_string", "write"} }
           \cup { << "get", t >> : t \in {"comment", "mode", "points", "divisions", "shifts", "tetra", "tetra_volume",
                                          "num_kpoints", "centering", "generating", "nothing"} }
Questions(kind) ==
  CASE kind \in {"xml", "xml-event"} -> Xml
    [] kind = "incar" -> Incar
    [] kind \in {"poscar", "poscar-cart"} -> Poscar
    [] kind \in {"kpoints-auto", "kpoints-explicit", "kpoints-line"} -> Kpoints
    [] kind = "outcar" -> { << q >> : q \in {"get_symmetry", "get_elastic_moduli", "get_magnetization", "get_run_stats", "get_run_status", "get_dict", "write"} }
    [] kind = "doscar" -> { << q >> : q \in {"get_metadata", "get_dos", "get_pdos", "write"} }
    [] kind = "eigenval" -> { << q >> : q \in {"get_metadata", "get_eigenvalues", "get_kpoints", "write"} }
    [] kind = "chgcar" -> { << q >> : q \in {"charge_density", "magnetization_density", "write"} }
    [] kind = "potcar" -> { << q >> : q \in {"symbol", "element", "functional", "functional_class", "metadata", "titel", "ENMAX", "Zval", "rwigs", "POMASS", "eatom", "rdep", "EAUG",
                                             "rpacor", "lexch", "step", "nothing", "write"} }
    [] kind = "stream" -> { << q >> : q \in {"entries", "has_entries", "number_of_entries", "kinds", "configured_streams", "text", "long text", "write"} }
Editable == {"incar", "poscar", "poscar-cart", "kpoints-auto", "kpoints-explicit", "kpoints-line"}

(* ---------------------------------------------------------------------------------------- steps *)
Edited(c) == CASE c = "a" -> "ae" [] c = "b" -> "be" [] OTHER -> c
Do(e) ==
  /\ trail' = Append(trail, e)
  /\ CASE e.k = "make" -> /\ objs' = Append(objs, [kind |-> e.kind, c |-> e.c]) /\ held' = held
       [] e.k = "ask" -> /\ objs' = objs
                         /\ held' = Append(held, [o |-> e.o, q |-> e.q, c |-> objs[e.o].c, firm |-> TRUE])
       (* what was handed out before an edit is not spoken of any more *)
       [] e.k = "edit" -> /\ objs' = [objs EXCEPT ![e.o].c = Edited(@)]
                          /\ held' = [n \in DOMAIN held |-> IF held[n].o = e.o THEN [held[n] EXCEPT !.firm = FALSE] ELSE held[n]]

Others(o) == { [k |-> "ask", o |-> o, q |-> q] : q \in Questions(objs[o].kind) }
             \cup (IF objs[o].kind \in Editable THEN {[k |-> "edit", o |-> o]} ELSE {})
InitMC == src = 0 /\ pos = 0 /\ objs = <<>> /\ held = <<>> /\ trail = <<>>
NextMC == /\ UNCHANGED <<src, pos>> /\ Len(trail) < MCSteps
          /\ IF trail = <<>> THEN \E kind \in MCKinds : Do([k |-> "make", kind |-> kind, c |-> "a"])
             ELSE \/ \E o \in 1..Len(objs) : \E e \in Others(o) : Do(e)
                  \/ Len(objs) = 1 /\ \E c \in {"a", "b"} : Do([k |-> "make", kind |-> objs[1].kind, c |-> c])
SpecMC == InitMC /\ [][NextMC]_vars
Docs == ndJsonDeserialize(IOEnv.DOCS)
InitDocs == src \in 1..Len(Docs) /\ pos = 0 /\ objs = <<>> /\ held = <<>> /\ trail = <<>>
NextDocs == pos < Len(Docs[src]) /\ Do(Docs[src][pos + 1]) /\ pos' = pos + 1 /\ UNCHANGED src
SpecDocs == InitDocs /\ [][NextDocs]_vars
Done == IF src = 0 THEN Len(trail) = MCSteps ELSE pos = Len(Docs[src])

(* -------------------------------------------------------------------------------------- meaning *)
(* the content of object o after n steps, from the steps that concern it alone *)
Births == SelectSeq([n \in 1..Len(trail) |-> n], LAMBDA n : trail[n].k = "make")
RECURSIVE Content(_, _)
Content(o, n) == IF n = Births[o] THEN trail[n].c
                 ELSE LET before == Content(o, n - 1) IN
                      IF trail[n].k = "edit" /\ trail[n].o = o THEN Edited(before) ELSE before
Asked == SelectSeq([n \in 1..Len(trail) |-> n], LAMBDA n : trail[n].k = "ask")
(* every answer is the one of the content at that time, whatever else was asked *)
Determined == /\ Len(held) = Len(Asked)
              /\ \A a \in DOMAIN held : /\ held[a].o = trail[Asked[a]].o /\ held[a].q = trail[Asked[a]].q
                                        /\ held[a].c = Content(held[a].o, Asked[a])
(* equal questions about equal contents have equal answers; asking leaves the content alone *)
Repeatable == \A a, b \in DOMAIN held :
  held[a].o = held[b].o /\ held[a].q = held[b].q /\ held[a].firm /\ held[b].firm => held[a].c = held[b].c
Kept == \A o \in 1..Len(objs) : objs[o].c = Content(o, Len(trail))
Possible == \A a \in DOMAIN held : held[a].q \in Questions(objs[held[a].o].kind)
Meaning == Determined /\ Repeatable /\ Kept /\ Possible
Record == [src |-> src, trail |-> trail, held |-> held, objs |-> objs]
(* after the history every object is asked everything *)
Catalogue == src = 0 /\ trail = <<>> => ndJsonSerialize(IOEnv.OUT \o ".0", << [catalogue |-> [kind \in MCKinds |-> Questions(kind)]] >>)
Emit == Done => IF src = 0 THEN CSVWrite("%1$s", << ToJson(Record) >>, IOEnv.OUT)
                ELSE ndJsonSerialize(IOEnv.OUT \o "." \o ToString(src), << Record >>)
=============================================================================
