----------------------------- MODULE T_Library -----------------------------
(***************************************************************************)
(* Recorded sessions of the whole library (P01, P02, P04, P05).  The state *)
(* follows Library.tla: the default configuration and the setting of the C *)
(* interface.  Each query carries the answer which a new process gives to  *)
(* the same query with the configuration under written out.                *)
(***************************************************************************)
EXTENDS TraceBase, Integers

VARIABLES def, cdef
Standard == <<1, 0, 1, 0, 255, <<1072693248, 0>>>>     \* configuration of a new process

LInit == TraceInit /\ def = Standard /\ cdef = 1
CQuery(e) == e.op \in {"c_calc", "c_eout", "c_range", "c_range_str", "c_ang", "c_en", "c_nonreaction"}

\* fields of the answer which the reference has as well
Agree(r, f) == \A x \in (DOMAIN r) \cap (DOMAIN f) : r[x] = f[x]
\* configuration of a C query: the C setting and standard scattering, the rest from the default
COf(e) == IF e.op = "c_nonreaction" THEN [def EXCEPT ![1] = cdef] ELSE [def EXCEPT ![1] = cdef, ![5] = 255]
Governing(e) == IF CQuery(e) THEN COf(e) ELSE IF e.c = <<>> THEN def ELSE e.c
ScatMatters(e) == e.op # "c_nonreaction"

Query(e) ==
    /\ Chk(<<"configuration of the reference", e.op>>,
           IF ScatMatters(e) THEN e.under = Governing(e) ELSE e.under[1] = cdef)
    /\ Chk(<<"same answer as in a new process", e.op>>, Agree(e.r, e.fresh))
    /\ def' = IF CQuery(e) THEN COf(e) ELSE def
    /\ UNCHANGED cdef
    /\ Label(<<e.op, IF CQuery(e) THEN "c" ELSE IF e.c = <<>> THEN "default" ELSE "given", e.tag>>)

Step(e) ==
    CASE e.op = "begin" -> def' = Standard /\ cdef' = 1
      [] e.op = "def_set" -> def' = e.c /\ Chk("default set", e.r.c = e.c) /\ UNCHANGED cdef
      [] e.op = "def_get" -> Chk("default unchanged", e.r.c = def) /\ UNCHANGED <<def, cdef>>
      [] e.op = "cfg_new" -> Chk("documented defaults", e.r.c = Standard) /\ UNCHANGED <<def, cdef>>
      [] e.op = "c_def" -> cdef' = e.z /\ UNCHANGED def
      [] e.op = "c_def_get" -> Chk("C setting unchanged", e.r.z = cdef) /\ UNCHANGED <<def, cdef>>
      [] e.op = "st_reset" -> UNCHANGED <<def, cdef>> /\ Label(<<"reset">>)
      [] e.op = "cfg_eq" -> Chk("equality of configurations", e.r.v <=> e.a = e.b) /\ UNCHANGED <<def, cdef>>
      [] OTHER -> Query(e)
TNext == Advance /\ Step(Event)
=============================================================================
