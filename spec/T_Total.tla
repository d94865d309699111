------------------------------ MODULE T_Total ------------------------------
(***************************************************************************)
(* Queries with arguments of every class (P32), executed by two programs:  *)
(* the usual one, and one that stops at any access outside of an array or  *)
(* undefined arithmetic and starts with other contents of fresh memory.    *)
(* v holds both results.  known tells that all elements are tabulated and  *)
(* the energy is inside of the energy grid.                                *)
(***************************************************************************)
EXTENDS TraceBase, Composition

Eq(x, y) == (RIsNaN(x) /\ RIsNaN(y)) \/ REq(x, y) \/ RClose(x, y, R("1e-9"), Zero)
Record(a, b) == DOMAIN a = DOMAIN b /\ \A f \in DOMAIN a : Eq(a[f], b[f])
Stack(a, b) == Len(a.l) = Len(b.l) /\ (\A i \in DOMAIN a.l : Record(a.l[i], b.l[i])) /\ Record(a.t, b.t)
\* -1: the survival probability is not defined below its lowest energy
Defined(r) == \A f \in DOMAIN r : RFinite(r[f]) /\ (f # "cov" => Zero \preceq r[f] \/ REq(r[f], R(-1)))

Queries(e) ==
    /\ Chk("every query is answered", Len(e.v[1].rs) = Len(e.cmds) /\ Len(e.v[2].rs) = Len(e.cmds))
    /\ \A k \in DOMAIN e.cmds :
         LET a == e.v[1].rs[k]  b == e.v[2].rs[k]  op == e.cmds[k].op IN
         /\ Chk(<<"result depends on its arguments only", op>>, IF op = "st_reset" THEN a = b ELSE IF "l" \in DOMAIN a THEN Stack(a, b) ELSE Record(a, b))
         /\ Chk(<<"defined for tabulated elements", op>>, (e.known /\ op \in {"range", "eout", "calc", "dedx", "dedx_r", "nonreaction"}) => Defined(a))
    /\ Label(<<"total", e.class.z, e.class.t, e.class.m, e.known>>)
LookUp(e) == Chk(<<"look-up", e.op>>, e.v[1] = e.v[2]) /\ Label(<<"look-up", e.op>>)
Step(e) == IF e.op = "seq" THEN Queries(e) ELSE LookUp(e)
Next == Advance /\ Step(Event)
=============================================================================
