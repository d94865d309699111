----------------------------- MODULE TraceBase -----------------------------
(***************************************************************************)
(* Checking of recorded traces.  A module that extends this one defines a  *)
(* step for every kind of event; the trace is accepted when each of its    *)
(* events is a step of the specification.  Named clauses tell which        *)
(* requirement an event breaks, labels tell which cases were exercised.    *)
(***************************************************************************)
EXTENDS TLC, Json, IOUtils, Sequences, Naturals

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLE l                     \* index of the next event

\* requirement with a name, reported when it does not hold
Chk(name, holds) == IF holds THEN TRUE ELSE PrintT(<<"CLAUSE-FAILED", name, l>>) /\ "VERIF_ALL" \in DOMAIN IOEnv

\* case exercised by the trace
Label(x) == TLCSet(1, TLCGet(1) \cup {x})

TraceInit == l = 1 /\ TLCSet(1, {})
Event == Trace[l]
Advance == l <= Len(Trace) /\ l' = l + 1

Accepted ==
    LET d == TLCGet("stats").diameter - 1 IN
    /\ PrintT(<<"LABELS", TLCGet(1)>>)
    /\ IF d = Len(Trace) THEN PrintT(<<"ACCEPTED", d, Len(Trace)>>)
       ELSE PrintT(<<"REJECTED", d + 1, Len(Trace)>>)
=============================================================================
