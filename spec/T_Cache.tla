------------------------------ MODULE T_Cache ------------------------------
(***************************************************************************)
(* Recorded operations of the real cache (P03).  The state follows the     *)
(* actions of Cache.tla with the capacity the library reports.  Tables are *)
(* identified by a fingerprint; the one of a combination, computed alone   *)
(* in a new process, comes with the event as want.                         *)
(***************************************************************************)
EXTENDS TraceBase, Integers, FiniteSets

VARIABLES q,      \* stored fingerprints, oldest first
          cap,    \* capacity
          kept    \* references held: name -> fingerprint
tvars == <<l, q, cap, kept>>

RangeOf(s) == {s[i] : i \in DOMAIN s}
Insert(s, k) == IF Len(s) < cap THEN Append(s, k) ELSE Append(Tail(s), k)
Valid(qq) == [n \in {n \in DOMAIN kept : kept[n] \in RangeOf(qq)} |-> kept[n]]

Init0 == TraceInit /\ q = <<>> /\ cap = 0 /\ kept = <<>>

Begin(e) == q' = <<>> /\ cap' = 0 /\ kept' = <<>>
Capacity(e) == cap' = e.r.n /\ Chk("capacity is fixed", e.r.n > 0 /\ (cap # 0 => cap = e.r.n)) /\ UNCHANGED <<q, kept>>
Store(e) == IF e.want \in RangeOf(q) THEN q ELSE Insert(q, e.want)
Get(e) ==
    LET qq == Store(e) IN
    /\ Chk("tables of the combination asked for", e.r.h = e.want)
    /\ Chk("reference into the cache", e.r.slot >= 0)
    /\ Chk("capacity is fixed", e.r.n = cap)
    /\ q' = qq
    /\ kept' = IF "keep" \in DOMAIN e THEN (ToString(e.keep) :> e.want) @@ Valid(qq) ELSE Valid(qq)
    /\ UNCHANGED cap
    /\ Label(<<"get", e.want \in RangeOf(q), Len(q) = cap>>)
Add(e) ==
    LET qq == Store(e) IN
    /\ Chk("capacity is fixed", e.r.n = cap)
    /\ q' = qq /\ kept' = Valid(qq)
    /\ UNCHANGED cap
    /\ Label(<<"add", e.want \in RangeOf(q), Len(q) = cap>>)
Reset(e) == /\ Chk("capacity is fixed", e.r.n = cap)
            /\ q' = <<>> /\ kept' = <<>> /\ UNCHANGED cap /\ Label(<<"reset">>)
\* a reference to an entry that is still stored shows its tables
Ref(e) ==
    LET n == ToString(e.keep) IN
    /\ Chk("reference stays valid", n \in DOMAIN kept => e.r.h = kept[n])
    /\ UNCHANGED <<q, cap, kept>>
    /\ Label(<<"reference", n \in DOMAIN kept>>)
Dump(e) ==
    LET used == {i \in DOMAIN e.r.e : e.r.e[i].u} IN
    /\ Chk("bounded", Len(e.r.e) <= cap /\ Cardinality(used) = Len(q))
    /\ Chk("no combination twice", \A i, j \in used : i # j => e.r.e[i].h # e.r.e[j].h)
    /\ Chk("the combinations computed last", {e.r.e[i].h : i \in used} = RangeOf(q))
    /\ UNCHANGED <<q, cap, kept>>
    /\ Label(<<"contents", IF Len(q) = cap THEN "full" ELSE IF q = <<>> THEN "empty" ELSE "part">>)

Step(e) ==
    CASE e.op = "begin" -> Begin(e)
      [] e.op = "st_cap" -> Capacity(e)
      [] e.op = "st_get" -> Get(e)
      [] e.op = "st_add" -> Add(e)
      [] e.op = "st_reset" -> Reset(e)
      [] e.op = "st_ref" -> Ref(e)
      [] e.op = "st_dump" -> Dump(e)
TNext == Advance /\ Step(Event)
=============================================================================
