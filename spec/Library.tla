------------------------------ MODULE Library ------------------------------
(***************************************************************************)
(* The library as its users see it: queries through the C++ interface with *)
(* or without a configuration, through the C interface with its own        *)
(* default, and the settings and the cache that queries share.  The answer *)
(* to a query is the combination whose tables were used.                   *)
(*                                                                         *)
(* Same(a, b) decides whether two combinations are the same entry of the   *)
(* cache; the guarantees need it to be equality.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Items,           \* projectile and material
          Configs,         \* configurations
          CZs,             \* settings of the C interface
          Cap, MaxSteps, Sloppy

\* a configuration is its effective charge setting and the rest
TwoByTwo == {1, 2} \X {0, 1}

VARIABLES cache, def, cdef, ans, want, steps, was
vars == <<cache, def, cdef, ans, want, steps, was>>

Same(a, b) == IF Sloppy THEN a[1] = b[1] /\ a[2][1] = b[2][1] ELSE a = b
Insert(s, k) == IF Len(s) < Cap THEN Append(s, k) ELSE Append(Tail(s), k)
Lookup(key) == LET hits == {i \in DOMAIN cache : Same(cache[i], key)} IN
               IF hits = {} THEN <<Insert(cache, key), key>>
               ELSE <<cache, cache[CHOOSE i \in hits : \A j \in hits : i <= j]>>

Init == /\ cache = <<>> /\ def \in Configs /\ cdef \in CZs
        /\ ans = <<>> /\ want = <<>> /\ steps = 0 /\ was = def
Tick == steps < MaxSteps /\ steps' = steps + 1
Query(key) == LET r == Lookup(key) IN cache' = r[1] /\ ans' = r[2] /\ want' = key
\* the configuration passed governs
WithConfig(it, c) == Tick /\ Query(<<it, c>>) /\ was' = def /\ UNCHANGED <<def, cdef>>
\* the default configuration governs
NoConfig(it) == Tick /\ Query(<<it, def>>) /\ was' = def /\ UNCHANGED <<def, cdef>>
\* the C interface uses its own effective charge setting and standard scattering
CCall(it) == LET c == <<cdef, 0>> IN Tick /\ Query(<<it, c>>) /\ was' = def /\ def' = c /\ UNCHANGED cdef
SetDefault(c) == Tick /\ def' = c /\ ans' = <<>> /\ want' = <<>> /\ was' = c /\ UNCHANGED <<cache, cdef>>
SetC(z) == Tick /\ cdef' = z /\ ans' = <<>> /\ want' = <<>> /\ was' = def /\ UNCHANGED <<cache, def>>
ResetCache == Tick /\ cache' = <<>> /\ ans' = <<>> /\ want' = <<>> /\ was' = def /\ UNCHANGED <<def, cdef>>
CppQuery == \E it \in Items : NoConfig(it) \/ \E c \in Configs : WithConfig(it, c)
Next == \/ CppQuery
        \/ \E it \in Items : CCall(it)
        \/ \E c \in Configs : SetDefault(c)
        \/ \E z \in CZs : SetC(z)
        \/ ResetCache
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* every answer is that of the inputs, whatever happened before
OwnAnswer == ans = want
NoDuplicates == \A i, j \in DOMAIN cache : i # j => cache[i] # cache[j]
Bounded == Len(cache) <= Cap
DefaultKept == [][CppQuery => def' = def]_vars
=============================================================================
