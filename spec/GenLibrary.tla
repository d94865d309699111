---------------------------- MODULE GenLibrary -----------------------------
(* prints the sessions of the library machine *)
EXTENDS Library, TLC, Json
VARIABLE h
GInit == Init /\ def = <<1, 0>> /\ cdef = 1 /\ h = <<>>
Log(a, i, c) == h' = Append(h, [a |-> a, i |-> i, c |-> c])
GNext == \/ \E it \in Items : \/ NoConfig(it) /\ Log("plain", it, <<>>)
                              \/ CCall(it) /\ Log("c", it, <<>>)
                              \/ \E c \in Configs : WithConfig(it, c) /\ Log("with", it, c)
         \/ \E c \in Configs : SetDefault(c) /\ Log("setdef", 0, c)
         \/ \E z \in CZs : SetC(z) /\ Log("setc", z, <<>>)
         \/ ResetCache /\ Log("reset", 0, <<>>)
\* sessions that end with a query
Emit == (Len(h) = MaxSteps /\ h[MaxSteps].a \in {"plain", "c", "with"}) => PrintT(<<"BEHAVIOUR", ToJson(h)>>)
=============================================================================
