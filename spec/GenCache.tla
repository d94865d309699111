----------------------------- MODULE GenCache ------------------------------
(* prints the programs of the cache machine, one of each up to renaming of combinations *)
EXTENDS Cache, TLC, Json

VARIABLE h
Used == {h[i].k : i \in {j \in DOMAIN h : h[j].a = "get"}}
GInit == Init /\ h = <<>>
GNext == \/ Reset /\ h # <<>> /\ h[Len(h)].a # "reset" /\ h' = Append(h, [a |-> "reset", k |-> 0])
         \/ \E k \in Keys : k <= Cardinality(Used) + 1 /\ Get(k) /\ h' = Append(h, [a |-> "get", k |-> k])
Emit == Len(h) = MaxSteps => PrintT(<<"BEHAVIOUR", ToJson(h)>>)
=============================================================================
