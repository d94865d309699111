----------------------------- MODULE GenLayers -----------------------------
(* prints the programs of the stack machine *)
EXTENDS LayerStacks, TLC, Json
CONSTANTS Stacks, Materials, MaxSteps, MaxLen
VARIABLE h
Init == /\ ls = [d \in Stacks |-> <<>>] /\ mt = [m \in Materials |-> [id |-> m, rho |-> 1, th |-> m]] /\ h = <<>>
Log(op, d, a, b) == h' = Append(h, [op |-> op, d |-> d, a |-> a, b |-> b])
Busy(a) == ls[a] # <<>>
Next == /\ Len(h) < MaxSteps
        /\ \E d \in Stacks :
             \/ \E m \in Materials : \/ AddMaterial(d, m) /\ Log("addm", d, m, 0)
                                     \/ \E a \in Stacks : Busy(a) /\ ConcatenateMaterial(d, a, m) /\ Log("catm", d, a, m)
             \/ \E a \in Stacks : \/ Busy(a) /\ AddStack(d, a) /\ Log("addl", d, a, 0)
                                  \/ Busy(a) /\ a # d /\ CopyStack(d, a) /\ Log("copy", d, a, 0)
                                  \/ \E b \in Stacks : (Busy(a) \/ Busy(b)) /\ Concatenate(d, a, b) /\ Log("cat", d, a, b)
             \/ \E i \in DOMAIN ls[d] : i \in {1, Len(ls[d])} /\ \/ AddOwnLayer(d, i) /\ Log("addi", d, i - 1, 0)
                                                                 \/ SetLayerThickness(d, i, 7 + Len(h)) /\ Log("setth", d, i - 1, 0)
             \/ Busy(d) /\ \E m \in Materials : SetMaterialThickness(m, 7 + Len(h)) /\ Log("msetth", m, 0, 0)
        /\ \A d \in Stacks : Len(ls'[d]) <= MaxLen
Emit == (Len(h) = MaxSteps \/ \A d \in Stacks : Len(ls[d]) = MaxLen) => PrintT(<<"BEHAVIOUR", ToJson(h)>>)
=============================================================================
