---------------------------- MODULE LayersModel ----------------------------
(* all short programs over stacks *)
EXTENDS LayerStacks, FiniteSets
CONSTANTS Stacks, Materials, Ths, MaxSteps, MaxLen
VARIABLE n
vars == <<ls, mt, n>>
Init == /\ ls = [d \in Stacks |-> <<>>]
        /\ mt = [m \in Materials |-> [id |-> m, rho |-> 1, th |-> m]]
        /\ n = 0
Next == /\ n < MaxSteps /\ n' = n + 1
        /\ \E d \in Stacks :
             \/ NewStack(d)
             \/ \E m \in Materials : AddMaterial(d, m) \/ \E a \in Stacks : ConcatenateMaterial(d, a, m)
             \/ \E a \in Stacks : AddStack(d, a) \/ CopyStack(d, a) \/ \E b \in Stacks : Concatenate(d, a, b)
             \/ \E i \in DOMAIN ls[d] : AddOwnLayer(d, i) \/ \E v \in Ths : SetLayerThickness(d, i, v)
             \/ \E m \in Materials, v \in Ths : SetMaterialThickness(m, v)
        /\ \A d \in Stacks : Len(ls'[d]) <= MaxLen
Spec == Init /\ [][Next]_vars

RECURSIVE Total(_)
Total(s) == IF s = <<>> THEN 0 ELSE Head(s).th + Total(Tail(s))
Changed == {d \in Stacks : ls'[d] # ls[d]}
\* one object changes in a step; a stack that grows keeps what it had in front, or is built from values of the registers
OneOnly == [][Cardinality(Changed) + (IF mt' # mt THEN 1 ELSE 0) <= 1]_vars
\* layers come from the materials or from another layer, with a thickness that was set
FromSomewhere == [][\A d \in Stacks : \A i \in DOMAIN ls'[d] :
    \/ ls'[d][i].id \in Materials /\ (\E a \in Stacks : \E k \in DOMAIN ls[a] : ls[a][k].id = ls'[d][i].id)
    \/ \E m \in Materials : mt[m] = ls'[d][i]]_vars
Additive == [][\A d \in Stacks : Len(ls'[d]) > Len(ls[d]) /\ SubSeq(ls'[d], 1, Len(ls[d])) = ls[d]
                  => Total(ls'[d]) = Total(ls[d]) + Total(SubSeq(ls'[d], Len(ls[d]) + 1, Len(ls'[d])))]_vars
TypeOK == \A d \in Stacks : \A i \in DOMAIN ls[d] : ls[d][i].id \in Materials /\ ls[d][i].th \in Ths \cup Materials
=============================================================================
