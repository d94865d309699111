---------------------------- MODULE LayerStacks ----------------------------
(***************************************************************************)
(* Stacks of layers as values.  Stacks and single materials are held in    *)
(* numbered registers; layers are records with rho and th among others.    *)
(***************************************************************************)
EXTENDS Sequences, Integers
VARIABLES ls,           \* stacks: register -> sequence of layers
          mt            \* materials: register -> layer
PutL(d, s) == ls' = [ls EXCEPT ![d] = s] /\ UNCHANGED mt

NewStack(d) == PutL(d, <<>>)
AddMaterial(d, m) == PutL(d, Append(ls[d], mt[m]))
AddStack(d, a) == PutL(d, ls[d] \o ls[a])                 \* also a = d
Concatenate(d, a, b) == PutL(d, ls[a] \o ls[b])
ConcatenateMaterial(d, a, m) == PutL(d, Append(ls[a], mt[m]))
CopyStack(d, a) == PutL(d, ls[a])
AddOwnLayer(d, i) == i \in DOMAIN ls[d] /\ PutL(d, Append(ls[d], ls[d][i]))
SetLayerThickness(d, i, v) == i \in DOMAIN ls[d] /\ PutL(d, [ls[d] EXCEPT ![i].th = v])
SetLayerDensity(d, i, v) == i \in DOMAIN ls[d] /\ PutL(d, [ls[d] EXCEPT ![i].rho = v])
SetMaterialThickness(m, v) == mt' = [mt EXCEPT ![m].th = v] /\ UNCHANGED ls
=============================================================================
