------------------------------ MODULE T_Layers ------------------------------
(* recorded programs over stacks (P10): steps of LayerStacks.tla *)
EXTENDS TraceBase, Composition, LayerStacks

\* layers are recorded as proton numbers, density, thickness, molar mass, potential
SameLayer(x, y) == x.z = y.z /\ REq(x.rho, y.rho) /\ REq(x.th, y.th) /\ REq(x.M, y.M) /\ REq(x.I, y.I)
SameStack(s, t) == Len(s) = Len(t) /\ \A k \in 1..Len(s) : SameLayer(s[k], t[k])
Sum(s, f(_)) == RSum([k \in 1..Len(s) |-> f(s[k])])
Th(x) == x.th
Cm(x) == x.th (/) x.rho
Near(x, y) == RClose(x, y, R("1e-12"), R("1e-300"))
Shown(e) ==
    /\ Chk("materials keep their values", \A m \in DOMAIN mt' : SameLayer(mt'[m], e.r.M[m + 1]))
    /\ \A d \in DOMAIN ls' :
        /\ Chk("layers in order", SameStack(ls'[d], e.r.L[d + 1].l))
        /\ Chk("number of layers", e.r.L[d + 1].num = Len(ls'[d]))
        /\ Chk("total thickness", Near(e.r.L[d + 1].th, Sum(ls'[d], Th)))
        /\ Chk("total length", Near(e.r.L[d + 1].cm, Sum(ls'[d], Cm)))
\* the materials as they were given
Given(e, m) == LET x == MatOf(e.ms[m + 1]) r == e.r.M[m + 1] IN
    /\ Len(r.z) = N(x) /\ \A k \in 1..N(x) : r.z[k] = x.e[k].Z
    /\ REq(r.rho, x.rho) /\ REq(r.th, x.th) /\ REq(r.I, x.I)
Act(e) ==
    CASE e.op = "l_reset" -> /\ Chk("materials", \A m \in 0..(Len(e.ms) - 1) : Given(e, m))
                             /\ ls' = [d \in 0..(e.n - 1) |-> <<>>] /\ mt' = [m \in 0..(Len(e.ms) - 1) |-> e.r.M[m + 1]]
      [] e.op = "l_new" -> NewStack(e.d)
      [] e.op = "l_addm" -> AddMaterial(e.d, e.m)
      [] e.op = "l_addl" -> AddStack(e.d, e.a)
      [] e.op = "l_cat" -> Concatenate(e.d, e.a, e.b)
      [] e.op = "l_catm" -> ConcatenateMaterial(e.d, e.a, e.m)
      [] e.op = "l_copy" -> CopyStack(e.d, e.a)
      [] e.op = "l_addi" -> AddOwnLayer(e.d, e.i + 1)
      [] e.op = "l_setth" -> SetLayerThickness(e.d, e.i + 1, e.v)
      [] e.op = "l_setrho" -> SetLayerDensity(e.d, e.i + 1, e.v)
      [] e.op = "l_msetth" -> SetMaterialThickness(e.m, e.v)
Size(s) == IF Len(s) > 2 THEN "many" ELSE ToString(Len(s))
Step(e) ==
    IF e.op = "begin" THEN ls' = <<>> /\ mt' = <<>>
    ELSE /\ Act(e) /\ Shown(e)
         /\ Label(<<e.op, IF "d" \in DOMAIN e THEN Size(ls'[e.d]) ELSE "", IF "a" \in DOMAIN e THEN e.a = e.d ELSE FALSE>>)
Init0 == TraceInit /\ ls = <<>> /\ mt = <<>>
TNext == Advance /\ Step(Event)
=============================================================================
