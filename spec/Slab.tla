------------------------------- MODULE Slab --------------------------------
(***************************************************************************)
(* Transport through a stack, with whole numbers: energies 0..N where 0 is *)
(* the lowest energy, and for every material an arbitrary strictly         *)
(* increasing range.  A layer is a material with a thickness for which the *)
(* energy behind it exists, or one that stops the projectile.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS N, MaxRange, Mats, MaxLayers

Energies == 0..N
RangeFns == {f \in [Energies -> 0..MaxRange] : f[0] = 0 /\ \A a \in 1..N : f[a-1] < f[a]}

VARIABLES R,        \* ranges of the materials
          start,    \* incoming energy
          hist,     \* layers with the energies before and behind
          loss      \* total energy loss
vars == <<R, start, hist, loss>>

\* energy behind a layer
Thicknesses(m, e) == {R[m][e] - R[m][a] : a \in 0..e} \cup {R[m][e] + 1, R[m][N] + 1}
Out(m, e, th) == IF th >= R[m][e] THEN 0 ELSE CHOOSE a \in 0..e : R[m][e] - R[m][a] = th
Representable(m, e, th) == th >= R[m][e] \/ \E a \in 0..e : R[m][e] - R[m][a] = th

Now == IF hist = <<>> THEN start ELSE hist[Len(hist)].out
Init == /\ R \in [Mats -> RangeFns]
        /\ start \in Energies
        /\ hist = <<>>
        /\ loss = 0
Pass(m, th) ==
    LET e == Now  o == Out(m, e, th) IN
    /\ Len(hist) < MaxLayers
    /\ hist' = Append(hist, [m |-> m, th |-> th, in |-> e, out |-> o])
    /\ loss' = loss + (e - o)
    /\ UNCHANGED <<R, start>>
Next == \E m \in Mats : \E th \in Thicknesses(m, Now) : Pass(m, th)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
TypeOK == Now \in Energies /\ loss \in Energies
Conservation == loss = start - Now
Layer(k) == hist[k]
Chained == \A k \in 2..Len(hist) : Layer(k).in = Layer(k-1).out
Bounded == \A k \in 1..Len(hist) : Layer(k).out \in 0..Layer(k).in
StopIffRange == \A k \in 1..Len(hist) : LET h == Layer(k) IN (h.out = 0) <=> (h.th >= R[h.m][h.in])
Balance == \A k \in 1..Len(hist) : LET h == Layer(k) IN h.out > 0 => R[h.m][h.in] - R[h.m][h.out] = h.th
StaysStopped == \A k \in 2..Len(hist) : Layer(k-1).out = 0 => Layer(k).out = 0
EmptyNoEffect == \A m \in Mats : Now > 0 => Out(m, Now, 0) = Now

\* cutting a layer changes nothing
Cutting == \A m \in Mats : \A t1 \in Thicknesses(m, Now) :
              LET e1 == Out(m, Now, t1) IN
              \A t2 \in Thicknesses(m, e1) :
                  Representable(m, Now, t1 + t2) =>
                  Out(m, e1, t2) = Out(m, Now, t1 + t2)
Monotonic == \A m \in Mats : \A t1, t2 \in Thicknesses(m, Now) : t1 <= t2 => Out(m, Now, t2) <= Out(m, Now, t1)
MonotonicEnergy == \A m \in Mats : \A e \in 0..Now : \A th \in Thicknesses(m, Now) :
                      Representable(m, e, th) => Out(m, e, th) <= Out(m, Now, th)
\* layers commute when they are of one material
Commute == \A m \in Mats : \A t1, t2 \in Thicknesses(m, Now) :
              LET a == Out(m, Now, t1)  b == Out(m, Now, t2) IN
              (Representable(m, a, t2) /\ Representable(m, b, t1)) => Out(m, a, t2) = Out(m, b, t1)
=============================================================================
