---------------------------- MODULE PhaseSpace -----------------------------
(***************************************************************************)
(* Moments of a beam in a stack, exactly in whole numbers.  Lengths are    *)
(* whole, the scattering rate q of a slab is constant over its length L;   *)
(* its own contributions are qL, qL^2/2 and qL^3/3.  All moments are kept  *)
(* times six.                                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANTS Lengths, Rates, Beams, MaxSlabs      \* incoming moments are taken from Beams
BeamRange == -2..3

VARIABLES beam, n, len, in
vars == <<beam, n, len, in>>

Own(L, q) == <<2*q*L*L*L, 3*q*L*L, 6*q*L>>
Drift(b, L) == <<b[1] + 2*L*b[2] + L*L*b[3], b[2] + L*b[3], b[3]>>
Add(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
Through(b, L, q) == Add(Drift(b, L), Own(L, q))

AllBeams == {b \in Beams \X Beams \X Beams : b[1] >= 0 /\ b[3] >= 0 /\ b[1]*b[3] >= b[2]*b[2]}
Init == /\ in \in {<<6*b[1], 6*b[2], 6*b[3]>> : b \in AllBeams}
        /\ beam = in /\ n = 0 /\ len = 0
Pass(L, q) == /\ n < MaxSlabs
              /\ beam' = Through(beam, L, q)
              /\ n' = n + 1
              /\ len' = len + L
              /\ in' = in
Next == \E L \in Lengths, q \in Rates : Pass(L, q)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* a covariance matrix stays one
Positive == beam[1] >= 0 /\ beam[3] >= 0 /\ beam[1]*beam[3] >= beam[2]*beam[2]
\* angular variance only grows
AngleGrows == beam[3] >= in[3]
\* cutting a slab in two
Cutting == \A L \in Lengths, q \in Rates : \A a \in 0..L :
               Through(beam, L, q) = Through(Through(beam, a, q), L - a, q)
\* a slab without scattering is a free drift, also in several steps
FreeDrift == \A L \in Lengths : Through(beam, L, 0) = Drift(beam, L)
\* contributions of beam and material are additive
Additive == \A L \in Lengths, q \in Rates : Through(beam, L, q) = Add(Drift(beam, L), Through(<<0, 0, 0>>, L, q))
\* no scattering so far means the free drift over the length
Unscattered == (beam[3] = in[3]) => beam = Drift(in, len)
=============================================================================
