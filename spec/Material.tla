------------------------------ MODULE Material ------------------------------
(***************************************************************************)
(* Material objects as a state machine.  The objects are held in numbered  *)
(* registers; every action changes one of them.  Amounts of one or more    *)
(* are numbers of atoms, smaller ones weight fractions; a mass of zero is  *)
(* the natural atomic weight.  The molar mass grows with every constituent *)
(* added, is recomputed for weight fractions on request and can be given.  *)
(***************************************************************************)
EXTENDS Composition

VARIABLE ms             \* materials: register -> [e, rho, th, I, M]

Empty == [e |-> <<>>, rho |-> R("1e-5"), th |-> Zero, I |-> Zero, M |-> Zero]
Constituent(a, z, s) == [A |-> NaturalA(a, z), Z |-> z, stn |-> s]
With(m, x) == [m EXCEPT !.e = Append(@, x), !.M = @ (+) (x.stn (.) x.A)]
RECURSIVE WithAll(_, _)
WithAll(m, es) == IF es = <<>> THEN m ELSE WithAll(With(m, Head(es)), Tail(es))
Calculated(m) == IF AllByWeight(m.e) THEN [m EXCEPT !.M = WeightMolarMass(m.e)] ELSE m

Put(d, m) == ms' = [ms EXCEPT ![d] = m]

New(d) == Put(d, Empty)
\* one element: density, thickness and potential are the standard ones when not given
Element(d, a, z, rho, th, I) == Put(d, With([Empty EXCEPT !.rho = rho, !.th = th, !.I = I], Constituent(a, z, One)))
\* list of constituents; a molar mass of zero is derived
FromList(d, es, rho, I, mm) ==
    LET m == WithAll([Empty EXCEPT !.rho = rho, !.I = I], es) IN
    Put(d, IF RIsZero(mm) THEN Calculated(m) ELSE [m EXCEPT !.M = mm])
Copy(d, a) == Put(d, ms[a])
AddElement(d, x) == Put(d, With(ms[d], x))
Calculate(d) == ms[d].e # <<>> /\ Put(d, Calculated(ms[d]))
SetM(d, v) == Put(d, [ms[d] EXCEPT !.M = v])
SetDensity(d, v) == Put(d, [ms[d] EXCEPT !.rho = v])
SetThickness(d, v) == Put(d, [ms[d] EXCEPT !.th = v])
SetLength(d, v) == Put(d, [ms[d] EXCEPT !.th = ms[d].rho (.) v])
SetI(d, v) == Put(d, [ms[d] EXCEPT !.I = v])
=============================================================================
