------------------------------ MODULE GenTotal ------------------------------
(* prints all combinations of the classes of arguments of a query *)
EXTENDS TLC, Json
VARIABLE c
Masses == {"nuclide", "light", "heavy", "none"}
Charges == {"neutral", "hydrogen", "tabulated", "last", "unknown", "far"}
Energies == {"zero", "negative", "below", "low", "mid", "high", "end", "beyond"}
Targets == {"light", "tabulated", "last", "unknown", "mixed", "massless", "chargeless", "empty"}
Thicknesses == {"zero", "thin", "mid", "thick"}
Init == c \in [a : Masses, z : Charges, t : Energies, m : Targets, th : Thicknesses]
Next == UNCHANGED c
Emit == PrintT(<<"BEHAVIOUR", ToJson(c)>>)
=============================================================================
