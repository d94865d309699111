----------------------------- MODULE Calculator -----------------------------
(***************************************************************************)
(* Meaning of a configuration file of the calculator.  A file is described *)
(* by the form of its fields and their values:                             *)
(*   proj  [k: "array" | other forms, A, Z]                                *)
(*   en    [k: "number" | "string" | "list" | "step" | "num" | other, ...] *)
(*   ms    [k: "object" | "list" | other, l: entries]                      *)
(*   conf  name of the configuration or ""                                 *)
(* Optional values are empty sequences when they are left out.             *)
(***************************************************************************)
EXTENDS Composition

Given(x) == Len(x) > 0

(* energies in the order of the output *)
Count(en) == IF en.k = "num" THEN en.num ELSE 1 + RToInt(((en.max (-) en.min) (/) en.step) (+) R("1e-6"))
Spread(lo, hi, n) == [i \in 1..n |-> IF i = n THEN hi ELSE lo (+) (((hi (-) lo) (.) R(i - 1)) (/) R(n - 1))]
Energies(en) ==
    CASE en.k \in {"number", "string"} -> <<en.v>>
      [] en.k = "list" -> en.l
      [] en.k \in {"step", "num"} -> IF Count(en) >= 2 THEN Spread(en.min, en.max, Count(en)) ELSE <<>>
      [] OTHER -> <<>>

(* an entry of the material field; Z from 200 up are predefined compounds *)
EntryOK(m) == m.k = "object" /\ m.Z > 0
Layer(m) ==
    LET base == IF m.Z < 200
                THEN [e |-> <<[A |-> IF Given(m.A) THEN NaturalA(m.A, m.Z) ELSE AtomicWeight(m.Z), Z |-> m.Z, stn |-> One]>>,
                      rho |-> ElementDensity(m.Z), I |-> Zero]
                ELSE [e |-> Predefined(m.Z).e, rho |-> Predefined(m.Z).rho, I |-> Predefined(m.Z).I]
    IN [e |-> base.e,
        rho |-> IF Given(m.rho) /\ Pos(m.rho) THEN m.rho ELSE base.rho,
        th |-> IF Given(m.th) THEN m.th ELSE Zero,
        I |-> IF Given(m.I) /\ Pos(m.I) THEN m.I ELSE base.I]
Entries(ms) == IF ms.k \in {"object", "list"} THEN ms.l ELSE <<>>

(* what is required *)
Accepted1(f) ==
    /\ f.valid                                   \* well formed at all
    /\ f.proj.k = "array"
    /\ Energies(f.en) # <<>>
    /\ Entries(f.ms) # <<>>
    /\ \A i \in DOMAIN Entries(f.ms) : EntryOK(Entries(f.ms)[i])
Stack(f) == [i \in DOMAIN Entries(f.ms) |-> Layer(Entries(f.ms)[i])]
=============================================================================
