------------------------------ MODULE T_Mocadi ------------------------------
(* exported beam line descriptions (P26) *)
EXTENDS TraceBase, Mocadi

Ps(j) == [sigma_x |-> j[1], sigma_a |-> j[2]]
NoPs == [sigma_x |-> Zero, sigma_a |-> Zero]
LayerOf(j) == IF "id" \in DOMAIN j
              THEN [Predefined(j.id) EXCEPT !.th = j.th, !.rho = IF Len(j.rho) = 0 THEN @ ELSE j.rho]
              ELSE MatOf(j)
Export(e) ==
    LET p == [A |-> e.p[1], Z |-> e.p[2], T |-> e.p[4]]
        x == IF e.form = 0 THEN NoPs ELSE Ps(e.x)
        y == IF e.form < 2 THEN NoPs ELSE Ps(e.y)
        b == Beam(p, x, y)
        st == [i \in DOMAIN e.ls |-> LayerOf(e.ls[i])] IN
    /\ Chk("the file is written", e.r.ok)
    /\ Chk("sections", e.r.begin /\ e.r.end)
    /\ Chk("beam", Len(e.r.beam) >= Len(b) /\ \A k \in DOMAIN b : Written(e.r.beam[k], b[k]))
    /\ Chk("one block per layer", Len(e.r.mats) = Len(st))
    /\ \A i \in DOMAIN st :
         /\ Chk("block", Len(e.r.mats[i]) >= 5)
         /\ Chk("material", MaterialCode(st[i], e.r.mats[i][1], e.r.mats[i][2]))
         /\ Chk("density", Written(e.r.mats[i][3], R(1000) (.) st[i].rho))
         /\ Chk("kind of length", Written(e.r.mats[i][4], R(2)))
         /\ Chk("length", Written(e.r.mats[i][5], Length(st[i])))
    /\ Label(<<"export", e.form, Len(st), \E i \in DOMAIN st : Len(st[i].e) > 1, \E i \in DOMAIN st : Len(st[i].e) > 1 /\ Listed(st[i]) = {}>>)
Step(e) ==
    IF e.op = "mocadi" THEN IF e.possible THEN Export(e) ELSE Chk("failure is reported", ~e.r.ok) /\ Label(<<"not writable">>)
    ELSE /\ Chk("identifier", LET m == LayerOf(e.m) IN IF Listed(m) # {} THEN e.r.v \in Listed(m) ELSE e.r.v \in Identifiers(m) \cup {0})
         /\ Label(<<"identifier", Listed(LayerOf(e.m)) # {}>>)
Next == Advance /\ Step(Event)
=============================================================================
