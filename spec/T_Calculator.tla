---------------------------- MODULE T_Calculator ----------------------------
(* recorded runs of the calculator (P25); q holds the library calls whose  *)
(* results the output is compared with                                     *)
EXTENDS TraceBase, Calculator, Physics

Printed(x, y) == RClose(x, y, R("6e-6"), R("1e-300"))      \* six digits
SameLayer(m, j) ==                       \* j: material of a library call
    /\ IF "id" \in DOMAIN j THEN Predefined(j.id).e = m.e
       ELSE LET y == MatOf(j).e IN Len(y) = Len(m.e) /\ \A k \in DOMAIN y : REq(y[k].A, m.e[k].A) /\ y[k].Z = m.e[k].Z /\ REq(y[k].stn, m.e[k].stn)
    /\ REq(j.th, m.th)
    /\ IF Len(j.rho) = 0 THEN REq(Predefined(j.id).rho, m.rho) ELSE REq(j.rho, m.rho)
    /\ IF "I" \in DOMAIN j THEN REq(j.I, m.I) ELSE REq(Predefined(j.id).I, m.I)
\* the library was asked for what the file says
Asked(e, q, T, stack) ==
    /\ REq(q.p[1], e.file.proj.A) /\ REq(q.p[2], e.file.proj.Z) /\ RClose(q.p[4], T, R("1e-12"), Zero)
    /\ Len(q.ls) = Len(stack) /\ \A i \in DOMAIN stack : SameLayer(stack[i], q.ls[i])
Fields(o, r) ==
    /\ Chk("energies of a layer", Printed(o.Ein, r.Ein) /\ Printed(o.Eout, r.Eout) /\ Printed(o.Eloss, r.Eloss))
    /\ Chk("straggling of a layer", Printed(o.sigma_E, r.sigma_E) /\ Printed(o.sigma_a, r.sigma_a) /\ Printed(o.sigma_r, r.sigma_r))
    /\ Chk("range of a layer", Printed(o.range, r.range) /\ Printed(o.dEdx, r.dEdxi))
    /\ Chk("flight time of a layer", Printed(o.TOF, r.tof))
Totals(e, o, r) ==
    /\ Chk("total energies", Printed(o.Eout, r.Eout) /\ Printed(o.Eloss, r.Eloss))
    /\ Chk("total straggling", Printed(o.sigma_E, r.sigma_E) /\ Printed(o.sigma_a, r.sigma_a))
    /\ Chk("total flight time", Printed(o.TOF, r.tof))
    /\ Chk("kinematics", /\ Printed(o.Beta, Beta(r.Eout)) /\ Printed(o.Gamma, Gamma(r.Eout))
                         /\ Printed(o.P, Momentum(r.Eout, e.file.proj.A)))
Results(e) ==
    LET es == Energies(e.file.en) st == Stack(e.file) IN
    /\ Chk("results are reported", ~e.r.refused)
    /\ Chk("success", e.r.exit = 0)
    /\ Chk("configuration named", e.r.names = CASE e.file.conf = "atimav1.3" -> <<"1.3">> [] e.file.conf = "atimav1.4" -> <<"1.4">> [] OTHER -> <<>>)
    /\ Chk("projectile", Printed(e.r.A, e.file.proj.A) /\ Printed(e.r.Z, e.file.proj.Z))
    /\ Chk("materials in order", Len(e.r.mats) = Len(st) /\ \A i \in DOMAIN st : Printed(e.r.mats[i].rho, st[i].rho) /\ Printed(e.r.mats[i].th, st[i].th))
    /\ Chk("one block per energy", Len(e.r.runs) = Len(es))
    /\ Chk("energies in order", \A k \in DOMAIN es : Printed(e.r.runs[k].T, es[k]))
    /\ Assert(Len(e.q) = Len(es) /\ \A k \in DOMAIN es : Asked(e, e.q[k], es[k], st), "the library was asked for something else")
    /\ \A k \in DOMAIN es :
         /\ Chk("one block per layer", Len(e.r.runs[k].ms) = Len(st) /\ Len(e.q[k].r.l) = Len(st))
         /\ \A i \in DOMAIN st : Fields(e.r.runs[k].ms[i], e.q[k].r.l[i])
         /\ Totals(e, e.r.runs[k].tot, e.q[k].r.t)
Refused(e) ==
    /\ Chk("no results", e.r.refused /\ Len(e.r.runs) = 0)
    /\ Chk("a message", e.r.message)
    /\ Chk("failure", e.r.exit # 0)
Usage(e) == Chk("usage without arguments", e.r.exit = 0 /\ Len(e.r.words) = 2) /\ Label(<<"usage">>)
Step(e) ==
    IF e.op = "usage" THEN Usage(e) ELSE
    IF Accepted1(e.file) THEN Results(e) /\ Label(<<"run", e.file.en.k, e.file.ms.k, Len(Entries(e.file.ms)), e.file.conf>>)
    ELSE Refused(e) /\ Label(<<"refused", e.form>>)
Next == Advance /\ Step(Event)
=============================================================================
