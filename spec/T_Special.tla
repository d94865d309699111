----------------------------- MODULE T_Special -----------------------------
(* recorded values of the complex functions (P33) *)
EXTENDS TraceBase, Complex

GTol == R("1e-8")
SameGamma(v, w) ==
    /\ RClose(v[1], w[1], GTol, GTol)
    /\ SamePhase(v[2], w[2], GTol)
LogGamma(e) ==
    LET z == e.z
        v == e.r.v[1]  conj == e.r.v[2]  next == e.r.v[3] IN
    /\ Chk("log gamma", SameGamma(v, LnGamma(z)))
    /\ Chk("conjugate argument", SameGamma(conj, CConj(v)))
    /\ Chk("recurrence", SameGamma(next, CAdd(v, CLog(z))))
    /\ Label(<<"lngamma", z[1] \prec Zero, REq(z[1], Zero), REq(z[2], Zero)>>)
(* the sum ends at terms below 1e-6 *)
Hyper(e) ==
    LET w == Kummer(e.a, e.b, e.z)
        size == R("1e-13") (.) KummerSize(e.a, e.b, e.z)
        other == R("1e-13") (.) KummerSize(CSub(e.b, e.a), e.b, e.z)
        tol == R("2e-5") (+) size IN
    /\ Chk("hypergeometric function", CClose(e.r.v[1], w, R("1e-9"), tol))
    /\ Chk("conjugate arguments", CClose(e.r.v[2], CConj(e.r.v[1]), R("1e-9"), tol))
    /\ Chk("Kummer transformation", CClose(CMul(CExp(e.z), e.r.v[3]), e.r.v[1], R("1e-9"), tol (+) (RExp(e.z[1]) (.) (R("2e-5") (+) other))))
    /\ Label(<<"hyperg", CAbs(e.z) \prec One, e.z[1] \prec Zero>>)
Step(e) == IF e.op = "lngamma" THEN LogGamma(e) ELSE Hyper(e)
Next == Advance /\ Step(Event)
=============================================================================
