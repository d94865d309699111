---------------------------- MODULE T_Generator ----------------------------
(***************************************************************************)
(* Look-ups of a library built with regenerated tables (P34).  The table   *)
(* generator was given simple functions in place of the direct             *)
(* calculation; the table holds six digits of them for the natural mass    *)
(* and for 1.05 times this mass.                                           *)
(***************************************************************************)
EXTENDS TraceBase, Physics

Direct(A, Z, T) == RSin(((R("1.25") (.) A) (+) (R("2.75") (.) Z)) (+) (R("0.875") (.) RLog(T)))
DirectX(A, Z, T) == RCos(((R("1.125") (.) A) (+) (R("3.25") (.) Z)) (+) (R("0.75") (.) RLog(T)))
Tol == R("1e-5")
Mixed(F(_, _, _), e, T) ==
    LET w == AtomicWeight(e.Z)  da == ((e.A (-) w) (/) w) (/) R("0.05")
        lo == F(w, R(e.Z), T)  hi == F(R("1.05") (.) w, R(e.Z), T)
    IN lo (+) ((hi (-) lo) (.) da)
Step(e) ==
    /\ \A k \in DOMAIN e.T :
         Chk(<<"regenerated entry", e.op, k>>,
             RClose(e.r.v[k], IF e.op = "ls_nodes" THEN Mixed(Direct, e, e.T[k]) ELSE Mixed(DirectX, e, e.T[k]), Tol, Tol))
    /\ Label(<<"regenerated", e.op, e.Z = LsMaxZ>>)
Next == Advance /\ Step(Event)
=============================================================================
