----------------------------- MODULE T_Options -----------------------------
(***************************************************************************)
(* the same calls in builds with different options (P27).  An event holds  *)
(* v, a sequence of [o: enabled options, r: result]; the first is the      *)
(* usual build.                                                            *)
(***************************************************************************)
EXTENDS TraceBase, Transport

Options == {"THIN_TARGET_APPROXIMATION", "STORE_SPLINES", "REACTIONS", "ET_CALCULATED_INDEX"}
On(v, o) == \E i \in DOMAIN v.o : v.o[i] = o
\* the same result without meaning may be written in two ways (log of a negative thickness, of zero)
NoValue(x, y) == ~RFinite(x) /\ ~RFinite(y)
Eq(x, y) == NoValue(x, y) \/ RClose(x, y, R("1e-9"), R("1e-14"))
\* quantities of a layer which takes only a small part of the energy are differences with rounding errors
Noisy(r) == IF r.Eout \prec r.Ein THEN R("1e-9") (+) ((R("1e-13") (.) r.Ein) (/) (r.Ein (-) r.Eout)) ELSE IF Pos(r.tof) THEN One ELSE R("1e-9")
\* at a loss of the size of the rounding they have no digits, or no value
EqN(x, y, rel) == NoValue(x, y) \/ One \preceq rel \/ RClose(x, y, rel, R("1e-14"))
RECURSIVE Noisiest(_, _)
Noisiest(ls, x) == IF ls = <<>> THEN x ELSE Noisiest(Tail(ls), RMax(x, Noisy(Head(ls))))
OfLayer == {"ang_str", "en_str"}
NoisySeq(e, rs) ==
    LET k == {i \in DOMAIN rs : e.cmds[i].op = "eout"} IN
    IF k = {} THEN R("1e-9") ELSE LET i == CHOOSE i \in k : TRUE IN Noisy([Ein |-> e.cmds[i].p[4], Eout |-> rs[i].v, tof |-> One])
\* two estimates of the same variance: the approximation and the cancellation of the difference
Approx(x, y) == NoValue(x, y) \/ RClose(x, y, R("1e-2"), R("1e-12"))
Resolved(r) == (R("1e-6") (.) r.Ein) \prec (r.Ein (-) r.Eout)

Plain == {"Ein", "Eout", "Eloss", "range", "dEdxi", "dEdxo", "sigma_r", "tof"}
Spread == {"sigma_E", "sigma_a"}
Derived == {"sigma_x", "cov"}
\* thin: the two builds differ in the thin-target approximation and some target is thin
SameResult(a, b, thin, resolved, total, rel) ==
    /\ \A f \in Plain : Chk(f, Eq(a[f], b[f]))
    /\ \A f \in Spread : Chk(f, IF thin THEN resolved => Approx(a[f], b[f]) ELSE EqN(a[f], b[f], rel))
    /\ \A f \in Derived : Chk(f, IF thin /\ total THEN resolved => Approx(a[f], b[f]) ELSE EqN(a[f], b[f], rel))
    /\ Chk("survival", ("sp" \in DOMAIN a /\ "sp" \in DOMAIN b) => Eq(a.sp, b.sp))
IsThin(r) == Pos(r.Eout) /\ (R("0.999") (.) r.Ein) \prec r.Eout
Differ(v, w) == On(v, "THIN_TARGET_APPROXIMATION") # On(w, "THIN_TARGET_APPROXIMATION")

Compare(e, v, w) ==
    CASE e.op = "calc" -> SameResult(v.r, w.r, Differ(v, w) /\ IsThin(v.r), Resolved(v.r), FALSE, Noisy(v.r))
      [] e.op = "layers" ->
           /\ Chk("layers", Len(v.r.l) = Len(w.r.l))
           /\ \A i \in DOMAIN v.r.l : SameResult(v.r.l[i], w.r.l[i], Differ(v, w) /\ (\E k \in 1..i : IsThin(v.r.l[k])),
                                                 \A k \in 1..i : IsThin(v.r.l[k]) => Resolved(v.r.l[k]), TRUE, Noisy(v.r.l[i]))
           /\ SameResult(v.r.t, w.r.t, Differ(v, w) /\ (\E k \in DOMAIN v.r.l : IsThin(v.r.l[k])),
                         \A k \in DOMAIN v.r.l : IsThin(v.r.l[k]) => Resolved(v.r.l[k]), TRUE, Noisiest(v.r.l, Noisy(v.r.t)))
      [] e.op = "seq" -> Len(v.r.rs) = Len(w.r.rs) /\ \A i \in DOMAIN v.r.rs :
             Chk(e.cmds[i].op, IF e.cmds[i].op \in OfLayer THEN EqN(v.r.rs[i].v, w.r.rs[i].v, NoisySeq(e, v.r.rs)) ELSE Eq(v.r.rs[i].v, w.r.rs[i].v))
      [] OTHER -> Chk(e.op, Eq(v.r.v, w.r.v))
Step(e) ==
    /\ Assert({e.v[1].o[i] : i \in DOMAIN e.v[1].o} = Options, "the first build has all options")
    /\ \A i \in 2..Len(e.v) : Compare(e, e.v[1], e.v[i])
    /\ Label(<<"options", e.op, ToString(e.op = "calc" /\ IsThin(e.v[1].r))>>)
Next == Advance /\ Step(Event)
=============================================================================
