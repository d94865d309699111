----------------------------- MODULE T_Numerics -----------------------------
(* recorded results of grids and interpolation (P23) *)
EXTENDS TraceBase, Numerics

RoundSlack(v) == (RAbs(v) (.) R("1e-13")) (+) R("1e-14")
MaxAbs(s) == LET RECURSIVE go(_) go(i) == IF i = 0 THEN Zero ELSE RMax(RAbs(s[i]), go(i - 1)) IN go(Len(s))

(* -------------------------------- grids -------------------------------- *)
GridClause(kind, first, last, n, x, q) ==
    /\ Chk("index range", q.i \in -1..(n - 1))
    /\ Chk("below the grid", (q.i = -1) = (x \prec first))
    /\ (q.i >= 0 => Chk("interval starts at or below", (q.lo (-) RoundSlack(q.lo)) \preceq x))
    /\ (q.i = n - 1 => Chk("last", (last (-) RoundSlack(last)) \preceq x))
    /\ (q.i \in 0..(n - 2) => Chk("interval ends above", x \preceq (q.hi (+) (IF kind = 2 THEN RoundSlack(q.hi) ELSE Zero))))
    /\ (q.i \in 0..(n - 2) /\ kind # 2 => Chk("grid point starts its interval", x \prec q.hi))
    /\ Label(<<"grid", kind, IF q.i = -1 THEN "below" ELSE IF q.i = n - 1 THEN "end" ELSE "inside">>)
TGrid(e) ==
    /\ Chk("size", e.r.n = e.N)
    /\ Chk("first", RClose(e.r.first, GridValue(e.k, e.lo, e.hi, e.N, 0), R("1e-12"), R("1e-12")))
    /\ Chk("last value", RClose(e.r.last, GridValue(e.k, e.lo, e.hi, e.N, e.N - 1), R("1e-12"), R("1e-12")))
    /\ \A j \in 1..Len(e.x) : GridClause(e.k, e.r.first, e.r.last, e.N, e.x[j], e.r.q[j])
TLibGrid(e) ==
    \A j \in 1..Len(e.x) : GridClause(0, e.r.first, e.r.last, e.r.n, e.x[j], e.r.q[j])
TValues(e) ==
    /\ Chk("size", Len(e.r.v) = e.N)
    /\ Chk("grid values", \A i \in 1..e.N : RClose(e.r.v[i], GridValue(e.k, e.lo, e.hi, e.N, i - 1), R("1e-11"), R("1e-12")))
    /\ Chk("increasing", \A i \in 1..(e.N - 1) : e.r.v[i] \prec e.r.v[i + 1])
    /\ Label(<<"values", e.k, e.N>>)

(* ---------------------------- interpolation ---------------------------- *)
TInterp(e) ==
    LET g == e.r.g s == MaxAbs(e.y) (.) R("1e-12") IN
    /\ \A j \in 1..Len(e.x) :
         LET x == e.x[j] v == e.r.v[j] IN
         /\ Chk("linear interpolation", RClose(v, LinearIn(g, e.y, x), Zero, MaxAbs(e.y) (.) R("1e-9")))
         /\ (x \succeq g[1] /\ x \prec g[Len(g)] =>
               LET i == Locate(g, x) IN Chk("between the neighbours", Between2(v, e.y[i + 1], e.y[i + 2], s)))
         /\ (\A i \in DOMAIN g : x = g[i] => Chk("grid point", RClose(v, e.y[i], Zero, s)))
    /\ Label(<<"interpolation", e.N>>)
TSpline(e) ==
    LET g == e.r.g m == Curvatures(g, e.y, e.nat # 0)
        s == MaxAbs(e.y)
        \* slopes are compared relative to the steepest part
        sl == RMax(MaxAbs([i \in 1..(e.N - 1) |-> Slope(g, e.y, i)]), MaxAbs([i \in 1..(e.N - 1) |-> (m[i] (.) H(g, i))])) IN
    /\ \A j \in 1..Len(e.x) :
         LET x == e.x[j] w == Spline(g, e.y, m, x)
             far == One (+) (IF x \prec g[1] THEN (g[1] (-) x) (/) H(g, 1) ELSE IF x \succ g[e.N] THEN (x (-) g[e.N]) (/) H(g, e.N - 1) ELSE Zero)
             sc == RMax(s, sl (.) RMin(RAbs(x (-) g[1]), H(g, e.N - 1)))
         IN
         /\ Chk("spline value", RClose(e.r.v[j], w[1], R("1e-9"), (s (.) far) (.) R("1e-8")))
         /\ Chk("spline slope", RClose(e.r.d[j], w[2], R("1e-7"), sl (.) R("1e-9")))
         /\ (\A i \in DOMAIN g : x = g[i] => Chk("passes through the points", RClose(e.r.v[j], e.y[i], Zero, s (.) R("1e-12"))))
    /\ Label(<<"spline", e.k, e.N, e.nat>>)
TTridiagonal(e) ==
    LET x == e.r.x stops == TriStops(e.a, e.d, e.c) IN
    /\ IF stops THEN Chk("no solution by elimination: zero", \A i \in DOMAIN x : REq(x[i], Zero))
       ELSE Chk("solves the system", \A i \in DOMAIN x :
                RClose(TriRow(e.a, e.d, e.c, x, i), e.b[i], R("1e-9"), MaxAbs(x) (.) R("1e-10")))
    /\ Chk("entries", \A j \in DOMAIN x : REq(e.r.row[j], TriEntry(e.a, e.d, e.c, e.row + 1, j)))
    /\ Label(<<"tridiagonal", e.N, stops>>)

Step(e) ==
    CASE e.op = "grid" -> TGrid(e)
      [] e.op = "lib_grid" -> TLibGrid(e)
      [] e.op = "grid_vals" -> TValues(e)
      [] e.op = "interp" -> TInterp(e)
      [] e.op = "spline" -> TSpline(e)
      [] e.op = "tridiag" -> TTridiagonal(e)
Next == Advance /\ Step(Event)
=============================================================================
