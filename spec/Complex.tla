------------------------------- MODULE Complex -------------------------------
(***************************************************************************)
(* Complex numbers <<re, im>> and the functions of the partial wave sums:  *)
(* the logarithm of the gamma function by the asymptotic series after a    *)
(* shift to large real parts, and the confluent hypergeometric series.     *)
(***************************************************************************)
EXTENDS Constants

CNum(x, y) == <<x, y>>
CReal(x) == <<x, Zero>>
CAdd(a, b) == <<a[1] (+) b[1], a[2] (+) b[2]>>
CSub(a, b) == <<a[1] (-) b[1], a[2] (-) b[2]>>
CScale(a, x) == <<a[1] (.) x, a[2] (.) x>>
CMul(a, b) == <<(a[1] (.) b[1]) (-) (a[2] (.) b[2]), (a[1] (.) b[2]) (+) (a[2] (.) b[1])>>
CAbs2(a) == (a[1] (.) a[1]) (+) (a[2] (.) a[2])
CAbs(a) == RSqrt(CAbs2(a))
CConj(a) == <<a[1], RNeg(a[2])>>
CInv(a) == LET d == CAbs2(a) IN <<a[1] (/) d, RNeg(a[2] (/) d)>>
CDiv(a, b) == CMul(a, CInv(b))
CLog(a) == <<RLog(CAbs(a)), RAtan2(a[2], a[1])>>
CExp(a) == LET r == RExp(a[1]) IN <<r (.) RCos(a[2]), r (.) RSin(a[2])>>
CClose(a, b, rel, abs) == CAbs(CSub(a, b)) \preceq ((rel (.) RMax(CAbs(a), CAbs(b))) (+) abs)


\* B(2k) / (2k (2k - 1))
StirlingCoefficients == <<One (/) R(12), RNeg(One (/) R(360)), One (/) R(1260), RNeg(One (/) R(1680)), One (/) R(1188),
                          RNeg(R(691) (/) R(360360)), One (/) R(156)>>
RECURSIVE StirlingTail(_, _, _)
StirlingTail(k, w, w2) ==                 \* w = z^(1-2k)
    IF k > Len(StirlingCoefficients) THEN CReal(Zero)
    ELSE CAdd(CScale(w, StirlingCoefficients[k]), StirlingTail(k + 1, CMul(w, w2), w2))
Stirling(z) ==
    LET i == CInv(z) IN
    CAdd(CAdd(CSub(CMul(CSub(z, CReal(R("0.5"))), CLog(z)), z), CReal(R("0.5") (.) RLog(R(2) (.) PI))),
         StirlingTail(1, i, CMul(i, i)))
RECURSIVE LogShift(_, _)
LogShift(z, n) == IF n = 0 THEN CReal(Zero) ELSE CAdd(CLog(z), LogShift(CAdd(z, CReal(One)), n - 1))
(* up to a multiple of 2 pi of the imaginary part *)
LnGamma(z) ==
    LET n == IF z[1] \prec R(12) THEN RToInt(R(13) (-) z[1]) ELSE 0 IN
    CSub(Stirling(CAdd(z, CReal(R(n)))), LogShift(z, n))
SamePhase(x, y, tol) == RAbs(RSin((x (-) y) (/) R(2))) \preceq tol

\* sum of the terms from m on, t is the term m
RECURSIVE KummerTail(_, _, _, _, _)
KummerTail(a, b, z, m, t) ==
    IF m > 600 \/ CAbs(t) \prec R("1e-17") THEN t
    ELSE LET f == CDiv(CAdd(a, CReal(R(m))), CAdd(b, CReal(R(m))))
         IN CAdd(t, KummerTail(a, b, z, m + 1, CMul(t, CMul(f, CScale(z, One (/) R(m + 1))))))
\* sum of the sizes of the terms, limits the accuracy of the sum
RECURSIVE KummerSizes(_, _, _, _, _)
KummerSizes(a, b, z, m, t) ==
    IF m > 600 \/ t \prec R("1e-17") THEN t
    ELSE t (+) KummerSizes(a, b, z, m + 1, t (.) ((CAbs(CAdd(a, CReal(R(m)))) (/) CAbs(CAdd(b, CReal(R(m))))) (.) (CAbs(z) (/) R(m + 1))))
KummerSize(a, b, z) == KummerSizes(a, b, z, 0, One)
Kummer(a, b, z) == KummerTail(a, b, z, 0, CReal(One))
=============================================================================
