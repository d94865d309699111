----------------------------- MODULE Constants -----------------------------
(***************************************************************************)
(* Physical constants and the limits of the library that are visible to a  *)
(* user: lowest energy, energy grid, solver tolerance, reaction limit.     *)
(***************************************************************************)
EXTENDS Real64, Integers, Sequences, FiniteSets, TLC

PI == R("3.1415926535897932384626433832795")
LN10 == R("2.30258509299404568401799145468")
NAvogadro == R("6.022140857")          \* 10^23
MElectron == R("0.510998928")          \* MeV
AMU == R("931.4940954")                \* MeV
InvAlpha == R("137.035999139")
Alpha == R(1) (/) InvAlpha
CLight == R("299.792458")
BohrVelocity == R("2.19") (/) CLight
HBar == R("6.582119514")
Es2Rossi == ((R(2) (.) PI) (.) InvAlpha) (.) (MElectron (.) MElectron)
Es2Atima == R("198.81")
KDedx == R("0.3070749187")
KOmega == KDedx (.) MElectron

EZero == R("1e-3")                     \* below this energy a projectile is stopped
EMax == R("1e7")                       \* end of the tables
EoutEps == R("1e-5")                   \* tolerance of the energy solver, g/cm2
ThinLimit == R("0.999")                \* thin target: Eout > ThinLimit * Ein
EminReaction == R(30)

\* settings of the configuration
ZNone == 0  ZPierce == 1  ZAnthony == 2  ZHubert == 3  ZWinger == 4  ZSchiwietz == 5  ZGlobal == 6
NoBarkas == 1  NoLindhard == 2  NoShell == 4  NoHighEnergy == 8
FermiRossi == 0  DHighland == 1  Gottschalk == 2  AtimaScat == 255

Bit(x, b) == (x \div b) % 2 = 1

Sq(x) == x (.) x
Cube(x) == (x (.) x) (.) x
RECURSIVE IPow(_, _)
IPow(x, n) == IF n = 0 THEN R(1) ELSE x (.) IPow(x, n - 1)
\* value of a polynomial with the coefficients c[1], c[2], .. of x^0, x^1, ..
RECURSIVE PolyFrom(_, _, _)
PolyFrom(c, x, i) == IF i = Len(c) THEN c[i] ELSE c[i] (+) (x (.) PolyFrom(c, x, i + 1))
Poly(c, x) == PolyFrom(c, x, 1)

Zero == R(0)
One == R(1)
RIsZero(x) == REq(x, Zero)
Pos(x) == Zero \prec x
NonNeg(x) == Zero \preceq x

(* formulas agree when they differ by rounding only *)
FTol == R("1e-7")
Same(x, y) == RClose(x, y, FTol, Zero)
SameAbs(x, y, abs) == RClose(x, y, FTol, abs)
Within(x, y, rel) == RClose(x, y, rel, Zero)

SumOver(n, f(_)) == RSum([k \in 1..n |-> f(k)])
=============================================================================
