------------------------------- MODULE Real64 -------------------------------
(***************************************************************************)
(* IEEE-754 double precision numbers as values of the specification.       *)
(*                                                                         *)
(* A number is the tuple <<hi, lo>> of the two 32 bit halves of its bit    *)
(* pattern; equality of tuples is equality of bits, numbers can be part of *)
(* the state and are written in the traces in the same form.  The          *)
(* operators are evaluated by java/Real64.java; the bodies below only      *)
(* declare them.  An integer argument is converted.                        *)
(***************************************************************************)
R(s) == CHOOSE x \in {} : TRUE           \* number from "1.25e-3" or an integer
RAdd(x, y) == CHOOSE z \in {} : TRUE
RSub(x, y) == CHOOSE z \in {} : TRUE
RMul(x, y) == CHOOSE z \in {} : TRUE
RDiv(x, y) == CHOOSE z \in {} : TRUE
RNeg(x) == CHOOSE z \in {} : TRUE
RAbs(x) == CHOOSE z \in {} : TRUE
RSqrt(x) == CHOOSE z \in {} : TRUE
RExp(x) == CHOOSE z \in {} : TRUE
RLog(x) == CHOOSE z \in {} : TRUE
RLog1p(x) == CHOOSE z \in {} : TRUE
RLog10(x) == CHOOSE z \in {} : TRUE
RPow(x, y) == CHOOSE z \in {} : TRUE
RCos(x) == CHOOSE z \in {} : TRUE
RSin(x) == CHOOSE z \in {} : TRUE
RAtan2(y, x) == CHOOSE z \in {} : TRUE
RAtan(x) == CHOOSE z \in {} : TRUE
RMin(x, y) == CHOOSE z \in {} : TRUE
RMax(x, y) == CHOOSE z \in {} : TRUE
RFloor(x) == CHOOSE z \in {} : TRUE
RTrunc(x) == CHOOSE z \in {} : TRUE
RUlp(x) == CHOOSE z \in {} : TRUE
RToInt(x) == CHOOSE z \in {} : TRUE      \* truncated to an integer of TLA+
RLt(x, y) == CHOOSE z \in BOOLEAN : TRUE
RLe(x, y) == CHOOSE z \in BOOLEAN : TRUE
REq(x, y) == CHOOSE z \in BOOLEAN : TRUE \* numeric, 0 = -0
RFinite(x) == CHOOSE z \in BOOLEAN : TRUE
RIsNaN(x) == CHOOSE z \in BOOLEAN : TRUE
RClose(x, y, rel, abs) == CHOOSE z \in BOOLEAN : TRUE
RStr(x) == CHOOSE z \in {} : TRUE
RSum(s) == CHOOSE z \in {} : TRUE
RTable(path) == CHOOSE z \in {} : TRUE   \* rows of a table of spec/data

x (+) y == RAdd(x, y)
x (-) y == RSub(x, y)
x (.) y == RMul(x, y)
x (/) y == RDiv(x, y)
x \prec y == RLt(x, y)
x \preceq y == RLe(x, y)
x \succ y == RLt(y, x)
x \succeq y == RLe(y, x)
=============================================================================
