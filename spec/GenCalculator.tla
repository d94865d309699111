--------------------------- MODULE GenCalculator ---------------------------
(* prints all combinations of the forms of the fields *)
EXTENDS TLC, Json
VARIABLE c
Projs == {"array", "missing", "string", "object", "short", "strings"}
Ens == {"number", "string", "list", "step", "num", "missing", "emptylist", "bool", "nomax", "badstring", "num1", "nostep"}
Mss == {"object", "list1", "list2", "list3", "missing", "emptylist", "number", "nonobject", "noZ", "zeroZ", "negativeZ", "stringZ", "secondbad"}
Confs == {"", "atimav1.3", "atimav1.4", "other"}
Good == [p : {"array"}, e : {"number", "string", "list", "step", "num"}, m : {"object", "list1", "list2", "list3"}, c : Confs]
\* files with one or two wrong fields, with the usual configuration
Bad == [p : Projs, e : Ens, m : Mss, c : {""}]
\* forms of one entry
Entry == [Z : {"element", "compound"}, A : {"none", "zero", "given"}, rho : {"none", "zero", "given"}, th : {"none", "given"}, I : {"none", "zero", "given"}]
Init == c \in [k : {"file"}, f : Good \cup Bad] \cup [k : {"entry"}, f : Entry]
Next == UNCHANGED c
Emit == PrintT(<<"BEHAVIOUR", ToJson(c)>>)
=============================================================================
