---------------------------- MODULE GenMaterial ----------------------------
(* programs over material objects; values are filled in when they are run *)
EXTENDS Sequences, Naturals, TLC, Json
CONSTANTS Registers, MaxSteps
VARIABLES h, filled         \* filled: objects with constituents
Makes == {"elem", "list", "listM", "listW", "add", "addW"}
Sets == {"M", "rho", "th", "cm", "I"}
Init == h = <<>> /\ filled = {}
Do(op, d) == h' = Append(h, [op |-> op, d |-> d])
Next == /\ Len(h) < MaxSteps
        /\ \E d \in Registers :
             /\ (h = <<>> => d = 0)
             /\ \/ \E op \in Makes : Do(op, d) /\ filled' = filled \cup {d}
                \/ \E op \in Sets : Do(op, d) /\ UNCHANGED filled
                \/ d \in filled /\ Do("calc", d) /\ UNCHANGED filled
                \/ d \in filled /\ Do("new", d) /\ filled' = filled \ {d}
                \/ \E a \in filled \ {d} : Do("copy", d) /\ filled' = filled \cup {d}
Emit == Len(h) = MaxSteps => PrintT(<<"BEHAVIOUR", ToJson(h)>>)
=============================================================================
