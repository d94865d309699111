------------------------------- MODULE Cache -------------------------------
(***************************************************************************)
(* The cache of computed combinations.  A combination is stored when it is *)
(* asked for the first time; the oldest one makes room when the cache is   *)
(* full.  References handed out stay valid as long as the entry is stored. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Keys, Cap, MaxSteps

VARIABLES q,        \* stored combinations, oldest first
          held,     \* combinations of which the user holds a valid reference
          answer,   \* combination whose tables the last query returned, 0 for none
          asked,    \* combination asked for last
          steps,
          after     \* number of combinations computed since each one was computed
vars == <<q, held, answer, asked, steps, after>>

Range(s) == {s[i] : i \in DOMAIN s}
Stored(k) == k \in Range(q)
Insert(s, k, cap) == IF Len(s) < cap THEN Append(s, k) ELSE Append(Tail(s), k)

Init == q = <<>> /\ held = {} /\ answer = 0 /\ asked = 0 /\ steps = 0 /\ after = [k \in Keys |-> 0]
Hit(k) == /\ Stored(k)
          /\ UNCHANGED <<q, after>>
Miss(k) == /\ ~Stored(k)
           /\ q' = Insert(q, k, Cap)
           /\ after' = [x \in Keys |-> IF x = k THEN 0 ELSE after[x] + 1]
Get(k) == /\ steps < MaxSteps
          /\ Hit(k) \/ Miss(k)
          /\ held' = (held \cup {k}) \cap Range(q')
          /\ answer' = k /\ asked' = k
          /\ steps' = steps + 1
Reset == /\ steps < MaxSteps
         /\ q' = <<>> /\ held' = {} /\ answer' = 0 /\ asked' = 0
         /\ after' = [k \in Keys |-> 0]
         /\ steps' = steps + 1
Next == Reset \/ \E k \in Keys : Get(k)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Bounded == Len(q) <= Cap
NoDuplicates == \A i, j \in DOMAIN q : i # j => q[i] # q[j]
OwnAnswer == answer = asked
AnswerStored == answer # 0 => Stored(answer)
HeldStored == held \subseteq Range(q)
\* an entry is there until Cap others were computed after it
Retention == \A i \in DOMAIN q : after[q[i]] = Len(q) - i
\* a hit changes nothing, a miss removes the oldest at most
HitIsSilent == [][\A k \in Keys : (asked' = k /\ steps' = steps + 1 /\ Stored(k)) => q' = q]_vars
MissKeepsYounger == [][(q' # <<>> /\ q' # q /\ q # <<>>) => (q' = Append(q, q'[Len(q')]) \/ q' = Append(Tail(q), q'[Len(q')]))]_vars
=============================================================================
