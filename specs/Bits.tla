-------------------------------- MODULE Bits --------------------------------
(* 64-bit words as sets of bit positions; the fixed-filling basis as a sequence
   of such sets in ascending numerical order.                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, FiniteSetsExt, SequencesExt
CONSTANTS Width, MaxSteps, BasisSizes, Exhaustive
VARIABLES w, log, n
vars == <<w, log, n>>
All == 0..Width-1
Pick(S) == IF Exhaustive THEN S ELSE {IF n < 0 THEN CHOOSE x \in S : TRUE ELSE RandomElement(S)}
Flip(s, p) == IF p \in s THEN s \ {p} ELSE s \cup {p}
Less(a, b) == a # b /\ Max((a \ b) \cup (b \ a)) \in b          \* numerical order of words

RECURSIVE Basis(_, _)
Basis(N, k) == IF k > N \/ k < 0 THEN <<>> ELSE IF k = 0 THEN <<{}>>
               ELSE Basis(N-1, k) \o LET r == Basis(N-1, k-1) IN [i \in 1..Len(r) |-> r[i] \cup {N-1}]
RECURSIVE Choose(_, _)
Choose(N, k) == IF k = 0 THEN 1 ELSE IF k > N THEN 0 ELSE Choose(N-1, k-1) + Choose(N-1, k)
BasisOK(N, k) == LET b == Basis(N, k) IN
  /\ Len(b) = Choose(N, k)
  /\ \A i \in 1..Len(b) : Cardinality(b[i]) = k /\ b[i] \subseteq 0..N-1
  /\ \A i \in 1..Len(b)-1 : Less(b[i], b[i+1])

Init == w = {} /\ log = <<>> /\ n = 0
Log(op, p, out) == log' = IF Exhaustive THEN log ELSE Append(log, [op |-> op, p |-> p, out |-> out, w |-> w'])
DoFlip == \E p \in Pick(All) : w' = Flip(w, p) /\ Log("flip", p, -1)
DoSet == \E p \in Pick(All) : w' = w \cup {p} /\ Log("set", p, -1)
DoUnset == \E p \in Pick(All) : w' = w \ {p} /\ Log("unset", p, -1)
DoGet == \E p \in Pick(All) : w' = w /\ Log("get", p, IF p \in w THEN 1 ELSE 0)
Fill == \E k \in Pick(0..3) : w' = (IF k = 0 THEN {} ELSE IF k = 1 THEN All ELSE {b \in All : b % (k+1) = 0}) /\ Log("fill", k, -1)
Step == n < MaxSteps /\ n' = n + 1 /\ (DoFlip \/ DoSet \/ DoUnset \/ DoGet \/ Fill)
Emit == n = MaxSteps /\ ~Exhaustive /\ PrintT(ToJson([log |-> log])) /\ n' = n + 1 /\ UNCHANGED <<w, log>>
Next == Step \/ Emit
Spec == Init /\ [][Next]_vars
TypeOK == w \subseteq All
BasesOK == n > 0 \/ \A s \in BasisSizes : BasisOK(s[1], s[2])
EmitBases == n > 0 \/ \A s \in BasisSizes : PrintT(ToJson([N |-> s[1], k |-> s[2], b |-> Basis(s[1], s[2])]))
=============================================================================
