------------------------------- MODULE Reverse -------------------------------
(* Evolutions that undo each other.  A history of steps (a duration each, real or
   imaginary time) is a word in a free group: a step followed by its opposite
   cancels.  Whenever the reduced word returns to one that was seen before, the
   state has to be the one that was seen then - at any bond dimension; and while
   only real-time steps are taken, norm and energy stay what they were.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Taus, MaxUser, Emit
VARIABLES N, w, seen, n, path, ham, eclass
vars == <<N, w, seen, n, path, ham, eclass>>
Rnd(S) == IF N = 0 THEN CHOOSE x \in S : TRUE ELSE RandomElement(S)
\* a step: <<a, b>>: duration a*i + b (in units the replay fixes)
Opp(s) == <<-s[1], -s[2]>>
Mult(v, s) == IF v # <<>> /\ v[Len(v)] = Opp(s) THEN SubSeq(v, 1, Len(v)-1) ELSE Append(v, s)
Steps == {<<a, 0>> : a \in Taus} \cup {<<0, a>> : a \in Taus} \cup {<<a, a>> : a \in Taus}
Init == N = 0 /\ w = <<>> /\ seen = <<<<>>>> /\ n = 0 /\ path = <<>> /\ ham = <<>> /\ eclass = 0
Start == /\ N = 0 /\ N' = (IF Emit THEN RandomElement(IF n = 0 THEN 3..7 ELSE {}) ELSE 3)
         /\ ham' = IF Emit THEN <<RandomElement(IF n = 0 THEN {"XXZ", "TFI", "Spinless"} ELSE {}),
                                  TLCEval([i \in 1..3 |-> TLCEval([j \in 1..N' |-> RandomElement(IF n = 0 THEN -3..3 \ {0} ELSE {})])])>>
                   ELSE <<>>
         /\ UNCHANGED <<w, seen, n, path, eclass>>
Idx(v) == IF \E i \in 1..Len(seen) : seen[i] = v THEN CHOOSE i \in 1..Len(seen) : seen[i] = v ELSE 0
Take(s) == /\ w' = Mult(w, s)
           /\ seen' = Append(seen, w')
           /\ eclass' = IF s[2] = 0 THEN eclass ELSE n + 1
           /\ path' = IF Emit THEN Append(path, [step |-> s, same |-> Idx(w'), real |-> s[2] = 0]) ELSE path
           /\ n' = n + 1 /\ UNCHANGED <<N, ham>>
\* half of the generated steps undo the last one
Step == /\ N > 0 /\ n < MaxUser
        /\ IF Emit THEN \E k \in {Rnd(1..2)} : \E s \in {Rnd(Steps)} : Take(IF k = 1 /\ w # <<>> THEN Opp(w[Len(w)]) ELSE s)
           ELSE \E s \in Steps : Take(s)
Done == Emit /\ n = MaxUser /\ PrintT(ToJson([N |-> N, ham |-> ham, path |-> path])) /\ n' = n + 1 /\ UNCHANGED <<N, w, seen, path, ham, eclass>>
Next == Start \/ Step \/ Done
Spec == Init /\ [][Next]_vars
Reduced == \A i \in 1..Len(w)-1 : w[i+1] # Opp(w[i])
\* the total duration only depends on the reduced word
RECURSIVE Tot(_, _)
Tot(v, j) == IF v = <<>> THEN 0 ELSE v[1][j] + Tot(Tail(v), j)
Same == \A i, j \in 1..Len(seen) : seen[i] = seen[j] => Tot(seen[i], 1) = Tot(seen[j], 1)
=============================================================================
