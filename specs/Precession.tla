------------------------------- MODULE Precession ------------------------------
(* Evolution under on-site fields only: the propagator is a product of on-site
   phases, so the whole state (its global phase included) is known exactly after
   any history.  Site j has levels with integer fields h[j][s]; one tick of the
   clock multiplies level s by w^(-h[j][s]), w = e^{i pi/4}; x[j][s] counts the
   eighth turns (mod 8).  The state is a sum of products with integer amplitudes;
   a chain under on-site fields keeps whatever bond dimension it has.  Calls of
   the variational and of the Trotter engine, forward and backward, in any number
   of steps; moving the centre, files, a new engine with other fields.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Ns, Levels, Fields, Amps, MaxTerms, MaxOps, Emit
VARIABLES N, d, h, h0, psi, x, turns, n, path
vars == <<N, d, h, h0, psi, x, turns, n, path>>
Rnd(S) == IF N = 0 THEN CHOOSE q \in S : TRUE ELSE RandomElement(S)
Pick(S) == RandomElement(IF n = 0 THEN S ELSE {})
Mod8(k) == ((k % 8) + 8) % 8
Init == N = 0 /\ d = <<>> /\ h = <<>> /\ h0 = <<>> /\ psi = <<>> /\ x = <<>> /\ turns = <<>> /\ n = 0 /\ path = <<>>
Start == /\ N = 0 /\ \E m \in (IF Emit THEN {Pick(Ns)} ELSE Ns) : \E ds \in (IF Emit THEN {TLCEval([j \in 1..m |-> Pick(Levels)])} ELSE [1..m -> Levels]) :
            /\ N' = m /\ d' = ds
            /\ \E f \in (IF Emit THEN {TLCEval([j \in 1..m |-> TLCEval([s \in 1..ds[j] |-> Pick(Fields)])])}
                         ELSE {[j \in 1..m |-> [s \in 1..ds[j] |-> g[s]]] : g \in [1..3 -> Fields]}) : h' = f /\ h0' = f
            /\ \E k \in {IF Emit THEN Pick(1..MaxTerms) ELSE 1} :
               psi' = IF Emit THEN TLCEval([q \in 1..k |-> TLCEval([j \in 1..m |-> TLCEval([s \in 1..ds[j] |-> <<Pick(Amps), Pick(Amps)>>])])]) ELSE <<>>
            /\ x' = [j \in 1..m |-> [s \in 1..ds[j] |-> 0]] /\ turns' = [j \in 1..m |-> [s \in 1..ds[j] |-> 0]]
         /\ UNCHANGED <<n, path>>
Log(o) == path' = IF Emit THEN Append(path, o @@ [x |-> x']) ELSE path
Up == N > 0 /\ n < MaxOps /\ n' = n + 1 /\ UNCHANGED <<N, d, psi, h0>>
Run(m, t, k) == /\ x' = TLCEval([j \in 1..N |-> TLCEval([s \in 1..d[j] |-> Mod8(x[j][s] - t*h[j][s])])])
                /\ turns' = TLCEval([j \in 1..N |-> TLCEval([s \in 1..d[j] |-> turns[j][s] - t*h[j][s]])])
                /\ h' = h /\ Log([op |-> m, t |-> t, steps |-> k])
Evolve == Up /\ IF Emit THEN \E m \in {Rnd({"tdvp", "tebd"})} : \E t \in {Rnd({-3, -2, -1, 1, 2, 3})} : \E k \in {Rnd(1..3)} : Run(m, t, k)
                ELSE \E t \in {-2, -1, 1, 2} : Run("tdvp", t, 1)
Same == UNCHANGED <<h, x, turns>>
Position == Emit /\ Up /\ Same /\ \E p \in {Rnd(0..N)} : Log([op |-> "position", t |-> p, steps |-> 0])
File == Emit /\ Up /\ Same /\ Log([op |-> "file", t |-> 0, steps |-> 0])
\* another engine takes the state over, with fields of its own
Switch == /\ Up /\ UNCHANGED <<x, turns>>
          /\ \E f \in (IF Emit THEN {TLCEval([j \in 1..N |-> TLCEval([s \in 1..d[j] |-> Rnd(Fields)])])}
                       ELSE {[j \in 1..N |-> [s \in 1..d[j] |-> g[s]]] : g \in [1..3 -> Fields]}) :
             h' = f /\ Log([op |-> "switch", t |-> 0, steps |-> 0, fields |-> f])
Done == Emit /\ N > 0 /\ n = MaxOps /\ n' = n + 1 /\ UNCHANGED <<N, d, h, h0, psi, x, turns, path>>
        /\ PrintT(ToJson([N |-> N, d |-> d, h |-> h0, psi |-> psi, path |-> path]))
Next == Start \/ Evolve \/ Evolve \/ Position \/ File \/ Switch \/ Done
Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------------
\* the phases are the accumulated turns, and depend on nothing else: order and cutting of the calls do not matter
Accumulated == \A j \in 1..N : \A s \in 1..d[j] : x[j][s] \in 0..7 /\ x[j][s] = Mod8(turns[j][s])
Back == N > 0 /\ (\A j \in 1..N : \A s \in 1..d[j] : turns[j][s] = 0) => \A j \in 1..N : \A s \in 1..d[j] : x[j][s] = 0
==============================================================================
