---------------------------- MODULE LatticeModels ----------------------------
(* The lattice Hamiltonians in second quantisation.  A configuration assigns 0/1
   to every mode (a spin-1/2 or a fermion mode); a site owns one or two modes.
   A term is a coefficient and a product of ladder/Pauli operators; it maps a
   configuration to one configuration times an amplitude.  Fermion operators
   carry the sign of the occupied modes before them (checked to anticommute).
   Everything is scaled by Scale(m) to stay in the Gaussian integers.         *)
EXTENDS Dense, TLC, Json, FiniteSetsExt, SequencesExt
CONSTANTS Models, MaxModes, Couplings, Bc
VARIABLES m, N, obc, R, cp, conf, phase, path
vars == <<m, N, obc, R, cp, conf, phase, path>>
Rnd(X) == IF phase = "" THEN CHOOSE x \in X : TRUE ELSE RandomElement(X)
PerSite(mm) == IF mm \in {"Jess", "Hubbard"} THEN 2 ELSE 1
Fermionic == m \in {"Spinless", "Hubbard"}
L == R * N                         \* sites of the (repeated) chain
Modes == L * PerSite(m)
Scale == IF m = "XXZ" THEN 4 ELSE 1

\* one operator on a configuration: [c, a]
Occ(f, k) == Cardinality({j \in 1..k-1 : f[j] = 1})
Sgn(f, k) == IF Occ(f, k) % 2 = 0 THEN G1 ELSE <<-1, 0>>
Act(st, k, kind) ==
  LET f == st.c  fl == [f EXCEPT ![k] = 1 - @]  Z == [c |-> f, a |-> G0] IN
  CASE kind = "x" -> [c |-> fl, a |-> st.a]
    [] kind = "y" -> [c |-> fl, a |-> GMul(st.a, IF f[k] = 0 THEN GI ELSE <<0, -1>>)]
    [] kind = "z" -> [c |-> f, a |-> IF f[k] = 0 THEN GNeg(st.a) ELSE st.a]      \* diag(-1,1)
    [] kind = "+" -> IF f[k] = 1 THEN Z ELSE [c |-> fl, a |-> st.a]
    [] kind = "-" -> IF f[k] = 0 THEN Z ELSE [c |-> fl, a |-> st.a]
    [] kind = "n" -> IF f[k] = 0 THEN Z ELSE st
    [] kind = "C" -> IF f[k] = 1 THEN Z ELSE [c |-> fl, a |-> GMul(st.a, Sgn(f, k))]
    [] kind = "A" -> IF f[k] = 0 THEN Z ELSE [c |-> fl, a |-> GMul(st.a, Sgn(f, k))]
RECURSIVE ActAll(_, _)             \* product of operators, the rightmost acts first
ActAll(ops, st) == IF ops = <<>> THEN st
                   ELSE LET s == ActAll(Tail(ops), st) IN
                        IF s.a = G0 THEN s ELSE Act(s, Head(ops)[1], Head(ops)[2])
Term(t, f) == LET s == ActAll(t.ops, [c |-> f, a |-> G1]) IN [c |-> s.c, a |-> GMul(t.k, s.a)]

\* coupling number j at (repeated) site/bond i: the unit cell is repeated
C(j, i) == cp[j][((i-1) % N) + 1]
T(k, ops) == [k |-> <<k, 0>>, ops |-> ops]
Site(i) ==
  CASE m = "TFI"  -> <<T(C(2,i), <<<<i,"z">>>>)>>
    [] m = "TFI2" -> <<T(C(2,i), <<<<i,"x">>>>)>>
    [] m = "XXZ"  -> <<T(2*C(3,i), <<<<i,"z">>>>)>>
    [] m = "XXZf" -> <<>>
    [] m = "Jess" -> <<T(C(2,i), <<<<2*i-1,"x">>>>), T(C(2,i), <<<<2*i,"x">>>>), T(C(3,i), <<<<2*i-1,"x">>,<<2*i,"x">>>>)>>
    [] m = "Spinless" -> <<T(C(3,i), <<<<i,"n">>>>)>>
    [] m = "Hubbard" -> \* modes 2i-1: down, 2i: up
         <<T(C(1,i), <<<<2*i-1,"n">>,<<2*i,"n">>>>), T(C(4,i), <<<<2*i,"n">>>>), T(C(5,i), <<<<2*i-1,"n">>>>)>>
Hop(a, b, t) == <<T(-t, <<<<a,"C">>,<<b,"A">>>>), T(-t, <<<<b,"C">>,<<a,"A">>>>)>>
Same(a, b, k, c) == <<T(c, <<<<a,k>>,<<b,k>>>>)>>
Bond(i) ==                         \* between sites i and i+1
  CASE m = "TFI"  -> Same(i, i+1, "x", C(1,i))
    [] m = "TFI2" -> Same(i, i+1, "z", C(1,i))
    [] m = "XXZ"  -> Same(i, i+1, "z", C(1,i)) \o <<T(2*C(2,i), <<<<i,"+">>,<<i+1,"-">>>>), T(2*C(2,i), <<<<i,"-">>,<<i+1,"+">>>>)>>
    [] m = "XXZf" -> Same(i, i+1, "x", C(2,i)) \o Same(i, i+1, "y", -C(2,i)) \o Same(i, i+1, "z", -C(1,i)*C(2,i))
    [] m = "Jess" -> LET s == 2*i-1  u == 2*i IN
         Same(s, s+2, "x", C(1,i)) \o Same(s, s+2, "y", C(1,i)) \o Same(s, s+2, "z", C(1,i)) \o
         Same(u, u+2, "x", C(1,i)) \o Same(u, u+2, "y", C(1,i)) \o Same(u, u+2, "z", C(1,i))
    [] m = "Spinless" -> Hop(i, i+1, C(2,i)) \o Same(i, i+1, "n", C(1,i))
    [] m = "Hubbard" -> Hop(2*i, 2*i+2, C(2,i)) \o Hop(2*i-1, 2*i+1, C(3,i))
NCp == CASE m \in {"TFI", "TFI2", "XXZf"} -> 2 [] m \in {"XXZ", "Jess", "Spinless"} -> 3 [] m = "Hubbard" -> 5
Terms == FlattenSeq([i \in 1..L |-> Site(i)]) \o FlattenSeq([i \in 1..L-1 |-> Bond(i)])

Confs == [1..Modes -> {0, 1}]
Index(f) == LET RECURSIVE I(_, _)
                I(k, acc) == IF k > Modes THEN acc ELSE I(k+1, 2*acc + f[k]) IN I(1, 0)
Conf(i) == [k \in 1..Modes |-> (i \div (2^(Modes-k))) % 2]
\* all <<row, column, amplitude>> of H, one per (configuration, term)
Column(i) == LET f == TLCEval(Conf(i)) ts == Terms
                 out == TLCEval([t \in 1..Len(ts) |-> LET o == Term(ts[t], f) IN <<Index(o.c), i, o.a>>])
             IN SelectSeq(out, LAMBDA x : x[3] # G0)
Matrix == FlattenSeq([i \in 1..2^Modes |-> Column(i-1)])

Init == m = "" /\ N = 0 /\ obc = TRUE /\ R = 1 /\ cp = <<>> /\ conf = <<>> /\ phase = "new" /\ path = 0
New == /\ phase = "new"
       /\ \E mm \in {Rnd(Models)} : \E o \in {Rnd(Bc)} : \E r \in {IF o THEN 1 ELSE Rnd(1..3)} :
          \E n \in {Rnd((IF o THEN 2 ELSE 1)..5)} :
          /\ n * r >= 2 /\ n * r * PerSite(mm) <= MaxModes
          /\ m' = mm /\ N' = n /\ obc' = o /\ R' = r
          /\ cp' = [j \in 1..5 |-> [i \in 1..n |-> Rnd(Couplings)]]
          /\ conf' = [k \in 1..n*r*PerSite(mm) |-> Rnd({0, 1})]
       /\ phase' = "walk" /\ path' = 0
\* a walk through configuration space along the terms
Walk == /\ phase = "walk" /\ path < 4
        /\ \E t \in {Rnd(1..Len(Terms))} :
           LET o == Term(Terms[t], conf) IN conf' = (IF o.a = G0 THEN conf ELSE o.c)
        /\ path' = path + 1 /\ UNCHANGED <<m, N, obc, R, cp, phase>>
Emit == /\ phase = "walk" /\ path = 4
        /\ PrintT(ToJson([m |-> m, N |-> N, obc |-> obc, R |-> R, cp |-> cp, ncp |-> NCp, scale |-> Scale, modes |-> Modes,
                          H |-> Matrix]))
        /\ phase' = "end" /\ UNCHANGED <<m, N, obc, R, cp, conf, path>>
Next == New \/ Walk \/ Emit
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Walking == phase = "walk"
\* every term comes with its hermitian conjugate
Amp(f, g) == GSum([t \in 1..Len(Terms) |-> LET o == Term(Terms[t], f) IN IF o.c = g THEN o.a ELSE G0])
HermitianHere == Walking => \A t \in 1..Len(Terms) : LET g == Term(Terms[t], conf).c IN Amp(conf, g) = GConj(Amp(g, conf))
Number(f) == Cardinality({k \in 1..Len(f) : f[k] = 1})
Sector(f, p) == Cardinality({k \in 1..Len(f) : f[k] = 1 /\ k % 2 = p})
\* conserved charges: particle number per species, magnetisation of XXZ, parity of TFI
Charges == [][phase = "walk" /\ phase' = "walk" =>
    /\ m \in {"XXZ", "Spinless"} => Number(conf') = Number(conf)
    /\ m = "Hubbard" => Sector(conf', 0) = Sector(conf, 0) /\ Sector(conf', 1) = Sector(conf, 1)
    /\ m = "TFI" => (Number(conf') - Number(conf)) % 2 = 0]_vars
\* the fermion modes anticommute on this configuration
AC(a, ka, b, kb) == LET x == ActAll(<<<<a,ka>>,<<b,kb>>>>, [c |-> conf, a |-> G1])
                        y == ActAll(<<<<b,kb>>,<<a,ka>>>>, [c |-> conf, a |-> G1]) IN
   IF a = b /\ ka # kb THEN GAdd(x.a, y.a) = G1
   ELSE GAdd(x.a, y.a) = G0 /\ (x.a # G0 => x.c = y.c)
Anticommute == Walking /\ Fermionic => \A a, b \in 1..Modes : \A k, l \in {"C", "A"} : AC(a, k, b, l)
=============================================================================
