-------------------------------- MODULE Mirror --------------------------------
(* Exact time evolution without a Hamiltonian: the XX chain with couplings
   J_n = sqrt(n(N-n)) sends, in time pi, every configuration of k excitations to
   its mirror image with the factor (-i)^(k(N-1)) (-1)^(k(k-1)/2) (free fermions:
   each excitation is mirrored with phase (-i)^(N-1), and their order is reversed).
   A uniform field B adds exp(-i pi B (k - N/2)): B is even, so this is exp(-i pi B k)exp(i pi B N/2).
   Amplitudes are Gaussian integers; the clock counts 1/Q of that time.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, GInt
CONSTANTS Ns, Q, MaxUser
VARIABLES N, psi, psi0, t, b, n, path
vars == <<N, psi, psi0, t, b, n, path>>
Rnd(S) == IF N = 0 THEN CHOOSE x \in S : TRUE ELSE RandomElement(S)
Rng == -3..3
RECURSIVE Pow(_, _)
Pow(z, k) == IF k = 0 THEN G1 ELSE GMul(z, Pow(z, k-1))
\* configurations as numbers 0..2^N-1, site 1 the most significant bit (1: excited)
Bit(x, s) == (x \div (2^(N-s))) % 2
RECURSIVE SumF(_, _)
SumF(F(_), k) == IF k = 0 THEN 0 ELSE F(k) + SumF(F, k-1)
Cnt(x) == LET F(s) == Bit(x, s) IN SumF(F, N)
Flip(x) == LET F(s) == Bit(x, N+1-s) * 2^(N-s) IN SumF(F, N)
MI == <<0, -1>>
Phase(x) == LET k == Cnt(x) IN GMul(Pow(MI, (k*(N-1)) % 4), Pow(<<-1, 0>>, (k*(k-1)) \div 2))
FieldPhase(x) == IF ((b \div 2) * (2*Cnt(x) - N)) % 2 = 0 THEN G1 ELSE <<-1, 0>>      \* exp(-i pi b (k-N/2)), b even
Mirrored(p, dir) == TLCEval([x \in 0..2^N-1 |->
     LET y == Flip(x)
         f == GMul(Phase(y), FieldPhase(y)) IN
     GMul(p[y], IF dir > 0 THEN f ELSE GConj(f))])

List(p) == [i \in 1..Cardinality(DOMAIN p) |-> p[i-1]]
Init == N = 0 /\ psi = <<>> /\ psi0 = <<>> /\ t = 0 /\ b = 0 /\ n = 0 /\ path = <<>>
Start == /\ N = 0 /\ N' = RandomElement(IF n = 0 THEN Ns ELSE {}) /\ b' = RandomElement(IF n = 0 THEN {0, 2, -2, 4} ELSE {})
         /\ psi' = TLCEval([x \in 0..2^(N')-1 |-> <<RandomElement(IF n = 0 THEN Rng ELSE {}), RandomElement(IF n = 0 THEN Rng ELSE {})>>])
         /\ psi0' = List(psi') /\ UNCHANGED <<t, n, path>>
\* psi is the state at clock time floor(t/Q)*Q
Floor(x) == (x + 1000*Q) \div Q - 1000
RECURSIVE Times(_, _)
Times(p, k) == IF k = 0 THEN p ELSE IF k > 0 THEN Times(Mirrored(p, 1), k-1) ELSE Times(Mirrored(p, -1), k+1)
\* sites left outside on either side when the chain is handed to an engine that evolves a window of it:
\* at full bond dimension the outer sites span their whole space, so the window sees the whole chain
Windows == {<<a, z>> \in (0..N \div 2) \X (0..N \div 2) : a + z < N}
Run == /\ N > 0 /\ n < MaxUser /\ n' = n + 1
       /\ \E k \in {Rnd((-Q..Q) \ {0})} : \E kind \in {Rnd({"tdvp", "tdvp2", "tdvp3", "position", "file", "window"})} :
         \E w \in {Rnd(Windows)} :
           /\ t' = t + (IF kind \in {"tdvp","tdvp2","tdvp3"} THEN k ELSE 0)
           /\ psi' = Times(psi, Floor(t') - Floor(t))
           /\ path' = Append(path, [op |-> IF kind \in {"position", "file", "window"} THEN kind ELSE "tdvp", k |-> IF kind \in {"tdvp","tdvp2","tdvp3"} THEN k ELSE ((k + Q) % (N+1)),
                                    win |-> w, known |-> t' % Q = 0, psi |-> IF t' % Q = 0 THEN List(psi') ELSE <<>>])
       /\ UNCHANGED <<N, b, psi0>>
\* return to a known time at the end
Finish == /\ N > 0 /\ n = MaxUser /\ n' = n + 1
          /\ \E k \in {Rnd({x \in 1..Q : (t + x) % Q = 0})} :
              /\ t' = t + k /\ psi' = Times(psi, Floor(t') - Floor(t))
              /\ path' = Append(path, [op |-> "tdvp", k |-> k, known |-> TRUE, psi |-> List(psi')])
          /\ UNCHANGED <<N, b, psi0>>
Done == /\ n = MaxUser + 1 /\ n' = n + 1 /\ UNCHANGED <<N, psi, psi0, t, b, path>>
        /\ PrintT(ToJson([N |-> N, b |-> b, t |-> t, path |-> path, start |-> psi0]))
Next == Start \/ Run \/ Finish \/ Done
Spec == Init /\ [][Next]_vars
NormSq(p) == LET F(s) == p[s-1][1]^2 + p[s-1][2]^2 IN SumF(F, 2^N)
\* mirroring twice is a multiple of one: back to the start up to a global sign
TwiceIsIdentity == N > 0 => \E g \in {G1, <<-1, 0>>} : \A x \in 0..2^N-1 :
                     Mirrored(Mirrored(psi, 1), 1)[x] = GMul(psi[x], GMul(g, IF (Cnt(x)*(N-1)) % 2 = 0 THEN G1 ELSE <<-1, 0>>))
Inverse == N > 0 => Mirrored(Mirrored(psi, 1), -1) = psi
=============================================================================
