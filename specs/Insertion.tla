------------------------------ MODULE Insertion -------------------------------
(* The growing search on an infinite chain.  Sites carry identities 1..N of the
   unit cell; u[i] is the energy of site i and b[i] that of its bond to the next
   one in the (product) ground state.  The chain is  left o cell o right  between
   two half-infinite chains whose own energy is projected out.  An iteration
   optimises the cell, then cuts it in the middle: the left part is absorbed to
   the left, the right part to the right, and the two parts change places in the
   cell.  Regauging starts afresh from the infinite state of the current cell.
   A behaviour is a history of calls; it records what must be seen after each. *)
EXTENDS Integers, Sequences, TLC, Json, FiniteSets, SequencesExt
CONSTANTS Ns, MaxCalls, MaxIter, Values
VARIABLES N, d, s, u, b, left, cell, right, call, it, eold, skip, out, ups, phase
vars == <<N, d, s, u, b, left, cell, right, call, it, eold, skip, out, ups, phase>>
Rnd(S) == IF phase = "" THEN CHOOSE x \in S : TRUE ELSE RandomElement(S)
Sum(q) == FoldLeft(LAMBDA x, y : x + y, 0, q)
Nx(i) == (i % N) + 1
Pv(i) == ((i + N - 2) % N) + 1
K == N \div 2

Init == N = 0 /\ d = <<>> /\ s = <<>> /\ u = <<>> /\ b = <<>> /\ left = <<>> /\ cell = <<>> /\ right = <<>>
        /\ call = <<>> /\ it = 0 /\ eold = 0 /\ skip = FALSE /\ out = <<>> /\ ups = 0 /\ phase = "new"
New == /\ phase = "new"
       /\ \E n \in {Rnd(Ns)} : \E ds \in {TLCEval([i \in 1..n |-> Rnd(2..3)])} :
          /\ N' = n /\ d' = ds /\ s' = TLCEval([i \in 1..n |-> Rnd(1..ds[i])])
          /\ u' = TLCEval([i \in 1..n |-> Rnd(Values)]) /\ b' = TLCEval([i \in 1..n |-> Rnd(Values)])
          /\ cell' = [i \in 1..n |-> i]
       /\ phase' = "idle" /\ UNCHANGED <<left, right, call, it, eold, skip, out, ups>>

\* energies of the parts: every site brings the bond to its left (left, cell), or to its right (right)
LeftE(l) == Sum([k \in 1..Len(l) |-> u[l[k]] + b[Pv(l[k])]])
RightE(r) == Sum([k \in 1..Len(r) |-> u[r[k]] + b[r[k]]])
Total(l, c, r) == LeftE(l) + LeftE(c) + b[c[Len(c)]] + RightE(r)
CellE == Sum([i \in 1..N |-> u[i] + b[i]])

Call == /\ phase = "idle" /\ Len(out) < MaxCalls
        /\ \E two \in {Rnd({TRUE, FALSE})} : \E mx \in {Rnd(0..MaxIter)} : \E rg \in {Rnd({0, 0, 2, 3})} : \E nuc \in {Rnd(1..2)} :
           call' = [two |-> two, Nmax |-> mx, regauge |-> rg, NUC |-> nuc, its |-> <<>>]
        /\ it' = 0 /\ eold' = 0 /\ skip' = FALSE /\ phase' = "run"
        /\ UNCHANGED <<N, d, s, u, b, left, cell, right, out, ups>>
Fresh == call.regauge > 0 /\ it > 0 /\ it % call.regauge = 0
\* what is reported for the iteration: the energy of the inserted cell, nothing, or that of the infinite state
Said(e) == IF Fresh THEN [kind |-> "cell", v |-> CellE]
           ELSE IF skip THEN [kind |-> "none", v |-> 0]
           ELSE [kind |-> IF it = 0 THEN "first" ELSE "cell", v |-> e - eold]
Iterate == /\ phase = "run" /\ it <= call.Nmax
           /\ LET e == Total(left, cell, right)
                  c == SubSeq(cell, K+1, N) \o SubSeq(cell, 1, K)
                  l == IF Fresh THEN <<>> ELSE left \o SubSeq(cell, 1, K)
                  r == IF Fresh THEN <<>> ELSE SubSeq(cell, K+1, N) \o right IN
              /\ cell' = c /\ left' = l /\ right' = r /\ eold' = e
              /\ ups' = IF Fresh THEN 0 ELSE ups + 1
              /\ skip' = IF Fresh THEN TRUE ELSE FALSE
              /\ call' = [call EXCEPT !.its = Append(@, [e |-> e, said |-> Said(e), fresh |-> Fresh])]
           /\ it' = it + 1 /\ UNCHANGED <<N, d, s, u, b, out, phase>>
Return == /\ phase = "run" /\ it > call.Nmax
          /\ out' = Append(out, [c |-> call, cell |-> cell, left |-> LeftE(left), right |-> RightE(right),
                                 nleft |-> Len(left), nright |-> Len(right), total |-> Total(left, cell, right)])
          /\ phase' = "idle" /\ UNCHANGED <<N, d, s, u, b, left, cell, right, call, it, eold, skip, ups>>
Emit == /\ phase = "idle" /\ Len(out) = MaxCalls
        /\ PrintT(ToJson([N |-> N, d |-> d, s |-> s, u |-> u, b |-> b, out |-> out, cellE |-> CellE]))
        /\ phase' = "end" /\ UNCHANGED <<N, d, s, u, b, left, cell, right, call, it, eold, skip, out, ups>>
Next == New \/ Call \/ Iterate \/ Return \/ Emit
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Up == phase \in {"idle", "run"}
Chain == left \o cell \o right
\* no coupling lost, duplicated or reordered: the chain is the crystal everywhere
Crystal == Up => \A k \in 1..Len(Chain)-1 : Chain[k+1] = Nx(Chain[k])
CellKept == Up => Len(cell) = N /\ ToSet(cell) = 1..N
\* every site has been absorbed equally often
Even == Up => \A i \in 1..N : Cardinality({k \in 1..Len(Chain) : Chain[k] = i}) = ups + 1
\* one more cell always costs the energy of one cell
Increment == [][(phase = "run" /\ phase' = "run" /\ ups' = ups + 1) => Total(left', cell', right') - Total(left, cell, right) = CellE]_vars
Reported == Up => (Len(out) >= 0 /\ \A k \in 1..(IF phase = "run" THEN Len(call.its) ELSE 0) :
                     call.its[k].said.kind = "cell" => call.its[k].said.v = CellE)
=============================================================================
