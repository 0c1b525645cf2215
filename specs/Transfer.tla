------------------------------- MODULE Transfer ------------------------------
(* Transfer operators as exact maps on boundary matrices.  A cell of N sites
   carries an upper tensor U[n][s] and a lower one L[n][s] (conjugated in the
   contraction); bond b (1..N+1) has dimensions DU[b] x DL[b].  A boundary matrix
   (row index on the upper layer) is carried from bond to bond:
       right:  x -> SUM_s U[n][s]^T x conj(L[n][s])
       left:   x -> SUM_s U[n][s]   x L[n][s]^dagger
   A behaviour picks a cell and then applies a history of single steps, whole
   cells and projected variants  E - |r)(l|,  1 - E + |r)(l|,  1 - e^{ik} E.     *)
EXTENDS GInt, Json
CONSTANTS Ns, Dims, Phys, Entries, MaxOps
VARIABLES N, DU, DL, d, same, closed, U, L, Y, Z, l, r, p, x, log, phase
vars == <<N, DU, DL, d, same, closed, U, L, Y, Z, l, r, p, x, log, phase>>
Rnd(X) == IF phase = "" THEN CHOOSE q \in X : TRUE ELSE RandomElement(X)
One(S) == CHOOSE q \in S : TRUE
Pool(c) == IF c THEN {<<a, b>> : a \in Entries, b \in Entries} ELSE {<<a, 0>> : a \in Entries}
RMat(n, m, c) == TLCEval([i \in 1..n |-> TLCEval([j \in 1..m |-> Rnd(Pool(c))])])
RTen(n, m, k, c) == TLCEval([s \in 1..k |-> RMat(n, m, c)])
MConj(a) == TLCEval([i \in 1..Len(a) |-> VConj(a[i])])
MSub(a, b) == TLCEval([i \in 1..Len(a) |-> VSub(a[i], b[i])])
RECURSIVE MSumTo(_, _)
MSumTo(f, k) == IF k = 1 THEN f[1] ELSE MAdd(MSumTo(f, k-1), f[k])
MSum(f) == MSumTo(f, Len(f))
\* pairing of a left with a right boundary matrix (no conjugation)
Pair(a, b) == GSum(TLCEval([i \in 1..Len(a) |-> GSum(TLCEval([j \in 1..Len(a[1]) |-> GMul(a[i][j], b[i][j])]))]))

StepR(n, m) == MSum(TLCEval([s \in 1..d[n] |-> MMul(MMul(MTrans(U[n][s]), m), MConj(L[n][s]))]))
StepL(n, m) == MSum(TLCEval([s \in 1..d[n] |-> MMul(MMul(U[n][s], m), MHerm(L[n][s]))]))
RECURSIVE AllR(_, _), AllL(_, _)
AllR(n, m) == IF n > N THEN <<m>> ELSE <<m>> \o AllR(n+1, StepR(n, m))        \* the matrices on bonds n..N+1
AllL(n, m) == IF n = 0 THEN <<m>> ELSE Append(AllL(n-1, StepL(n, m)), m)      \* on bonds 1..n+1
CellR(m) == AllR(1, m)[N+1]
CellL(m) == AllL(N, m)[1]

Init == /\ N = 0 /\ DU = <<>> /\ DL = <<>> /\ d = <<>> /\ same = FALSE /\ closed = FALSE /\ U = <<>> /\ L = <<>> /\ Y = <<>> /\ Z = <<>>
        /\ l = <<>> /\ r = <<>> /\ p = 0 /\ x = <<>> /\ log = <<>> /\ phase = "new"
New == /\ phase = "new"
       /\ \E n \in {Rnd(Ns)} : \E sm, cl \in {Rnd(BOOLEAN)} : \E du0, dl0 \in {TLCEval([i \in 1..n+1 |-> Rnd(Dims)])} :
          \E c \in {Rnd(BOOLEAN)} : \E ph \in {TLCEval([i \in 1..n |-> Rnd(Phys)])} :
          LET s2 == Rnd({sm, ~sm})  c2 == cl
              Cl(v) == [i \in 1..n+1 |-> IF c2 /\ i = n+1 THEN v[1] ELSE v[i]] IN
          \E s \in {s2} : \E du \in {TLCEval(Cl(du0))} : \E dl \in {IF s THEN TLCEval(Cl(du0)) ELSE TLCEval([i \in 1..n+1 |-> IF i = n+1 /\ c2 THEN dl0[1] ELSE dl0[i]])} :
          /\ N' = n /\ DU' = du /\ DL' = dl /\ d' = ph /\ same' = s /\ closed' = c2
          /\ \E u \in {TLCEval([i \in 1..n |-> RTen(du[i], du[i+1], ph[i], c)])} :
             /\ U' = u
             /\ L' = IF s THEN u ELSE TLCEval([i \in 1..n |-> RTen(dl[i], dl[i+1], ph[i], c)])
          /\ Y' = TLCEval([i \in 1..n+1 |-> RMat(du[i], dl[i], c)]) /\ Z' = TLCEval([i \in 1..n+1 |-> RMat(du[i], dl[i], c)])
          /\ l' = RMat(du[1], dl[1], c) /\ r' = RMat(du[1], dl[1], c)
          /\ \E b \in {Rnd(1..n+1)} : p' = b /\ x' = RMat(du[b], dl[b], c)
       /\ phase' = "ops" /\ log' = <<>>
Put(e, q, m) == /\ p' = q /\ x' = m
                /\ log' = Append(log, [e |-> e, from |-> p, to |-> q, in |-> x, out |-> m])
                /\ UNCHANGED <<N, DU, DL, d, same, closed, U, L, Y, Z, l, r, phase>>
Right == p <= N /\ Put([op |-> "step", dir |-> 1, site |-> p], p+1, StepR(p, x))
Left == p > 1 /\ Put([op |-> "step", dir |-> -1, site |-> p-1], p-1, StepL(p-1, x))
CellRight == p = 1 /\ Put([op |-> "cell", dir |-> 1, all |-> AllR(1, x)], N+1, CellR(x))
CellLeft == p = N+1 /\ Put([op |-> "cell", dir |-> -1, all |-> AllL(N, x)], 1, CellL(x))
\* a fresh matrix somewhere else
Fresh == /\ \E b \in {Rnd(1..N+1)} : p' = b /\ \E c \in {Rnd(BOOLEAN)} : x' = RMat(DU[b], DL[b], c)
         /\ UNCHANGED <<N, DU, DL, d, same, closed, U, L, Y, Z, l, r, log, phase>>
\* projected variants; the matrix lives on the closing bond
End == closed /\ (p = 1 \/ p = N+1)
Turn(k) == One({q \in {<<<<1,0>>, 0>>, <<<<0,1>>, 1>>, <<<<-1,0>>, 2>>, <<<<0,-1>>, -1>>} : q[2] = k})[1]      \* e^{i k pi/2}
Over(dir) == IF dir > 0 THEN MScale(Pair(x, r), l) ELSE MScale(Pair(l, x), r)
Moved(dir) == IF dir > 0 THEN CellR(x) ELSE CellL(x)
Pseudo == End /\ \E dir \in {Rnd({1, -1})} :
          Put([op |-> "pseudo", dir |-> dir], p, MSub(Moved(dir), Over(dir)))
OneMinus == End /\ \E dir \in {Rnd({1, -1})} : \E k \in {Rnd({0, 0, 1, 2, -1})} :
          Put([op |-> "oneminus", dir |-> dir, k |-> k], p,
              IF k = 0 THEN MAdd(MSub(x, Moved(dir)), Over(dir)) ELSE MSub(x, MScale(Turn(k), Moved(dir))))
Small == \A i \in 1..Len(x) : AllBelow(x[i], 20000)
Ops == phase = "ops" /\ Len(log) < MaxOps /\
       IF ~Small THEN Fresh ELSE (Right \/ Left \/ CellRight \/ CellLeft \/ Pseudo \/ OneMinus \/ Fresh)
Emit == /\ phase = "ops" /\ Len(log) = MaxOps
        /\ PrintT(ToJson([N |-> N, DU |-> DU, DL |-> DL, d |-> d, same |-> same, closed |-> closed, U |-> U, L |-> L, l |-> l, r |-> r, log |-> log]))
        /\ phase' = "done" /\ UNCHANGED <<N, DU, DL, d, same, closed, U, L, Y, Z, l, r, p, x, log>>
Next == New \/ Ops \/ Emit
Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------------
Up == phase = "ops"
\* left and right steps are adjoint, site by site and for the cell
Adjoint == Up /\ log = <<>> => /\ \A n \in 1..N : Pair(StepR(n, Y[n]), Z[n+1]) = Pair(Y[n], StepL(n, Z[n+1]))
                               /\ Pair(CellR(Y[1]), Z[N+1]) = Pair(Y[1], CellL(Z[N+1]))
\* a cell is the sum over all configurations of the products of its tensors
RECURSIVE Prod(_, _, _), Confs(_)
Prod(T, c, n) == IF n = 1 THEN T[1][c[1]] ELSE MMul(Prod(T, c, n-1), T[n][c[n]])
Confs(n) == IF n = 0 THEN <<<<>>>> ELSE LET q == TLCEval(Confs(n-1)) IN
            TLCEval([k \in 1..Len(q)*d[n] |-> Append(q[((k-1) \div d[n]) + 1], ((k-1) % d[n]) + 1)])
Composed == Up /\ log = <<>> => LET cs == TLCEval(Confs(N)) IN
    CellR(Y[1]) = MSum(TLCEval([k \in 1..Len(cs) |-> MMul(MMul(MTrans(Prod(U, cs[k], N)), Y[1]), MConj(Prod(L, cs[k], N)))]))
\* with equal layers, hermitian matrices stay hermitian
Hermitian == Up /\ log = <<>> /\ same => \A n \in 1..N : LET h == MAdd(Y[n], MHerm(Y[n])) q == StepR(n, h) IN q = MHerm(q)
Fits == Up => Len(x) = DU[p] /\ Len(x[1]) = DL[p]
==============================================================================
