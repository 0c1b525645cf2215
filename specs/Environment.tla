----------------------------- MODULE Environment -----------------------------
(* A ket, an operator and a bra as finite tensor chains, and the process that
   contracts them: blocks are absorbed from the left and from the right in any
   order until one site (or only a bond) remains.  Whatever the order, the value
   is the matrix element of the operator between the two states.
     A[n][s][i][j]   ket tensor     B[n][s'][i][j]  bra tensor
     W[n][a][b][s][s']  operator tensor, s belongs to the ket and s' to the bra
   A left block is L[a][i][i'], a right block R[b][j][j'].                      *)
EXTENDS Dense, TLC, Json, FiniteSetsExt
CONSTANTS Ns, Entries, KBonds, WBonds, Kinds
VARIABLES kind, N, dk, db, cplx, A, B, W, lb, rb, l, r, Lb, Rb, phase
vars == <<kind, N, dk, db, cplx, A, B, W, lb, rb, l, r, Lb, Rb, phase>>
Rnd(X) == IF phase = "" THEN CHOOSE x \in X : TRUE ELSE RandomElement(X)
Pool(c) == IF c THEN {<<a, b>> : a \in Entries, b \in Entries} ELSE {<<a, 0>> : a \in Entries}
RMat(n, m, c) == [i \in 1..n |-> [j \in 1..m |-> Rnd(Pool(c))]]
\* operator entries: general, with unit diagonal, diagonal
ROp(e, n, m, c) == LET g == TLCEval(RMat(n, m, c)) IN
   CASE e = 1 -> [i \in 1..n |-> [j \in 1..m |-> IF i = j THEN G1 ELSE g[i][j]]]
     [] e = 2 -> [i \in 1..n |-> [j \in 1..m |-> IF i = j THEN g[i][j] ELSE G0]]
     [] OTHER -> g
RTen(n, m, d, c) == [s \in 1..d |-> RMat(n, m, c)]

MSum(f) == LET RECURSIVE S(_) S(k) == IF k = 1 THEN f[1] ELSE MAdd(S(k-1), f[k]) IN S(Len(f))
MConj(x) == [i \in 1..Len(x) |-> VConj(x[i])]
MZero(n, m) == [i \in 1..n |-> [j \in 1..m |-> G0]]
\* one layer.  T[s] = A[s]^T L[a], then scattered over the operator
AddL(E, a, w, b) == TLCEval([y \in 1..Len(w[1]) |->
   MSum([s2 \in 1..Len(b) |-> MMul(MSum([k \in 1..Len(E)*Len(a) |->
        LET x == ((k-1) \div Len(a)) + 1  s == ((k-1) % Len(a)) + 1 IN
        MScale(w[x][y][s][s2], MMul(MTrans(a[s]), E[x]))]), MConj(b[s2]))])])
AddR(E, a, w, b) == TLCEval([x \in 1..Len(w) |->
   MSum([s2 \in 1..Len(b) |-> MMul(MSum([k \in 1..Len(E)*Len(a) |->
        LET y == ((k-1) \div Len(a)) + 1  s == ((k-1) % Len(a)) + 1 IN
        MScale(w[x][y][s][s2], MMul(a[s], E[y]))]), MTrans(MConj(b[s2])))])])
\* effective one-site product, a tensor with the bra's legs
Eff(L, w, R, a) == TLCEval([s2 \in 1..Len(w[1][1][1]) |->
   MSum([k \in 1..Len(L)*Len(R)*Len(a) |->
      LET x == ((k-1) \div (Len(R)*Len(a))) + 1  y == (((k-1) \div Len(a)) % Len(R)) + 1  s == ((k-1) % Len(a)) + 1 IN
      MScale(w[x][y][s][s2], MMul(MTrans(L[x]), MMul(a[s], R[y])))])])
EffBond(L, R, m) == MSum([x \in 1..Len(L) |-> MMul(MTrans(L[x]), MMul(m, R[x]))])
\* full contractions
Dot2(x, y) == GSum([i \in 1..Len(x) |-> GSum([j \in 1..Len(x[1]) |-> GMul(x[i][j], y[i][j])])])
Close(L, R) == GSum([x \in 1..Len(L) |-> Dot2(L[x], R[x])])
CloseSite(t, b) == GSum([s \in 1..Len(b) |-> Dot2(t[s], MConj(b[s]))])

\* dense meaning, for boundaries of dimension one
RECURSIVE Vec(_, _, _, _)
Vec(d, t, n, i) == IF n = 0 THEN <<<<G1>>>> ELSE MMul(Vec(d, t, n-1, i), t[n][Digit(d, n, i)+1])
DVec(d, t) == [i \in 1..Prod(d) |-> Vec(d, t, Len(d), i)[1][1]]
RECURSIVE OpEl(_, _, _)
OpEl(n, i, k) == IF n = 0 THEN <<<<G1>>>> ELSE
   MMul(OpEl(n-1, i, k), [x \in 1..Len(W[n]) |-> [y \in 1..Len(W[n][1]) |-> W[n][x][y][Digit(dk, n, i)+1][Digit(db, n, k)+1]]])
Applied == LET v == TLCEval(DVec(dk, A)) IN
   TLCEval([k \in 1..Prod(db) |-> GSum([i \in 1..Prod(dk) |-> GMul(v[i], OpEl(N, i, k)[1][1])])])
Exact == Inner(Applied, DVec(db, B))

Open == kind \in {"obc", "same", "id"}
Init == kind \in Kinds /\ N \in Ns /\ cplx \in BOOLEAN /\ dk = <<>> /\ db = <<>> /\ A = <<>> /\ B = <<>> /\ W = <<>>
        /\ lb = <<>> /\ rb = <<>> /\ l = 0 /\ r = 0 /\ Lb = <<>> /\ Rb = <<>> /\ phase = "new"
\* bond b of a chain: dimension 1 at the ends of open chains, and never more than its neighbour allows
BondSeq(S) == TLCEval([b \in 1..N+1 |-> IF Open /\ (b = 1 \/ b = N+1) THEN 1 ELSE Rnd(S)])
New == /\ phase = "new"
       /\ \E cw \in {cplx \/ (kind # "id" /\ Rnd(BOOLEAN))} :
          \E d1 \in {TLCEval([n \in 1..N |-> Rnd({2, 3})])} :
          \E d2 \in {IF kind \in {"same", "id", "eff"} THEN d1 ELSE TLCEval([n \in 1..N |-> Rnd({1, 2, 3})])} :
          \E Da \in {BondSeq(KBonds)} : \E Db \in {IF kind \in {"same", "eff"} THEN Da ELSE BondSeq(KBonds)} :
          \E Dw \in {IF kind = "id" THEN [b \in 1..N+1 |-> 1] ELSE BondSeq(WBonds)} :
          \E a \in {TLCEval([n \in 1..N |-> RTen(Da[n], Da[n+1], d1[n], cplx)])} :
          \E b \in {IF kind \in {"same", "eff"} THEN a ELSE TLCEval([n \in 1..N |-> RTen(Db[n], Db[n+1], d2[n], cplx)])} :
          \E w \in {IF kind = "id" THEN TLCEval([n \in 1..N |-> <<<<MId(d1[n])>>>>])
                    ELSE TLCEval([n \in 1..N |-> LET e == Rnd(1..6) IN [x \in 1..Dw[n] |-> [y \in 1..Dw[n+1] |-> ROp(e, d1[n], d2[n], cw)]]])} :
          \E x \in {IF Open THEN <<<<<<G1>>>>>> ELSE TLCEval([k \in 1..Dw[1] |-> RMat(Da[1], Db[1], cplx)])} :
          \E y \in {IF Open THEN <<<<<<G1>>>>>> ELSE TLCEval([k \in 1..Dw[N+1] |-> RMat(Da[N+1], Db[N+1], cplx)])} :
          /\ dk' = d1 /\ db' = d2 /\ A' = a /\ B' = b /\ W' = w /\ lb' = x /\ rb' = y
          /\ Lb' = <<x>> /\ Rb' = <<y>>
       /\ phase' = "run" /\ UNCHANGED <<kind, N, cplx, l, r>>
\* blocks grow in any order; Lb[k+1] holds k sites, Rb[k+1] the last k sites
GrowL == /\ phase = "run" /\ l + r < N
         /\ Lb' = Append(Lb, AddL(Lb[l+1], A[l+1], W[l+1], B[l+1])) /\ l' = l + 1
         /\ UNCHANGED <<kind, N, dk, db, cplx, A, B, W, lb, rb, r, Rb, phase>>
GrowR == /\ phase = "run" /\ l + r < N
         /\ Rb' = Append(Rb, AddR(Rb[r+1], A[N-r], W[N-r], B[N-r])) /\ r' = r + 1
         /\ UNCHANGED <<kind, N, dk, db, cplx, A, B, W, lb, rb, l, Lb, phase>>
\* all remaining blocks, for the replay
RECURSIVE FullL(_, _), FullR(_, _)
FullL(bl, k) == IF k = N THEN bl ELSE FullL(Append(bl, AddL(bl[k+1], A[k+1], W[k+1], B[k+1])), k+1)
FullR(bl, k) == IF k = N THEN bl ELSE FullR(Append(bl, AddR(bl[k+1], A[N-k], W[N-k], B[N-k])), k+1)
Meet == /\ phase = "run" /\ l + r = N
        /\ \E fl \in {FullL(Lb, l)} : \E fr \in {FullR(Rb, r)} : \E m \in {RMat(Len(A[Max2(l,1)][1][1]), Len(A[Max2(l,1)][1][1]), cplx)} :
           PrintT(ToJson([kind |-> kind, N |-> N, dk |-> dk, db |-> db, cplx |-> cplx, A |-> A, B |-> B, W |-> W, lb |-> lb, rb |-> rb,
              cut |-> l, L |-> fl, R |-> fr, value |-> Close(fl[l+1], fr[r+1]),
              eff |-> [n \in 1..N |-> Eff(fl[n], W[n], fr[N-n+1], A[n])],
              X |-> m, bond |-> IF l >= 1 /\ kind \in {"same", "eff"} THEN EffBond(fl[l+1], fr[r+1], m) ELSE <<>>,
              applied |-> IF Open THEN Applied ELSE <<>>]))
        /\ phase' = "done" /\ UNCHANGED <<kind, N, dk, db, cplx, A, B, W, lb, rb, l, r, Lb, Rb>>
Next == New \/ GrowL \/ GrowR \/ Meet
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
\* when one site is left the effective product closes to the matrix element
OneSiteValue == phase = "run" /\ l + r = N - 1 =>
   LET v == CloseSite(Eff(Lb[l+1], W[l+1], Rb[r+1], A[l+1]), B[l+1]) IN
   /\ Open => v = Exact
   /\ v = Close(AddL(Lb[l+1], A[l+1], W[l+1], B[l+1]), Rb[r+1])
   /\ v = Close(Lb[l+1], AddR(Rb[r+1], A[l+1], W[l+1], B[l+1]))
ZeroSiteValue == phase = "run" /\ l + r = N /\ Open => Close(Lb[l+1], Rb[r+1]) = Exact
=============================================================================
