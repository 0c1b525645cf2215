------------------------------- MODULE Markov --------------------------------
(* Infinite matrix product states whose physics is exactly known.  A walker runs
   M times round a cell of N bonds, visiting levels 1..D[n] of bond n, and comes
   back to where it started.  The flows F[n][a][b] it leaves behind define
       A[n][s] = SUM_{ab with label s} phase * sqrt(F[n][a][b] / w[n][a]) |a><b|
   with w[n][a] the traffic through level a.  If edges with a common label never
   share an end, the right fixed point is 1 on every bond, the left one is
   diag(w/M), the dominant eigenvalue is 1, the Schmidt values are sqrt(w/M),
   and diagonal observables are those of the stationary chain.
   Home > 0 sends that many further walkers straight round the first levels, which
   makes the other ones rare: Schmidt values of different orders of magnitude.
   A behaviour: a walk, a labelling, gauge matrices, and a history of requests. *)
EXTENDS GInt, TLC, Json, FiniteSetsExt, SequencesExt
CONSTANTS CellLens, Levels, Laps, MaxOps, Kinds, MaxLabels, Home
VARIABLES N, D, M, walk, F, w, lab, ph, X, pos, flag, sch, log, phase
vars == <<N, D, M, walk, F, w, lab, ph, X, pos, flag, sch, log, phase>>
Rnd(S) == IF phase = "" THEN CHOOSE x \in S : TRUE ELSE RandomElement(S)

Site(k) == ((k-1) % N) + 1
Nx(n) == (n % N) + 1

Init == N = 0 /\ D = <<>> /\ M = 0 /\ walk = <<>> /\ F = <<>> /\ w = <<>> /\ lab = <<>> /\ ph = <<>> /\ X = <<>>
        /\ pos = 0 /\ flag = <<>> /\ sch = FALSE /\ log = <<>> /\ phase = "new"
New == /\ phase = "new"
       /\ \E n \in {Rnd(CellLens)} : \E ds \in {TLCEval([i \in 1..n |-> Rnd(Levels)])} : \E m \in {Rnd(Laps)} :
          /\ N' = n /\ D' = ds /\ M' = m
          /\ F' = [i \in 1..n |-> [a \in 1..ds[i] |-> [b \in 1..ds[(i % n)+1] |-> 0]]]
          /\ walk' = <<1>> /\ phase' = "walk"
       /\ UNCHANGED <<w, lab, ph, X, pos, flag, sch, log>>
\* one step of the walker; the last one closes the walk
Walk == /\ phase = "walk" /\ Len(walk) <= N*M
        /\ LET k == Len(walk)  n == Site(k)  a == walk[k] IN
           \E b \in {IF k = N*M THEN 1 ELSE Rnd(1..D[Nx(n)])} :
             /\ walk' = Append(walk, b) /\ F' = [F EXCEPT ![n][a][b] = @ + 1]
        /\ UNCHANGED <<N, D, M, w, lab, ph, X, pos, flag, sch, log, phase>>

Full == TLCEval([n \in 1..N |-> [a \in 1..D[n] |-> [b \in 1..D[Nx(n)] |-> F[n][a][b] + (IF a = 1 /\ b = 1 THEN Home ELSE 0)]]])
Traffic == LET f == Full IN TLCEval([n \in 1..N |-> TLCEval([a \in 1..D[n] |-> ISum(TLCEval(f[n][a]))])])
\* boolean products: which levels of bond 1 are reached from which after whole cells
BMul(x, y) == TLCEval([i \in 1..Len(x) |-> TLCEval([j \in 1..Len(y[1]) |-> \E k \in 1..Len(y) : x[i][k] /\ y[k][j]])])
Bool(m) == TLCEval([i \in 1..Len(m) |-> TLCEval([j \in 1..Len(m[1]) |-> m[i][j] > 0])])
RECURSIVE CellB(_, _), BPow(_, _)
CellB(f, n) == IF n = 1 THEN Bool(f[1]) ELSE BMul(CellB(f, n-1), Bool(f[n]))
BPow(m, k) == IF k = 0 THEN m ELSE LET q == BPow(m, k-1) IN BMul(q, q)
Positive(m) == \A i \in 1..Len(m) : \A j \in 1..Len(m[1]) : m[i][j]
Primitive(f) == Positive(BPow(CellB(f, N), 4))
Edges(n) == [i \in 1..D[n]*D[Nx(n)] |-> <<((i-1) \div D[Nx(n)]) + 1, ((i-1) % D[Nx(n)]) + 1>>]
One(S) == CHOOSE x \in S : TRUE
\* labels: an edge may join a label none of whose edges shares an end with it
RECURSIVE Label(_, _, _, _)
Label(n, es, acc, top) ==
  IF es = <<>> THEN <<acc, top>>
  ELSE IF F[n][Head(es)[1]][Head(es)[2]] = 0 THEN Label(n, Tail(es), acc, top)
  ELSE LET e == Head(es)
           ok == {s \in 1..top : \A f \in DOMAIN acc : acc[f] = s => f[1] # e[1] /\ f[2] # e[2]} IN
       One({Label(n, Tail(es), acc @@ (e :> c), IF c > top THEN c ELSE top) : c \in {Rnd(ok \cup {top+1})}})
LabelOf(n) == One({[d |-> r[2], l |-> TLCEval([a \in 1..D[n] |-> TLCEval([b \in 1..D[Nx(n)] |->
                  IF <<a, b>> \in DOMAIN r[1] THEN r[1][<<a, b>>] ELSE 0])])] : r \in {Label(n, Edges(n), <<>>, 0)}})
\* random unimodular matrices together with their inverses
Unit(n) == [x |-> MId(n), i |-> MId(n)]
PhaseAt(n, i, z) == TLCEval([a \in 1..n |-> TLCEval([b \in 1..n |-> IF a = b THEN (IF a = i THEN z ELSE G1) ELSE G0])])
ShearAt(n, i, j, z) == TLCEval([a \in 1..n |-> TLCEval([b \in 1..n |-> IF a = b THEN G1 ELSE IF a = i /\ b = j THEN z ELSE G0])])
RECURSIVE Elem(_, _, _, _)
Elem(n, k, acc, real) ==
  IF k = 0 THEN acc
  ELSE One({Elem(n, k-1, IF n = 1 \/ r[1] = 1
                THEN [x |-> MMul(acc.x, PhaseAt(n, r[2], r[4])), i |-> MMul(PhaseAt(n, r[2], GConj(r[4])), acc.i)]
                ELSE LET j == IF r[3] = r[2] THEN (r[2] % n) + 1 ELSE r[3] IN
                     [x |-> MMul(acc.x, ShearAt(n, r[2], j, r[4])), i |-> MMul(ShearAt(n, r[2], j, GNeg(r[4])), acc.i)], real)
            : r \in {<<Rnd(1..2), Rnd(1..n), Rnd(1..n), Rnd(IF real THEN {<<-1,0>>, <<1,0>>} ELSE {<<0,1>>, <<-1,0>>, <<0,-1>>, <<1,0>>})>>}})

Ready == /\ phase = "walk" /\ Len(walk) = N*M + 1
         /\ w' = Traffic /\ F' = Full /\ M' = M + Home
         /\ IF (Home > 0 => \A n \in 1..N : F[n][1][1] > 0) /\ (\A n \in 1..N : \A a \in 1..D[n] : Traffic[n][a] > 0) /\ Primitive(F)
            THEN /\ phase' = "ops"
                 /\ \E l \in {TLCEval([n \in 1..N |-> LabelOf(n)])} : lab' = l /\ (\A n \in 1..N : l[n].d <= MaxLabels)
                 /\ \E real \in {Rnd({TRUE, FALSE})} :
                   /\ ph' = TLCEval([n \in 1..N |-> TLCEval([a \in 1..D[n] |-> TLCEval([b \in 1..D[Nx(n)] |-> Rnd(IF real THEN {0, 2} ELSE 0..3)])])])
                   \* X[n] sits on bond n; X[N+1] closes the cell (equal to X[1], or not: then the closing bond carries a connector)
                   /\ \E g \in {Rnd(0..2)} : \E x \in {TLCEval([n \in 1..N |-> Elem(D[n], g, Unit(D[n]), real)])} :
                      X' = x
            ELSE phase' = "dead" /\ UNCHANGED <<lab, ph, X>>
         /\ pos' = N /\ flag' = [n \in 1..N |-> "L"] /\ sch' = FALSE
         /\ UNCHANGED <<N, D, walk, log>>

(* exact values *)
LCM(a, b) == (a * b) \div GCD(a, b)
RECURSIVE LcmOf(_)
LcmOf(S) == IF S = {} THEN 1 ELSE LET x == One(S) IN LCM(x, LcmOf(S \ {x}))
\* common denominator of the hops out of bond n
Den(n) == LcmOf({w[n][a] : a \in 1..D[n]})
Hop(n, v) == TLCEval([b \in 1..D[Nx(n)] |-> ISum([a \in 1..D[n] |-> v[a] * F[n][a][b] * (Den(n) \div w[n][a])])])
HopF(n, v, f) == TLCEval([b \in 1..D[Nx(n)] |-> ISum([a \in 1..D[n] |->
     IF lab[n].l[a][b] = 0 THEN 0 ELSE v[a] * f[lab[n].l[a][b]] * F[n][a][b] * (Den(n) \div w[n][a])])])
RECURSIVE Hops(_, _, _)
Hops(n, v, k) == IF k = 0 THEN v ELSE Hops(Nx(n), Hop(n, v), k-1)
RECURSIVE Dens(_, _)
Dens(n, k) == IF k = 0 THEN 1 ELSE Den(n) * Dens(Nx(n), k-1)
\* <f at site n>, <f at n, g at n+k>
One1(n, f) == [num |-> ISum(TLCEval(HopF(n, w[n], f))), den |-> M * Den(n)]
Fwd(n, k) == ((n + k - 1) % N) + 1
Two(n, k, f, g) == [num |-> ISum(TLCEval(HopF(Fwd(n, k), Hops(Nx(n), HopF(n, w[n], f), k-1), g))),
                    den |-> M * Dens(n, k+1)]
Table(n) == TLCEval([s \in 1..lab[n].d |-> Rnd(-2..3)])
Obs1 == [n \in 1..N |-> One({[n |-> n, f |-> f, v |-> One1(n, f)] : f \in {Table(n)}})]
Obs2 == [i \in 1..3 |-> One({One({[n |-> r[1], k |-> r[2], f |-> t[1], g |-> t[2], v |-> Two(r[1], r[2], t[1], t[2])]
                              : t \in {<<Table(r[1]), Table(Fwd(r[1], r[2]))>>}})
                         : r \in {<<Rnd(1..N), Rnd(1..2)>>}})]
\* a classical nearest-neighbour Hamiltonian: SUM_n u_n(s_n) + f_n(s_n) g_n(s_n+1), and its exact value per cell
Ham == One({[u |-> u, f |-> f, g |-> g, e |-> [n \in 1..N |-> [site |-> One1(n, u[n]), bond |-> Two(n, 1, f[n], g[Nx(n)])]]]
            : u \in {TLCEval([n \in 1..N |-> Table(n)])}, f \in {TLCEval([n \in 1..N |-> Table(n)])}, g \in {TLCEval([n \in 1..N |-> Table(n)])}})

(* the history of requests on one object; pos, flag, sch are its book-keeping *)
MoveG(g, p, b) == [n \in 1..Len(g) |-> IF p < n /\ n <= b THEN "L" ELSE IF b < n /\ n <= p THEN "R" ELSE g[n]]
Op(e, p, g, s) == /\ pos' = p /\ flag' = g /\ sch' = s
                  /\ log' = Append(log, [e |-> e, pos |-> p, flag |-> g, sch |-> s])
                  /\ UNCHANGED <<N, D, M, walk, F, w, lab, ph, X, phase>>
On(k) == k \in Kinds
All(f) == [n \in 1..N |-> f]
Regauge == \E g \in {Rnd({"left", "right", "symmetric"})} :
           Op([op |-> "regauge", g |-> g], IF g = "right" THEN 0 ELSE N, All(IF g = "right" THEN "R" ELSE "L"), g = "symmetric")
Position == \E b \in {Rnd(0..N)} : Op([op |-> "position", b |-> b], b, MoveG(flag, pos, b), sch)
Canonize == Op([op |-> "canonize"], N, All("L"), TRUE)
Copy == Op([op |-> "copy"], pos, flag, sch)
File == Op([op |-> "file"], pos, flag, sch)
Schmidt == sch /\ \E b \in {Rnd(0..N)} : Op([op |-> "schmidt", b |-> b], b, MoveG(flag, pos, b), sch)
Within == UNION {{<<a, b>> : b \in a..N} : a \in 1..N}
Measure == sch /\ \E r \in {Rnd(Within)} :
           LET n == r[1] m == r[2] IN \E f \in {Table(n)}, g \in {Table(m)} :
           Op([op |-> "measure", n |-> n, m |-> m, f |-> f, g |-> g,
               v |-> IF n = m THEN One1(n, TLCEval([s \in 1..lab[n].d |-> f[s]*g[s]])) ELSE Two(n, m-n, f, g)],
              m, MoveG(flag, pos, m), sch)
Conj == Op([op |-> "conj2"], pos, flag, sch)      \* conjugated twice
Ops == phase = "ops" /\ Len(log) < MaxOps /\
       ((On("regauge") /\ Regauge) \/ (On("position") /\ Position) \/ (On("canonize") /\ Canonize)
        \/ (On("copy") /\ Copy) \/ (On("file") /\ File) \/ (On("schmidt") /\ Schmidt) \/ (On("conj") /\ Conj) \/ (On("measure") /\ Measure))

----------------------------------------------------------------------------
(* truncation to at most c levels per bond.  Keep0: the levels of bond 1 with most
   traffic; the inner bonds are ranked by the traffic of the walks that start and
   end a cell in kept levels.  Only unambiguous cases are emitted: no ties, and the
   plain traffic ranks the same levels first.                                     *)
Best(v, c) == {a \in 1..Len(v) : Cardinality({b \in 1..Len(v) : v[b] > v[a]}) < c}
Clear(v, c) == Len(v) <= c \/ Cardinality(Best(v, c)) = c
Cut(v, K) == TLCEval([a \in 1..Len(v) |-> IF a \in K THEN v[a] ELSE 0])
RECURSIVE FromStart(_, _)          \* traffic of walks starting in K, arriving at bond n
FromStart(n, K) == IF n = 1 THEN Cut(w[1], K) ELSE Hop(n-1, FromStart(n-1, K))
RECURSIVE ToEnd(_, _, _)           \* (scaled) probability to end the cell in kept levels, walking through the kept ones
ToEnd(n, K, Ks) == IF n = N + 1 THEN [a \in 1..D[1] |-> IF a \in K THEN 1 ELSE 0]
   ELSE LET r == TLCEval(ToEnd(n+1, K, Ks)) IN TLCEval([a \in 1..D[n] |-> ISum([b \in 1..D[Nx(n)] |->
        IF n < N /\ b \notin Ks[n+1] THEN 0 ELSE F[n][a][b] * (Den(n) \div w[n][a]) * r[b]])])
Seqv(n, K, Ks) == LET x == TLCEval(FromStart(n, K)) y == TLCEval(ToEnd(n, K, Ks)) IN TLCEval([a \in 1..D[n] |-> x[a]*y[a]])
Onward(n, a) == Hops(n, TLCEval([z \in 1..D[n] |-> IF z = a THEN 1 ELSE 0]), N+1-n)
\* does it matter here that the weights on inner bonds include both ends of the cell?
Telling(c) == LET K == Best(w[1], c)
                  Ks == TLCEval([n \in 1..N |-> Best(w[n], c)])
                  g == TLCEval([n \in 2..N |-> LET x == TLCEval(FromStart(n, K)) IN TLCEval([a \in 1..D[n] |-> ISum([b \in 1..D[1] |->
                          IF b \in K THEN x[a] * TLCEval(Onward(n, a))[b] * (LcmOf({w[1][z] : z \in 1..D[1]}) \div w[1][b]) ELSE 0])])]) IN
              \E n \in 2..N : Best(g[n], c) # Ks[n] \/ Best(FromStart(n, 1..D[1]), c) # Ks[n]
Trunc(c) == LET Ks == TLCEval([n \in 1..N |-> Best(w[n], c)])
                FK == TLCEval([n \in 1..N |-> TLCEval([a \in 1..D[n] |-> TLCEval([b \in 1..D[Nx(n)] |->
                         IF a \in Ks[n] /\ b \in Ks[Nx(n)] THEN F[n][a][b] ELSE 0])])])
                live == \A n \in 1..N : \A a \in Ks[n] : \E b \in Ks[Nx(n)] : F[n][a][b] > 0
                q == CellB(FK, N) p == BPow(q, 4) IN
            [c |-> c, keep |-> Ks, telling |-> Telling(c),
             ok |-> /\ live /\ \A i, j \in Ks[1] : p[i][j]
                    /\ \A n \in 1..N : Clear(w[n], c)
                    /\ \A n \in 2..N : LET v == Seqv(n, Ks[1], Ks) IN
                         Clear(v, c) /\ Cardinality({a \in 1..D[n] : v[a] > 0}) >= Cardinality(Ks[n]) /\ Best(v, c) = Ks[n]]
\* fixed points at the closing bond in the gauge of the caller (left one unnormalised: trace M before the gauge)
MConj(a) == TLCEval([i \in 1..Len(a) |-> VConj(a[i])])
LeftFix == MMul(MTrans(X[1].x), MMul(TLCEval([i \in 1..D[1] |-> TLCEval([j \in 1..D[1] |-> IF i = j THEN <<w[1][i], 0>> ELSE G0])]), MConj(X[1].x)))
RightFix == MMul(X[1].i, MHerm(X[1].i))
MaxD == Max({D[n] : n \in 1..N})
Emit == /\ phase = "ops" /\ Len(log) = MaxOps
        /\ PrintT(ToJson([N |-> N, D |-> D, M |-> M, F |-> F, w |-> w, lab |-> [n \in 1..N |-> lab[n].l], d |-> [n \in 1..N |-> lab[n].d],
             ph |-> ph, X |-> [n \in 1..N |-> X[n].x], Xi |-> [n \in 1..N |-> X[n].i], log |-> log, one |-> IF Home > 0 THEN <<>> ELSE Obs1, two |-> IF Home > 0 THEN <<>> ELSE Obs2,
             ham |-> IF Home > 0 THEN <<>> ELSE Ham, left |-> IF Home > 0 THEN <<>> ELSE LeftFix, right |-> RightFix,
             trunc |-> IF Home > 0 THEN <<>> ELSE [c \in 1..MaxD-1 |-> Trunc(c)]]))
        /\ phase' = "done" /\ UNCHANGED <<N, D, M, walk, F, w, lab, ph, X, pos, flag, sch, log>>
Next == New \/ Walk \/ Ready \/ Ops \/ Emit
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Up == phase = "ops"
\* what goes into a level comes out of it
Flow == Up => \A n \in 1..N : \A b \in 1..D[Nx(n)] : w[Nx(n)][b] = ISum([a \in 1..D[n] |-> F[n][a][b]])
Laps1 == Up => \A n \in 1..N : ISum(w[n]) = M
GaugeOK == Up => \A n \in 1..N : MMul(X[n].x, X[n].i) = MId(D[n])
LabelsOK == Up => \A n \in 1..N : \A i, j \in 1..Len(Edges(n)) :
   LET e == Edges(n)[i] f == Edges(n)[j] IN
   (i # j /\ lab[n].l[e[1]][e[2]] # 0 /\ lab[n].l[e[1]][e[2]] = lab[n].l[f[1]][f[2]]) => e[1] # f[1] /\ e[2] # f[2]
\* the traffic is the stationary distribution: hopping once reproduces it
Stationary == (Up /\ Home = 0) => \A n \in 1..N : \A b \in 1..D[Nx(n)] : Hop(n, w[n])[b] = Den(n) * w[Nx(n)][b]
\* correlations with the identity are one-point functions
Marginal == (Up /\ Home = 0) => \A n \in 1..N : LET f == [s \in 1..lab[n].d |-> s] u == [s \in 1..lab[Nx(n)].d |-> 1] IN
   Two(n, 1, f, u).num * One1(n, f).den = One1(n, f).num * Two(n, 1, f, u).den
\* the pairing of the fixed points does not depend on the gauge
FixPair == (Up /\ Home = 0) => GSum([i \in 1..D[1] |-> GSum([j \in 1..D[1] |-> GMul(LeftFix[i][j], RightFix[i][j])])]) = <<M, 0>>
CentreOK == Up => /\ pos \in 0..N /\ (sch => \A n \in 1..N : flag[n] = IF n <= pos THEN "L" ELSE "R")
=============================================================================
