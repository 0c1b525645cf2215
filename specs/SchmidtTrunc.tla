---------------------------- MODULE SchmidtTrunc ----------------------------
(* Truncation of finite matrix product states, exact over the integers.

   The model only contains states whose Schmidt decomposition across the cut
   being truncated can be read off exactly: the cut matrix has at most one
   non-zero entry per column (its rows are then orthogonal Schmidt vectors) or
   at most one per row.  Schmidt weights are then integers, and truncation means
   keeping a set of rows (columns).  Cut-offs that fall into a degenerate group
   are excluded (the library may keep either member).
   state = sqrt(p/q) vec; the library keeps the norm under truncation.        *)
EXTENDS Dense, TLC, Json, FiniteSetsExt

CONSTANTS DimsSet, MaxSteps, Exhaustive, Amps, MaxNonzero, Ops

VARIABLES dims, vec, p, q, pos, bd, log, step
vars == <<dims, vec, p, q, pos, bd, log, step>>
N == Len(dims)
\* state-level on purpose: TLC evaluates constant-level expressions only once
Rnd(S) == IF step < 0 THEN CHOOSE x \in S : TRUE ELSE RandomElement(S)
Pick(S) == IF Exhaustive THEN S ELSE {Rnd(S)}

-----------------------------------------------------------------------------
Rows(b) == 1..CutRows(dims, b)
Cols(b) == 1..CutCols(dims, b)
At(v, b, r, c) == CutAt(dims, v, b, r, c)
CleanC(v, b) == \A c \in Cols(b) : Cardinality({r \in Rows(b) : At(v, b, r, c) # G0}) <= 1
CleanR(v, b) == \A r \in Rows(b) : Cardinality({c \in Cols(b) : At(v, b, r, c) # G0}) <= 1
Clean(v, b) == CleanC(v, b) \/ CleanR(v, b)
\* Schmidt components of the cut: keys are rows (if columns are clean) or columns
ByRow(v, b) == CleanC(v, b)
Weights(v, b) == TLCEval(IF ByRow(v, b)
   THEN [r \in Rows(b) |-> ISum([c \in Cols(b) |-> GAbs2(At(v, b, r, c))])]
   ELSE [c \in Cols(b) |-> ISum([r \in Rows(b) |-> GAbs2(At(v, b, r, c))])])
KeyOf(b, byrow, i) == IF byrow THEN ((i-1) \div CutCols(dims, b)) + 1 ELSE ((i-1) % CutCols(dims, b)) + 1
NonZero(W) == {k \in DOMAIN W : W[k] > 0}
NonZeroKeys(v, b) == NonZero(Weights(v, b))
\* keep at most D keys, only those whose weight exceeds ta/tb of `ref`
\* (ref = norm^2 the singular values are measured against)
KeptOf(W, D, ta, tb, ref) ==
  {k \in NonZero(W) : /\ W[k] * tb > ta * ref
                      /\ Cardinality({j \in DOMAIN W : W[j] > W[k]}) < D}
UnambiguousOf(W, D, ta, tb, ref) ==
  /\ \A k \in NonZero(W) : W[k] * tb # ta * ref
  /\ Cardinality(KeptOf(W, D, ta, tb, ref)) \in 1..D     \* no tie at the limit, something is kept
Project(v, b, keep) == LET byrow == ByRow(v, b) IN
   TLCEval([i \in 1..Len(v) |-> IF KeyOf(b, byrow, i) \in keep THEN v[i] ELSE G0])

(* truncate a list of bonds one after the other; singular values are those of
   the normalised current state *)
RECURSIVE TruncBonds(_, _, _, _, _, _)
TruncBonds(v, bonds, D, ta, tb, ok) ==
  IF bonds = <<>> \/ ~ok THEN [v |-> v, ok |-> ok]
  ELSE LET b == Head(bonds)
           W == Weights(v, b)
           good == Clean(v, b) /\ UnambiguousOf(W, D, ta, tb, Norm2(v)) IN
       TruncBonds(IF good THEN Project(v, b, KeptOf(W, D, ta, tb, Norm2(v))) ELSE v, Tail(bonds), D, ta, tb, good)
\* bonds crossed by a centre move from pos a to b (outer bonds 0 and N are trivial)
Inner1(s) == SelectSeq(s, LAMBDA b : b > 0 /\ b < N)
Crossed(a, b) == Inner1(IF b > a THEN [i \in 1..(b-a) |-> a + i] ELSE [i \in 1..(a-b) |-> a - i])
\* the last bond of a truncating move may keep a rectangular centre matrix (its smaller side
\* obeys the limit, see `soft`), so only the bonds behind the centre are bounded for good
Behind(bonds) == IF bonds = <<>> THEN bonds ELSE SubSeq(bonds, 1, Len(bonds)-1)
CapBd(bonds, D) == [i \in 1..N+1 |-> IF \E k \in 1..Len(bonds) : bonds[k] = i-1 THEN Min2(bd[i], D) ELSE bd[i]]

Log(e) == log' = IF Exhaustive THEN log ELSE Append(log,
             [e |-> e, vec |-> vec', p |-> p', q |-> q', pos |-> pos', bd |-> bd'])
Rescale(w, old, new) == \* p/q := p/q * old/new
  LET c == GCD(old, new) np == p * (old \div c) nq == q * (new \div c) h == GCD(np, nq) IN
  /\ p' = np \div h /\ q' = nq \div h
SafeRescale == p <= 2000 /\ q <= 2000
Thr == IF Exhaustive THEN {<<0, 1>>, <<1, 4>>} ELSE {<<0, 1>>, <<0, 1>>, <<1, 5>>, <<1, 10>>, <<1, 30>>, <<2, 7>>, <<1, 100>>}

RandSparse == LET K == Prod(dims)
                  k == Rnd(1..MaxNonzero)
                  idx == {Rnd(1..K) : x \in 1..k}
              IN TLCEval([i \in 1..K |-> IF i \in idx THEN Rnd({<<a, 0>> : a \in Amps} \cup {<<0, a>> : a \in Amps} \cup {<<a, 1>> : a \in Amps}) ELSE G0])
Build ==
  /\ step = 0 /\ ~Exhaustive
  /\ \E v \in {RandSparse : x \in 1..40} :
       /\ ~IsZero(v)
       /\ \A b \in 1..N-1 : Clean(v, b)
       /\ \E b \in 1..N-1 : Cardinality(NonZeroKeys(v, b)) > 1
       /\ vec' = v
  /\ p' = 1 /\ q' = 1 /\ pos' = N /\ bd' = [i \in 1..N+1 |-> 64]
  /\ step' = 1 /\ UNCHANGED dims
  /\ Log([op |-> "Build"])

On(o) == o \in Ops /\ step >= 1 /\ step < MaxSteps
Move ==      \* without limits: nothing represented changes
  /\ On("Move")
  /\ step' = step + 1 /\ UNCHANGED <<dims, vec, p, q, bd>>
  /\ \E b \in Pick(0..N) : pos' = b /\ Log([op |-> "Move", b |-> b])
MoveTrunc == \* centre move with a bond-dimension limit and/or threshold
  /\ On("MoveTrunc") /\ SafeRescale
  /\ \E b \in Pick(0..N) : \E D \in Pick(1..5) : \E t \in Pick(Thr) :
       LET bonds == Crossed(pos, b)
           r == TruncBonds(vec, bonds, D, t[1], t[2], TRUE) IN
       /\ b # pos /\ r.ok
       /\ vec' = r.v /\ Rescale(0, Norm2(vec), Norm2(r.v))
       /\ pos' = b /\ bd' = CapBd(IF b \in {0, N} THEN bonds ELSE Behind(bonds), D)
       /\ Log([op |-> "MoveTrunc", b |-> b, D |-> D, t |-> t, soft |-> IF b \in {0, N} THEN <<>> ELSE <<b, D>>])
  /\ step' = step + 1 /\ UNCHANGED dims
Truncate ==  \* the dedicated routine: all bonds from the right
  /\ On("Truncate") /\ SafeRescale
  /\ \E D \in Pick(1..5) : \E t \in Pick(Thr) : \E useD \in Pick({TRUE, FALSE}) :
       LET bonds == Crossed(N, 0)
           DD == IF useD THEN D ELSE 1000
           r == TruncBonds(vec, bonds, DD, t[1], t[2], TRUE) IN
       /\ useD \/ t[1] # 0
       /\ r.ok
       /\ vec' = r.v /\ Rescale(0, Norm2(vec), Norm2(r.v))
       /\ pos' = 0 /\ bd' = CapBd(bonds, DD)
       /\ Log([op |-> "Truncate", D |-> D, useD |-> useD, t |-> t])
  /\ step' = step + 1 /\ UNCHANGED dims
\* two-site gate with a limit: singular values are measured against the norm before the gate
RECURSIVE Shuffle(_, _)
Shuffle(s, k) == IF k = 0 THEN s ELSE
   LET i == Rnd(1..Len(s))  j == Rnd(1..Len(s)) IN
   Shuffle([s EXCEPT ![i] = s[j], ![j] = s[i]], k-1)
MonomialGate(n) == LET s == TLCEval(Shuffle([i \in 1..n |-> i], n)) IN
   TLCEval([i \in 1..n |-> [j \in 1..n |-> IF s[i] = j THEN Rnd({G1, <<-1,0>>, GI, <<2,0>>, <<1,1>>}) ELSE G0]])
ExG == [i \in 1..4 |-> [j \in 1..4 |-> IF <<i,j>> \in {<<1,1>>,<<2,4>>,<<3,3>>,<<4,2>>} THEN (IF i = 1 THEN <<2,0>> ELSE G1) ELSE G0]]
Gate ==
  /\ On("Gate") /\ SafeRescale
  /\ \E n \in Pick(1..N-1) : \E D \in Pick(1..5) : \E t \in Pick(Thr) :
     \E m \in (IF Exhaustive THEN {ExG} ELSE {MonomialGate(dims[n]*dims[n+1])}) :
       LET w == TLCEval(ApplyTwo(dims, vec, m, n))
           ref == Norm2(vec)
           W == Weights(w, n)
           r == Project(w, n, KeptOf(W, D, t[1], t[2], ref)) IN
       /\ ~IsZero(w) /\ AllBelow(w, 30) /\ Clean(w, n) /\ UnambiguousOf(W, D, t[1], t[2], ref)
       /\ vec' = r /\ Rescale(0, ref, Norm2(r))
       /\ pos' = n /\ bd' = [bd EXCEPT ![n+1] = D]
       /\ Log([op |-> "Gate", n |-> n, D |-> D, t |-> t, m |-> m, disc |-> Norm2(w) - Norm2(r), ref |-> ref])
  /\ step' = step + 1 /\ UNCHANGED dims
(* A limit that falls into a degenerate group: which member survives is open, so the state is not
   determined; the limit, the norm and (for a single cut) the kept weight still are.  Ends a history. *)
RECURSIVE TopSum(_, _, _)
TopSum(W, left, D) == IF D = 0 \/ left = {} THEN 0
   ELSE LET k == CHOOSE x \in left : \A y \in left : W[x] >= W[y] IN W[k] + TopSum(W, left \ {k}, D-1)
Tied(v, b, D) == LET W == Weights(v, b) IN Clean(v, b) /\ Cardinality(KeptOf(W, D, 0, 1, 1)) > D
TiedCut ==
  /\ On("Tied") /\ SafeRescale
  /\ \E D \in Pick(1..3) : \E how \in Pick({"truncate", "move", "gate"}) : \E right \in Pick({TRUE, FALSE}) :
       LET b == IF right THEN pos + 1 ELSE pos - 1 IN
       /\ CASE how = "truncate" -> \E c \in 1..N-1 : Tied(vec, c, D)
            [] how = "move" -> b \in 1..N-1 /\ Tied(vec, b, D)
            [] how = "gate" -> pos \in 1..N-1 /\ Tied(vec, pos, D)
       /\ LET c == IF how = "gate" THEN pos ELSE b
              kept == IF how = "truncate" THEN 0 ELSE TopSum(Weights(vec, c), DOMAIN Weights(vec, c), D) IN
          /\ UNCHANGED <<dims, vec, p, q, bd>>
          /\ pos' = IF how = "truncate" THEN 0 ELSE c
          /\ step' = MaxSteps
          /\ Log([op |-> "Tied", how |-> how, D |-> D, b |-> c, kept |-> kept, nrm |-> Norm2(vec)])
Emit == /\ ~Exhaustive /\ step = MaxSteps
        /\ PrintT(ToJson([dims |-> dims, log |-> log]))
        /\ step' = step + 1 /\ UNCHANGED <<dims, vec, p, q, pos, bd, log>>

Init == /\ dims \in DimsSet
        /\ IF Exhaustive THEN /\ vec \in {f \in [1..Prod(dims) -> {<<a, 0>> : a \in Amps}] : ~IsZero(f) /\ \A b \in 1..Len(dims)-1 : Clean(f, b)}
                              /\ step = 1
                         ELSE vec = <<>> /\ step = 0
        /\ p = 1 /\ q = 1 /\ pos = Len(dims) /\ bd = [i \in 1..Len(dims)+1 |-> 64] /\ log = <<>>
Next == Build \/ Move \/ MoveTrunc \/ Truncate \/ Gate \/ TiedCut \/ Emit
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* invariants of the truncation rule itself, breadth first *)
Started == vec # <<>>
RankBound == Started => \A b \in 1..N-1 : Clean(vec, b) => Cardinality(NonZeroKeys(vec, b)) <= bd[b+1]
\* the norm is kept: p/q*|vec|^2 is invariant (checked against the first norm through p,q)
NormKept == [][Started => (p' * Norm2(vec') * q = p * Norm2(vec) * q') \/ step = 0]_vars
\* the kept weight is maximal among all key sets of that size (Eckart-Young)
Optimal == Started => \A b \in 1..N-1 : Clean(vec, b) =>
   LET W == Weights(vec, b) IN
   \A D \in 1..3 : UnambiguousOf(W, D, 0, 1, 1) =>
      LET best == Norm2(Project(vec, b, KeptOf(W, D, 0, 1, 1))) IN
      \A T \in SUBSET NonZero(W) : Cardinality(T) <= D =>
          ISum([k \in 1..Len(W) |-> IF k \in T THEN W[k] ELSE 0]) <= best
=============================================================================
