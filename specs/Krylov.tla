------------------------------- MODULE Krylov --------------------------------
(* Hermitian operators with an exactly known integer spectrum, M = W diag(lam) W^H
   with W a product of integer orthogonal 2x2 factors, W^H W = S 1, so that the
   operator is M/S.  The Krylov space of v = SUM c_k w_k has one dimension per
   distinct eigenvalue present in v; propagation multiplies c_k by exp(t lam_k).
   A behaviour is a list of solver and propagator calls on one such operator.   *)
EXTENDS Dense, TLC, Json, FiniteSetsExt, SequencesExt
CONSTANTS MaxFactors, MaxSteps
VARIABLES W, S, lam, c, T, log, step
vars == <<W, S, lam, c, T, log, step>>
Rnd(X) == IF step < 0 THEN CHOOSE x \in X : TRUE ELSE RandomElement(X)
F2 == { << <<G1,G1>>, <<G1,<<-1,0>>>> >>, << <<G1,GI>>, <<GI,G1>> >>, << <<<<2,0>>,G1>>, <<G1,<<-2,0>>>> >>,
        << <<G1,G0>>, <<G0,G1>> >>, << <<<<1,1>>,G1>>, <<G1,<<-1,1>>>> >>, << <<G1,G1>>, <<G1,<<-1,0>>>> >> }
Dim == Len(W)
Col(k) == [i \in 1..Dim |-> W[i][k]]
Vec == TLCEval([i \in 1..Dim |-> GSum([k \in 1..Dim |-> GMul(c[k], W[i][k])])])
Mat == TLCEval([i \in 1..Dim |-> TLCEval([j \in 1..Dim |-> GSum(TLCEval([k \in 1..Dim |-> GMul(<<lam[k],0>>, GMul(W[i][k], GConj(W[j][k])))]))])])
Apply(m, v) == TLCEval([i \in 1..Len(v) |-> GSum(TLCEval([j \in 1..Len(v) |-> GMul(m[i][j], v[j])]))])
Reach == {lam[k] : k \in {k \in 1..Dim : c[k] # G0}}
KDim == Cardinality(Reach)

RECURSIVE Rand2(_, _)
Rand2(k, acc) == IF k = 0 THEN acc ELSE Rand2(k-1, TLCEval(Kron(acc, Rnd(F2))))
Init == W = <<>> /\ S = 0 /\ lam = <<>> /\ c = <<>> /\ T = <<0,0>> /\ log = <<>> /\ step = 0
New == /\ step = 0
       /\ \E big \in {Rnd(1..5) = 1} :
          \E nf \in {IF big THEN 4 ELSE Rnd(1..MaxFactors)} : \E w \in {Rand2(nf, <<<<G1>>>>)} :
          \E span \in {Rnd({1, 2, 4})} : \E sparse \in {IF big THEN 0 ELSE Rnd(0..2)} : \E cplx \in {Rnd({TRUE, FALSE})} :
          /\ W' = w /\ S' = ISum([i \in 1..Len(w) |-> GAbs2(w[i][1])])
          \* the big ones have a lowest eigenvalue that is found long before the second one
          /\ lam' = [k \in 1..Len(w) |-> IF ~big THEN Rnd(-span..span) ELSE IF k = 1 THEN -80 ELSE Rnd(-9..12)]
          /\ c' = [k \in 1..Len(w) |-> IF big THEN <<Rnd({-1, 1, 2}), IF cplx THEN Rnd(-1..1) ELSE 0>> ELSE
                  IF sparse > 0 /\ Rnd(0..sparse) > 0 THEN G0 ELSE <<Rnd(-2..2), IF cplx THEN Rnd(-2..2) ELSE 0>>]
       /\ (\E k \in 1..Len(c') : c'[k] # G0)
       /\ T' = <<0,0>> /\ step' = 1 /\ log' = <<>>
Keep == UNCHANGED <<W, S, lam, c>>
Solve ==
  /\ step \in 1..MaxSteps
  /\ \E nd \in {Rnd(1..4)} : \E ncv \in {IF Dim > 8 THEN 40 ELSE Rnd({2, 3, 5, 12})} : \E ne \in {Rnd(1..2)} : \E ro \in {Dim > 8 \/ Rnd({TRUE, FALSE})} :
     log' = Append(log, [op |-> "solve", Ndiag |-> nd, ncv |-> ncv, numeig |-> ne, reortho |-> ro, T |-> T,
                         kdim |-> KDim, spectrum |-> SetToSortSeq(Reach, LAMBDA a, b : a < b)])
  /\ Keep /\ UNCHANGED T /\ step' = step + 1
Prop ==
  /\ step \in 1..MaxSteps /\ Dim <= 8
  /\ \E kind \in {Rnd({"real", "imag", "complex"})} : \E a \in {Rnd({-6, -3, -1, 1, 2, 5})} : \E b \in {Rnd({-4, -1, 2, 3})} :
     \E ncv \in {Rnd({2, 3, 5, 12})} :
     LET dt == IF kind = "real" THEN <<a, 0>> ELSE IF kind = "imag" THEN <<0, a>> ELSE <<b, a>>
         exact == KDim <= ncv IN
     /\ T' = IF exact THEN GAdd(T, dt) ELSE T           \* a truncated propagation does not enter the history
     /\ Abs(T'[1]) <= 8
     /\ log' = Append(log, [op |-> "prop", dt |-> dt, ncv |-> ncv, exact |-> exact, T0 |-> T, T |-> T', kdim |-> KDim])
  /\ Keep /\ step' = step + 1
Emit == /\ step = MaxSteps + 1
        /\ PrintT(ToJson([M |-> Mat, S |-> S, W |-> W, lam |-> lam, c |-> c, log |-> log]))
        /\ step' = step + 1 /\ Keep /\ UNCHANGED <<T, log>>
Next == New \/ Solve \/ Prop \/ Emit
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Ready == step = 1
EigenOK == Ready => LET m == Mat IN
  /\ \A k \in 1..Dim : Apply(m, Col(k)) = VScale(<<S * lam[k], 0>>, Col(k))
  /\ \A i, j \in 1..Dim : m[i][j] = GConj(m[j][i])
\* the product of (M - S lam) over the eigenvalues present annihilates v, and no factor can be left out
RECURSIVE Annih(_, _, _)
Annih(m, v, ls) == IF ls = {} THEN v ELSE LET l == CHOOSE l \in ls : TRUE IN
   Annih(m, TLCEval(VSub(Apply(m, v), VScale(<<S*l, 0>>, v))), ls \ {l})
KrylovOK == Ready /\ Dim <= 4 /\ S <= 4 => LET m == Mat IN
  /\ IsZero(Annih(m, Vec, Reach))
  /\ \A l \in Reach : ~IsZero(Annih(m, Vec, Reach \ {l}))
=============================================================================
