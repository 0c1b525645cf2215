------------------------------ MODULE TensorNet ------------------------------
(* Contraction of a labelled tensor network.  A tensor is [dims, labels, data]
   with row-major data over Gaussian integers; positive labels occur on two legs
   and are summed, negative labels occur once and stay open.  The machine
   contracts one label at a time (a trace, or a pair of tensors over every label
   they share) and finally multiplies disconnected parts; Sum is the defining
   explicit index sum, invariant under every step.                            *)
EXTENDS Dense, TLC, Json, FiniteSetsExt, SequencesExt
CONSTANTS MaxTensors, MaxPos, MaxNeg, MaxVol
VARIABLES net, net0, want, todo, done, order, bad, phase
vars == <<net, net0, want, todo, done, order, bad, phase>>

T(d, l, x) == [dims |-> d, labels |-> l, data |-> x]
Off(d, idx) == LET RECURSIVE O(_, _)
                   O(k, acc) == IF k > Len(d) THEN acc ELSE O(k+1, acc*d[k] + idx[k]) IN O(1, 0) + 1
At(t, f) == t.data[Off(t.dims, [k \in 1..Len(t.dims) |-> f[t.labels[k]]])]
Labels(n) == UNION {{n[i].labels[k] : k \in 1..Len(n[i].labels)} : i \in 1..Len(n)}
Pos(n) == {l \in Labels(n) : l > 0}
Neg(n) == {l \in Labels(n) : l < 0}
DimOf(n, l) == LET i == CHOOSE i \in 1..Len(n) : \E k \in 1..Len(n[i].labels) : n[i].labels[k] = l
                   k == CHOOSE k \in 1..Len(n[i].labels) : n[i].labels[k] = l IN n[i].dims[k]
Occur(n, l) == FoldSeq(LAMBDA t, a : a + Cardinality({k \in 1..Len(t.labels) : t.labels[k] = l}), 0, n)
Consistent(n) ==
  /\ \A i \in 1..Len(n) : Len(n[i].labels) = Len(n[i].dims)
  /\ \A l \in Labels(n) : l # 0 /\ Occur(n, l) = (IF l > 0 THEN 2 ELSE 1)
  /\ \A i, j \in 1..Len(n) : \A a \in 1..Len(n[i].labels) : \A b \in 1..Len(n[j].labels) :
        n[i].labels[a] = n[j].labels[b] => n[i].dims[a] = n[j].dims[b]

\* digit k (0-based counter c) of a mixed-radix assignment of the labels in sequence ls
Assign(n, ls, c) == LET ds == [k \in 1..Len(ls) |-> DimOf(n, ls[k])] IN
   [l \in {ls[k] : k \in 1..Len(ls)} |-> LET k == CHOOSE k \in 1..Len(ls) : ls[k] = l IN
        (c \div Prod(SubSeq(ds, k+1, Len(ds)))) % ds[k]]
Vol(n, ls) == Prod([k \in 1..Len(ls) |-> DimOf(n, ls[k])])
Join(f, g) == [x \in DOMAIN f \cup DOMAIN g |-> IF x \in DOMAIN f THEN f[x] ELSE g[x]]
ProdAt(n, f) == FoldSeq(LAMBDA t, a : GMul(a, At(t, f)), G1, n)
Desc(S) == SetToSortSeq(S, LAMBDA a, b : a > b)
Asc(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
\* the definition: open legs in descending order -1, -2, ..., everything positive summed
Sum(n) == LET os == Desc(Neg(n))  ps == Asc(Pos(n)) IN
   T([k \in 1..Len(os) |-> DimOf(n, os[k])], os,
     TLCEval([c \in 1..Vol(n, os) |-> LET f == TLCEval(Assign(n, os, c-1)) IN
        GSum([e \in 1..Vol(n, ps) |-> ProdAt(n, Join(f, TLCEval(Assign(n, ps, e-1))))])]))
Permuted(t, ls) == \* t with legs in the order ls
   LET n == <<t>> IN T([k \in 1..Len(ls) |-> DimOf(n, ls[k])], ls,
     TLCEval([c \in 1..Vol(n, ls) |-> At(t, Assign(n, ls, c-1))]))

-----------------------------------------------------------------------------
(* random networks *)
\* state-level on purpose: TLC evaluates constant-level expressions only once
Rnd(S) == IF phase = "" THEN CHOOSE x \in S : TRUE ELSE RandomElement(S)
RECURSIVE Shuf(_, _)
Shuf(s, k) == IF k = 0 \/ Len(s) < 2 THEN s ELSE
   LET i == Rnd(1..Len(s)) j == Rnd(1..Len(s)) IN Shuf(TLCEval([s EXCEPT ![i] = s[j], ![j] = s[i]]), k-1)
RECURSIVE PickN(_, _, _)
PickN(S, k, acc) == IF k = 0 THEN acc ELSE LET x == Rnd(S) IN PickN(S \ {x}, k-1, Append(acc, x))
\* `\E x \in {e}` instead of LET: forces one evaluation of the random expression
BuildNet(nt, legs, dim, owner, cplx) ==
   [i \in 1..nt |->
        LET mine == SelectSeq([k \in 1..Len(legs) |-> k], LAMBDA k : owner[k] = i)
            ls == [k \in 1..Len(mine) |-> legs[mine[k]]]
            ds == [k \in 1..Len(ls) |-> dim[ls[k]]]
        IN T(ds, ls, TLCEval([c \in 1..Prod(ds) |-> <<Rnd(-2..2), IF cplx THEN Rnd(-2..2) ELSE 0>>]))]
TotalVol(n) == Vol(n, Asc(Labels(n)))
\* damage one thing
Damage(n, i, k, kind) ==
  LET t == n[i] IN
  CASE kind = 1 -> [n EXCEPT ![i].labels[k] = Rnd(Labels(n))]
    [] kind = 2 -> [n EXCEPT ![i].labels[k] = Rnd(21..25)]
    [] kind = 3 -> [n EXCEPT ![i] = T([t.dims EXCEPT ![k] = t.dims[k]+1], t.labels,
                       [c \in 1..Prod([t.dims EXCEPT ![k] = t.dims[k]+1]) |-> G1])]
    [] OTHER -> [n EXCEPT ![i].labels = SubSeq(t.labels, 1, Len(t.labels)-1)]

Init == net = <<>> /\ net0 = <<>> /\ want = <<>> /\ todo = {} /\ done = FALSE /\ order = <<>> /\ bad = FALSE /\ phase = "new"
Start(m) == /\ net' = m /\ net0' = m /\ bad' = ~Consistent(m)
            /\ IF Consistent(m) THEN want' = Sum(m) /\ todo' = Pos(m) /\ phase' = "run"
               ELSE want' = <<>> /\ todo' = {} /\ phase' = "emit"
New == /\ phase = "new"
       /\ \E nt \in {Rnd(1..MaxTensors)} : \E np \in {Rnd(0..MaxPos)} : \E nn \in {Rnd(0..MaxNeg)} :
          \E dense \in {Rnd({TRUE, FALSE})} : \E cplx \in {Rnd({TRUE, FALSE})} :
          \E ps \in {PickN(IF dense THEN 1..np ELSE 1..20, np, <<>>)} :
          \E ns \in {PickN(IF dense THEN {0-k : k \in 1..nn} ELSE -12..-1, nn, <<>>)} :
          \E legs \in {Shuf(ps \o ps \o ns, 3*(np+nn))} :
          \E dim \in {[l \in {legs[k] : k \in 1..Len(legs)} |-> Rnd({1, 2, 2, 3})]} :
          \E owner \in {[k \in 1..Len(legs) |-> Rnd(1..nt)]} :
          \E n \in {BuildNet(nt, legs, dim, owner, cplx)} :
          /\ TotalVol(n) <= MaxVol
          /\ \E i \in {Rnd(1..nt)} :
             IF Len(n[i].labels) = 0 \/ RandomElement(1..5) > 1 THEN Start(n)
             ELSE \E k \in {Rnd(1..Len(n[i].labels))} : \E kind \in {Rnd(1..4)} : \E m \in {Damage(n, i, k, kind)} : Start(m)
       /\ UNCHANGED <<done, order>>
Holders(l) == {i \in 1..Len(net) : \E k \in 1..Len(net[i].labels) : net[i].labels[k] = l}
Without(ids) == [k \in 1..Cardinality(1..Len(net) \ ids) |-> net[SetToSortSeq(1..Len(net) \ ids, LAMBDA a, b : a < b)[k]]]
LSet(t) == {t.labels[k] : k \in 1..Len(t.labels)}
\* sum the labels in S of the sub-network sub (other labels stay open, in the order ls)
Partial(sub, ls, S) == LET ps == Asc(S) IN
   T([k \in 1..Len(ls) |-> DimOf(sub, ls[k])], ls,
     TLCEval([c \in 1..Vol(sub, ls) |-> LET f == TLCEval(Assign(sub, ls, c-1)) IN
        GSum([e \in 1..Vol(sub, ps) |-> ProdAt(sub, Join(f, TLCEval(Assign(sub, ps, e-1))))])]))
RECURSIVE OnceIn(_, _)
OnceIn(seq, S) == IF seq = <<>> THEN <<>> ELSE IF Head(seq) \in S THEN OnceIn(Tail(seq), S) ELSE <<Head(seq)>> \o OnceIn(Tail(seq), S)
Contract ==
  /\ phase = "run" /\ todo # {}
  /\ \E l \in {Rnd(todo)} :
     LET h == Holders(l) IN
     IF Cardinality(h) = 1
     THEN LET t == net[CHOOSE i \in h : TRUE] IN \* a trace
          /\ net' = Append(Without(h), Partial(<<t>>, OnceIn(t.labels, {l}), {l}))
          /\ todo' = todo \ {l} /\ order' = Append(order, l)
     ELSE LET i == CHOOSE i \in h : \A j \in h : i <= j
              j == CHOOSE j \in h : \A k \in h : j >= k
              S == {x \in LSet(net[i]) \cap LSet(net[j]) : x > 0}
              \* traces inside i or j stay for later: rename them away is not needed, contract them too
              inner == {x \in Pos(<<net[i], net[j]>>) : Occur(<<net[i], net[j]>>, x) = 2}
              sub == <<net[i], net[j]>> IN
          /\ net' = Append(Without(h), Partial(sub, OnceIn(net[i].labels \o net[j].labels, inner), inner))
          /\ todo' = todo \ inner
          /\ order' = order \o <<l>> \o Shuf(Asc(inner \ {l}), 4)
  /\ phase' = "run" /\ UNCHANGED <<net0, want, done, bad>>
Outer == \* disconnected remainders
  /\ phase = "run" /\ todo = {} /\ Len(net) > 1
  /\ net' = <<Partial(<<net[1], net[2]>>, net[1].labels \o net[2].labels, {})>> \o SubSeq(net, 3, Len(net))
  /\ UNCHANGED <<net0, want, todo, done, order, bad, phase>>
Finish == /\ phase = "run" /\ todo = {} /\ Len(net) = 1 /\ phase' = "emit"
          /\ UNCHANGED <<net, net0, want, todo, done, order, bad>>
Emit == /\ phase = "emit"
        /\ \E fo \in {IF bad THEN <<>> ELSE Shuf(want.labels, 4)} :
           PrintT(ToJson([net |-> net0, bad |-> bad, order |-> order,
                          want |-> IF bad THEN <<>> ELSE want, forder |-> fo,
                          wantf |-> IF bad THEN <<>> ELSE Permuted(want, fo)]))
        /\ phase' = "end" /\ UNCHANGED <<net, net0, want, todo, done, order, bad>>
Next == New \/ Contract \/ Outer \/ Finish \/ Emit
Spec == Init /\ [][Next]_vars
\* every intermediate network has the value of the original one
SameValue == (phase = "run") => Sum(net) = want
=============================================================================
