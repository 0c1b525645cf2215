-------------------------------- MODULE Dense --------------------------------
(* Dense many-body vectors over mixed local dimensions d = <<d1,...,dN>>.
   A vector is a sequence of length d1*...*dN of Gaussian integers; site 1 is
   the most significant digit.  Operators act on ROW vectors from the right
   ("in" index first, "out" index second), the convention of the library's
   gates, local operators and matrix product operators. *)
EXTENDS GInt

RECURSIVE Prod(_)
Prod(d) == IF d = <<>> THEN 1 ELSE Head(d) * Prod(Tail(d))
Stride(d, n) == Prod(SubSeq(d, n+1, Len(d)))
Digit(d, n, i) == ((i-1) \div Stride(d, n)) % d[n]
SetDigit(d, n, i, s) == i + (s - Digit(d, n, i)) * Stride(d, n)

(* new[.. o ..] = SUM_s v[.. s ..] g[s][o] *)
ApplyOne(d, v, g, n) ==
  LET st == Stride(d, n) IN
  [i \in 1..Len(v) |->
     LET o == ((i-1) \div st) % d[n]
         b == i - o*st
     IN GSum([s \in 1..d[n] |-> GMul(v[b + (s-1)*st], g[s][o+1])])]

(* two neighbouring sites n, n+1; g is a (d_n*d_{n+1}) square matrix *)
ApplyTwo(d, v, g, n) ==
  LET st == Stride(d, n+1)
      dd == d[n]*d[n+1]
  IN [i \in 1..Len(v) |->
        LET o == ((i-1) \div st) % dd
            b == i - o*st
        IN GSum([s \in 1..dd |-> GMul(v[b + (s-1)*st], g[s][o+1])])]

ProductVec(d, loc) ==
  [i \in 1..Prod(d) |->
     LET RECURSIVE P(_)
         P(n) == IF n = 0 THEN G1 ELSE GMul(P(n-1), loc[n][Digit(d, n, i)+1])
     IN P(Len(d))]

(* apply a list of <<site, matrix>> pairs in listed order *)
RECURSIVE ApplyList(_, _, _)
ApplyList(d, v, ops) == IF ops = <<>> THEN v
                        ELSE ApplyList(d, ApplyOne(d, v, Head(ops)[2], Head(ops)[1]), Tail(ops))
Expect(d, v, ops) == Inner(ApplyList(d, v, ops), v)
MatEl(d, v, w, ops) == Inner(ApplyList(d, v, ops), w)

(* the matrix of the cut between sites 1..b and b+1..N *)
CutRows(d, b) == Prod(SubSeq(d, 1, b))
CutCols(d, b) == Prod(SubSeq(d, b+1, Len(d)))
CutAt(d, v, b, r, c) == v[(r-1)*CutCols(d, b) + c]
(* Schmidt rank <= 1 across cut b iff every 2x2 minor vanishes *)
RankOne(d, v, b) ==
  \A r1, r2 \in 1..CutRows(d, b) : \A c1, c2 \in 1..CutCols(d, b) :
     (r1 < r2 /\ c1 < c2) =>
       GMul(CutAt(d,v,b,r1,c1), CutAt(d,v,b,r2,c2)) = GMul(CutAt(d,v,b,r1,c2), CutAt(d,v,b,r2,c1))
(* unnormalised reduced density matrix and purity numerator of sites 1..b *)
Rho(d, v, b) == [r \in 1..CutRows(d,b) |-> [s \in 1..CutRows(d,b) |->
     GSum([c \in 1..CutCols(d,b) |-> GMul(CutAt(d,v,b,r,c), GConj(CutAt(d,v,b,s,c)))])]]
PurityNum(d, v, b) == LET m == Rho(d, v, b) IN
     ISum([r \in 1..Len(m) |-> ISum([s \in 1..Len(m) |-> GAbs2(m[r][s])])])
=============================================================================
