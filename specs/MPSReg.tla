------------------------------- MODULE MPSReg -------------------------------
(* A register machine over finite matrix product states.

   Abstract value of a register:  state = sqrt(p/q) * vec   (vec exact), plus
   the gauge book-keeping that the library's centre-bond machinery implies:
     pos   centre bond 0..N
     g     per site "L" (left-orthonormal), "R" (right-orthonormal) or "U"
     bd    upper bounds of the bond dimensions 0..N   (bd[b+1] is bond b)
     cl    upper bound of the left dimension of the (possibly rectangular)
           centre matrix; its right dimension is the bond dimension bd[pos+1]
     dm    bond-dimension limit if it was set explicitly, else 0
   Every public operation on states is one action.  The same module is used
     * breadth first (Exhaustive = TRUE, tiny pools) to check the machine's own
       invariants, and
     * in seeded simulation (Exhaustive = FALSE) to generate histories, each
       printed as one JSON document, that are replayed on the library.        *)
EXTENDS Dense, TLC, Json, FiniteSetsExt

CONSTANTS DimsSet,     \* set of local-dimension tuples
          NRegs, MaxSteps, MaxAmp,
          Kinds,       \* enabled action kinds
          Exhaustive,
          Entries,     \* pool of integer entries
          CplxSet      \* subset of {TRUE, FALSE}

VARIABLES dims, cplx, reg, file, log, step
vars == <<dims, cplx, reg, file, log, step>>

N == Len(dims)
Regs == 1..NRegs
Dead == [live |-> FALSE, vec |-> <<>>, p |-> 1, q |-> 1, pos |-> 0,
         g |-> <<>>, bd |-> <<>>, cl |-> 1, dm |-> 0]
Live == {r \in Regs : reg[r].live}
K == Prod(dims)

Pick(S) == IF Exhaustive THEN S ELSE {RandomElement(S)}
\* Gaussian integer entries of the pool (imaginary part only for complex flavour)
GPool(c) == IF c THEN {<<a, b>> : a \in Entries, b \in Entries} ELSE {<<a, 0>> : a \in Entries}
PickVec(n, c) == IF Exhaustive THEN [1..n -> GPool(c)]
                 ELSE LET P == GPool(c) IN {[i \in 1..n |-> RandomElement(P)]}
PickMat(n, m, c) == IF Exhaustive THEN [1..n -> [1..m -> GPool(c)]]
                    ELSE LET P == GPool(c) IN {[i \in 1..n |-> [j \in 1..m |-> RandomElement(P)]]}

On(k) == k \in Kinds /\ step < MaxSteps
\* log entry; `ch` lists the registers whose abstract value changed
Rec(e, ch) == /\ log' = IF Exhaustive THEN log ELSE Append(log, [e |-> e,
                          ch |-> [k \in 1..Len(ch) |-> [r |-> ch[k]] @@ reg'[ch[k]]]])
              /\ step' = step + 1
              /\ UNCHANGED <<dims, cplx>>
NoFile == UNCHANGED file

-----------------------------------------------------------------------------
(* gauge book-keeping *)
MoveG(g, p, b) == [n \in 1..Len(g) |-> IF p < n /\ n <= b THEN "L"
                                      ELSE IF b < n /\ n <= p THEN "R" ELSE g[n]]
RECURSIVE TightR(_, _, _, _), TightL(_, _, _, _)
\* (at the final centre bond the bond matrix may be rectangular, so that bound is kept)
TightR(d, bd, n, b) == IF n + 1 >= b THEN bd      \* orthonormalising site n+1 (bond n -> n+1)
    ELSE TightR(d, [bd EXCEPT ![n+2] = Min2(@, bd[n+1]*d[n+1])], n+1, b)
TightL(d, bd, n, b) == IF n <= b THEN bd      \* orthonormalising site n (bond n -> n-1)
    ELSE TightL(d, [bd EXCEPT ![n] = Min2(@, bd[n+1]*d[n])], n-1, b)
MoveBd(d, bd, p, b) == IF p <= b THEN TightR(d, bd, p, b) ELSE TightL(d, bd, p, b)
MoveReg(s, b) ==
  IF b = s.pos THEN s
  ELSE LET bd0 == IF b > s.pos THEN [s.bd EXCEPT ![s.pos+1] = s.cl] ELSE s.bd
           bd1 == MoveBd(dims, bd0, s.pos, b)
       IN [s EXCEPT !.pos = b, !.g = MoveG(s.g, s.pos, b), !.bd = bd1,
                    !.cl = IF b > s.pos THEN Min2(bd1[b+1], bd1[b]*dims[b]) ELSE s.bd[b+1]]
CanonAt(s, b) == LET h == MoveG(s.g, s.pos, b) IN
                 \A n \in 1..Len(h) : h[n] = IF n <= b THEN "L" ELSE "R"
AllU(n) == [i \in 1..n |-> "U"]

-----------------------------------------------------------------------------
(* construction *)
\* in simulation, overwrite live registers only now and then
MayCreate == Exhaustive \/ Cardinality(Live) < 2 \/ RandomElement(1..4) = 1
NewProduct ==
  /\ On("NewProduct")
  /\ MayCreate
  /\ \E r \in Pick(Regs) : \E cc \in Pick({cplx, FALSE}) :
     \E loc \in IF Exhaustive THEN [1..N -> [1..2 -> GPool(cc)]]
                ELSE LET P == GPool(cc) IN {[n \in 1..N |-> [s \in 1..dims[n] |-> RandomElement(P)]]} :
       /\ \A n \in 1..N : ~IsZero(loc[n])
       /\ LET v == ProductVec(dims, loc) IN
          /\ AllBelow(v, MaxAmp)
          /\ reg' = [reg EXCEPT ![r] = [live |-> TRUE, vec |-> v, p |-> 1, q |-> 1, pos |-> N,
                        g |-> AllU(N), bd |-> [b \in 1..N+1 |-> 1], cl |-> 1, dm |-> 0]]
          /\ Rec([op |-> "NewProduct", r |-> r, loc |-> loc, c |-> cc], <<r>>)
  /\ NoFile

(* an entangled state from integer tensors; t[n][s] is a Dl x Dr matrix.  The
   library normalises: state = vec/|vec|. *)
RECURSIVE Contract(_, _, _, _)
Contract(d, t, n, i) == \* row vector after sites 1..n for basis index i
  IF n = 0 THEN <<<<G1>>>> ELSE MMul(Contract(d, t, n-1, i), t[n][Digit(d, n, i)+1])
ContractAll(d, t) == [i \in 1..Prod(d) |-> Contract(d, t, Len(d), i)[1][1]]
RandTensors(d, D, c) == LET P == GPool(c) M == Len(d) IN
  [n \in 1..M |-> [s \in 1..d[n] |->
     [i \in 1..(IF n = 1 THEN 1 ELSE D) |-> [j \in 1..(IF n = M THEN 1 ELSE D) |-> RandomElement(P)]]]]
NewTensors ==
  /\ On("NewTensors") /\ ~Exhaustive /\ MayCreate
  /\ \E r \in Pick(Regs) : \E D \in Pick({2, 3}) : \E cc \in Pick({cplx, FALSE}) : \E t \in {RandTensors(dims, D, cc)} :
     LET v == ContractAll(dims, t) IN
       /\ ~IsZero(v) /\ AllBelow(v, MaxAmp)
       /\ reg' = [reg EXCEPT ![r] = [live |-> TRUE, vec |-> v, p |-> 1, q |-> Norm2(v), pos |-> N,
                        g |-> [n \in 1..N |-> "L"],
                        bd |-> MoveBd(dims, MoveBd(dims, [b \in 1..N+1 |-> IF b = 1 \/ b = N+1 THEN 1 ELSE D], N, 0), 0, N),
                        cl |-> 1, dm |-> 0]]
       /\ Rec([op |-> "NewTensors", r |-> r, t |-> t, c |-> cc], <<r>>)
  /\ NoFile

-----------------------------------------------------------------------------
(* centre moves and read-outs that must not change anything else *)
Position ==
  /\ On("Position") /\ Live # {}
  /\ \E r \in Pick(Live) : \E b \in Pick(0..N) :
       /\ ~IsZero(reg[r].vec)
       /\ reg' = [reg EXCEPT ![r] = MoveReg(@, b)]
       /\ Rec([op |-> "Position", r |-> r, b |-> b], <<r>>)
  /\ NoFile
\* a request with explicit limits that have nothing to remove: the centre is already
\* there, or the state is a product state whose only Schmidt value is 1
PositionT ==
  /\ On("PositionT") /\ Live # {}
  /\ \E r \in Pick(Live) : \E b \in Pick(0..N) : \E t \in Pick({0, 5, 8}) : \E D \in Pick({0, 1, 2}) :
     LET s == reg[r]  c == IF CanonAt(s, s.pos) /\ (\A k \in 1..N-1 : RankOne(dims, s.vec, k)) THEN b ELSE s.pos IN
       /\ ~IsZero(s.vec) /\ (Exhaustive => t > 0)
       /\ reg' = [reg EXCEPT ![r] = MoveReg(@, c)]
       /\ Rec([op |-> "PositionT", r |-> r, b |-> c, t |-> t, D |-> D], <<r>>)
  /\ NoFile
Schmidt ==   \* reading Schmidt values moves the centre to the bond
  /\ On("Schmidt") /\ Live # {} /\ N > 1
  /\ \E r \in Pick(Live) : \E b \in Pick(1..N-1) :
       /\ ~IsZero(reg[r].vec) /\ Norm2(reg[r].vec) <= 2000
       /\ CanonAt(reg[r], b)
       /\ reg' = [reg EXCEPT ![r] = MoveReg(@, b)]
       /\ Rec([op |-> "Schmidt", r |-> r, b |-> b, pur |-> PurityNum(dims, reg[r].vec, b),
               nrm |-> Norm2(reg[r].vec)], <<r>>)
  /\ NoFile

Canonize ==  \* reading the Gamma-Lambda form changes nothing
  /\ On("Canonize") /\ Live # {} /\ N > 1
  /\ \E r \in Pick(Live) :
       /\ ~IsZero(reg[r].vec) /\ Norm2(reg[r].vec) <= 2000
       /\ UNCHANGED reg
       /\ Rec([op |-> "Canonize", r |-> r, nrm |-> Norm2(reg[r].vec),
               pur |-> [b \in 1..N-1 |-> PurityNum(dims, reg[r].vec, b)]], <<r>>)
  /\ NoFile

Ortho ==  \* orthonormalising some sites of a list of the tensors; the register is only read
  /\ On("Ortho") /\ Live # {}
  /\ \E r \in Pick(Live) : \E m \in Pick({"qr", "svd"}) : \E dir \in Pick({-1, 1}) : \E a \in Pick(1..N) : \E b \in Pick({a, N}) :
       /\ ~IsZero(reg[r].vec)
       /\ UNCHANGED reg
       /\ Rec([op |-> "Ortho", r |-> r, m |-> m, dir |-> dir,
               from |-> IF dir > 0 THEN a ELSE N+1-b, to |-> IF dir > 0 THEN b ELSE N+1-a,
               whole |-> b = N,                       \* the sweep reaches the end of the chain: its last matrix completes the state
               flags |-> [n \in 1..N |-> IF dir > 0 THEN (IF n \in a..b THEN "L" ELSE "N")
                                        ELSE IF n \in (N+1-b)..(N+1-a) THEN "R" ELSE "N"]], <<r>>)
  /\ NoFile

-----------------------------------------------------------------------------
(* vector space *)
Scalars == IF cplx THEN {<<1,0>>, <<2,0>>, <<-1,0>>, <<0,1>>, <<1,1>>, <<1,-2>>, <<-3,0>>}
           ELSE {<<1,0>>, <<2,0>>, <<-1,0>>, <<3,0>>, <<-2,0>>}
ScaleTo(op, inplace) ==
  \E r \in Pick(Live) : \E s \in (IF inplace THEN {r} ELSE Pick(Regs)) : \E z \in Pick(Scalars) :
    LET v == VScale(z, reg[r].vec) IN
      /\ AllBelow(v, MaxAmp)
      /\ reg' = [reg EXCEPT ![s] = [reg[r] EXCEPT !.vec = v]]
      /\ Rec([op |-> op, r |-> r, s |-> s, z |-> z], <<s>>)
Scale == On("Arith") /\ Live # {} /\ \E o \in Pick({"Mul", "RMul"}) : ScaleTo(o, FALSE) /\ NoFile
IScale == On("Arith") /\ Live # {} /\ ScaleTo("IMul", TRUE) /\ NoFile
\* division by z: exact when every component is divisible; otherwise scale p/q for real z
Divide ==
  /\ On("Arith") /\ Live # {}
  /\ \E r \in Pick(Live) : \E s \in Pick(Regs) : \E z \in Pick({1, 2, -2, 3}) : \E o \in Pick({"Div", "IDiv"}) :
       /\ reg[r].q <= 1000 /\ reg[r].p <= 1000
       /\ LET tgt == IF o = "IDiv" THEN r ELSE s
              v == IF z < 0 THEN VScale(<<-1,0>>, reg[r].vec) ELSE reg[r].vec
              gg == GCD(reg[r].p, reg[r].q*z*z) IN
          /\ reg' = [reg EXCEPT ![tgt] = [reg[r] EXCEPT !.vec = v, !.p = reg[r].p \div gg, !.q = (reg[r].q*z*z) \div gg]]
          /\ Rec([op |-> o, r |-> r, s |-> tgt, z |-> z], <<tgt>>)
  /\ NoFile
Negate ==
  /\ On("Arith") /\ Live # {}
  /\ \E r \in Pick(Live) : \E s \in Pick(Regs) :
       /\ reg' = [reg EXCEPT ![s] = [reg[r] EXCEPT !.vec = VScale(<<-1,0>>, @)]]
       /\ Rec([op |-> "Neg", r |-> r, s |-> s], <<s>>)
  /\ NoFile
Conjugate ==
  /\ On("Conj") /\ Live # {}
  /\ \E r \in Pick(Live) : \E s \in Pick(Regs) : \E o \in Pick({"conj", "conjugate"}) :
       LET tgt == IF o = "conj" THEN r ELSE s IN      \* conj() works in place
       /\ reg' = [reg EXCEPT ![tgt] = [reg[r] EXCEPT !.vec = VConj(@)]]
       /\ Rec([op |-> o, r |-> r, s |-> tgt], <<tgt>>)
  /\ NoFile
LeftD(s, i) == IF i = s.pos + 1 THEN s.cl ELSE s.bd[i]
SumReg(a, b, v) == [live |-> TRUE, vec |-> v, p |-> a.p, q |-> a.q, pos |-> N, g |-> AllU(N),
        bd |-> [i \in 1..N+1 |-> IF i = 1 \/ i = N+1 THEN 1 ELSE LeftD(a, i) + LeftD(b, i)], cl |-> 1, dm |-> 0]
AddSub ==
  /\ On("Arith") /\ Live # {} /\ N > 1
  /\ \E r1 \in Pick(Live) : \E s \in Pick(Regs) :
     \E r2 \in Pick({x \in Live : reg[x].p = reg[r1].p /\ reg[x].q = reg[r1].q}) :
     \E o \in Pick({"Add", "Sub", "IAdd", "ISub"}) :
       LET a == reg[r1]  b == reg[r2]
           tgt == IF o \in {"IAdd", "ISub"} THEN r1 ELSE s
           v == IF o \in {"Add", "IAdd"} THEN VAdd(a.vec, b.vec) ELSE VSub(a.vec, b.vec)
       IN /\ a.p = b.p /\ a.q = b.q
          /\ \A i \in 1..N+1 : LeftD(a, i) + LeftD(b, i) <= 12
          /\ AllBelow(v, MaxAmp)
          /\ reg' = [reg EXCEPT ![tgt] = SumReg(a, b, v)]
          /\ Rec([op |-> o, r |-> r1, r2 |-> r2, s |-> tgt], <<tgt>>)
  /\ NoFile

\* ((1 + h G_n) psi - psi)/h, with the two operands differing in one tensor by a tiny amount,
\* is G_n psi: sums and differences are exact however close their operands are
Derivative ==
  /\ On("Arith") /\ Live # {} /\ N > 1
  /\ \E r \in Pick(Live) : \E n \in Pick(1..N) : \E m \in PickMat(dims[n], dims[n], cplx) :
       \E o \in Pick({"Sub", "ISub", "Add"}) :
       /\ \A i \in 1..N+1 : LeftD(reg[r], i) <= 12
       /\ UNCHANGED reg
       /\ Rec([op |-> "Derivative", r |-> r, n |-> n, m |-> m, o |-> o, vec |-> ApplyOne(dims, reg[r].vec, m, n)], <<>>)
  /\ NoFile

-----------------------------------------------------------------------------
(* copies and files *)
\* the user scales one site tensor in place (t = psi[n]; t *= z; psi[n] = t)
Poke ==
  /\ On("Copy") /\ Live # {}
  /\ \E r \in Pick(Live) : \E n \in Pick(1..N) : \E z \in Pick({2, -1, -2, 3}) :
       LET v == VScale(<<z, 0>>, reg[r].vec) IN
       /\ AllBelow(v, MaxAmp)
       /\ reg' = [reg EXCEPT ![r] = [@ EXCEPT !.vec = v, !.g[n] = "U"]]
       /\ Rec([op |-> "Poke", r |-> r, n |-> n, z |-> z], <<r>>)
  /\ NoFile
Copy ==
  /\ On("Copy") /\ Live # {}
  /\ \E r \in Pick(Live) : \E s \in Pick(Regs \ {r}) :
       /\ reg' = [reg EXCEPT ![s] = reg[r]]
       /\ Rec([op |-> "Copy", r |-> r, s |-> s], <<s>>)
  /\ NoFile
SetDmax ==
  /\ On("File") /\ Live # {}
  /\ \E r \in Pick(Live) : \E D \in Pick({17, 23, 31}) :
       /\ reg' = [reg EXCEPT ![r].dm = D]
       /\ Rec([op |-> "SetDmax", r |-> r, D |-> D], <<r>>)
  /\ NoFile
Save ==
  /\ On("File") /\ Live # {}
  /\ \E r \in Pick(Live) : \E f \in Pick(1..2) :
       /\ file' = [file EXCEPT ![f] = reg[r]]
       /\ UNCHANGED reg
       /\ Rec([op |-> "Save", r |-> r, f |-> f], <<>>)
Load ==      \* into a live object, whatever it held before
  /\ On("File") /\ Live # {}
  /\ \E r \in Pick(Live) : \E f \in Pick(1..2) :
       /\ file[f].live
       /\ reg' = [reg EXCEPT ![r] = file[f]]
       /\ Rec([op |-> "Load", r |-> r, f |-> f], <<r>>)
  /\ NoFile

-----------------------------------------------------------------------------
(* gates *)
OneSite ==
  /\ On("OneSite") /\ Live # {}
  /\ \E r \in Pick(Live) : \E n \in Pick(1..N) : \E keep \in Pick({TRUE, FALSE}) :
     \E cc \in Pick({cplx, FALSE}) : \E m \in PickMat(dims[n], dims[n], cc) :
       LET v == ApplyOne(dims, reg[r].vec, m, n)
           moved == MoveReg(reg[r], n)
       IN /\ ~IsZero(v) /\ AllBelow(v, MaxAmp)
          /\ reg' = [reg EXCEPT ![r] = IF keep THEN [moved EXCEPT !.vec = v, !.cl = Min2(moved.bd[n+1], moved.bd[n]*dims[n])]
                                       ELSE [reg[r] EXCEPT !.vec = v, !.g[n] = "U"]]
          /\ Rec([op |-> "OneSite", r |-> r, n |-> n, keep |-> keep, m |-> m], <<r>>)
  /\ NoFile
\* phased permutation gates (unitary) and general integer gates
RECURSIVE Shuffle(_, _)
Shuffle(s, k) == IF k = 0 THEN s ELSE
   LET i == RandomElement(1..Len(s))  j == RandomElement(1..Len(s)) IN
   Shuffle([s EXCEPT ![i] = s[j], ![j] = s[i]], k-1)
Phases == IF cplx THEN {<<1,0>>, <<-1,0>>, <<0,1>>, <<0,-1>>} ELSE {<<1,0>>, <<-1,0>>}
PermGate(n) == LET s == Shuffle([i \in 1..n |-> i], n)
                   ph == [i \in 1..n |-> RandomElement(Phases)]
               IN [i \in 1..n |-> [j \in 1..n |-> IF s[i] = j THEN ph[i] ELSE G0]]
ExGates == { [i \in 1..4 |-> [j \in 1..4 |-> IF <<i,j>> \in {<<1,1>>,<<2,2>>,<<3,4>>,<<4,3>>} THEN G1 ELSE G0]],
             [i \in 1..4 |-> [j \in 1..4 |-> IF i = j THEN (IF i = 4 THEN <<-1,0>> ELSE G1) ELSE IF i = 1 /\ j = 2 THEN G1 ELSE G0]] }
TwoSiteGates(n, uni) ==
   IF Exhaustive THEN ExGates
   ELSE IF uni THEN {PermGate(n)} ELSE PickMat(n, n, cplx)
TwoSite ==
  /\ On("TwoSite") /\ Live # {} /\ N > 1
  /\ \E r \in Pick(Live) : \E n \in Pick(1..N-1) : \E uni \in Pick({TRUE, FALSE}) :
     \E m \in TwoSiteGates(dims[n]*dims[n+1], uni) :
       LET s == reg[r]
           v == ApplyTwo(dims, s.vec, m, n)
           a == Norm2(s.vec)  b == Norm2(v)
           mv == MoveReg(s, n)
           nbd == [mv.bd EXCEPT ![n+1] = Min2(mv.bd[n]*dims[n], dims[n+1]*mv.bd[n+2])]
           ng == [mv.g EXCEPT ![n] = "L", ![n+1] = "R"]
       IN /\ ~IsZero(s.vec) /\ CanonAt(s, n)
          /\ ~IsZero(v) /\ AllBelow(v, MaxAmp)
          /\ (a = b \/ (s.p <= 40 /\ s.q <= 40 /\ a < 40000 /\ b < 40000))
          /\ LET c == GCD(a, b)
                 np == s.p * (a \div c)  nq == s.q * (b \div c)  h == GCD(np, nq) IN
             /\ reg' = [reg EXCEPT ![r] = [mv EXCEPT !.vec = v, !.p = np \div h, !.q = nq \div h,
                                                    !.g = ng, !.bd = nbd, !.cl = nbd[n+1]]]
             /\ Rec([op |-> "TwoSite", r |-> r, n |-> n, m |-> m], <<r>>)
  /\ NoFile
NoTrunc ==    \* truncation that cannot remove anything: a limit at least the current maximal bond
  /\ On("NoTrunc") /\ Live # {} /\ N > 1
  /\ \E r \in Pick(Live) :
     LET s == reg[r]  mx == CHOOSE m \in {s.bd[i] : i \in 1..N+1} : \A i \in 1..N+1 : s.bd[i] <= m IN
       /\ ~IsZero(s.vec)
       \* the object's own limit must admit the request, else the call is documented to do nothing
       /\ reg' = [reg EXCEPT ![r] = [MoveReg(MoveReg(MoveReg(s, 0), N), 0) EXCEPT !.dm = 64]]
       /\ Rec([op |-> "NoTrunc", r |-> r, D |-> mx], <<r>>)
  /\ NoFile

-----------------------------------------------------------------------------
(* observations: results are exact, nothing represented changes *)
Val(g, p1, q1, p2, q2) == [g |-> g, p1 |-> p1, q1 |-> q1, p2 |-> p2, q2 |-> q2]
Dot ==
  /\ On("Dot") /\ Live # {}
  /\ \E r1 \in Pick(Live) : \E r2 \in Pick(Live) :
       LET a == reg[r1]  b == reg[r2] IN
       /\ UNCHANGED reg
       /\ Rec([op |-> "Dot", r |-> r1, r2 |-> r2, val |-> Val(Inner(a.vec, b.vec), a.p, a.q, b.p, b.q)], <<>>)
  /\ NoFile
ValOf(s, ops) == Val(Expect(dims, s.vec, ops), s.p, s.q, s.p, s.q)
Local ==
  /\ On("Measure") /\ Live # {}
  /\ \E r \in Pick(Live) : \E n \in Pick(1..N) : \E c \in Pick({TRUE, FALSE}) : \E m \in PickMat(dims[n], dims[n], c) :
       /\ CanonAt(reg[r], n) /\ ~IsZero(reg[r].vec)
       /\ reg' = [reg EXCEPT ![r] = MoveReg(MoveReg(@, n), reg[r].pos)]
       /\ Rec([op |-> "Local", r |-> r, n |-> n, m |-> m, val |-> ValOf(reg[r], <<<<n, m>>>>)], <<r>>)
  /\ NoFile
MatsFor(c) == LET P == GPool(c) IN
   {[n \in 1..N |-> [i \in 1..dims[n] |-> [j \in 1..dims[n] |-> RandomElement(P)]]]}
List ==
  /\ On("Measure") /\ Live # {} /\ ~Exhaustive
  /\ \E r \in Pick(Live) : \E c \in Pick({TRUE, FALSE}) : \E ms \in MatsFor(c) :
       /\ CanonAt(reg[r], 0) /\ ~IsZero(reg[r].vec)
       /\ reg' = [reg EXCEPT ![r] = MoveReg(MoveReg(@, 0), reg[r].pos)]
       /\ Rec([op |-> "List", r |-> r, ms |-> ms,
               vals |-> [n \in 1..N |-> ValOf(reg[r], <<<<n, ms[n]>>>>)]], <<r>>)
  /\ NoFile
MatElList ==
  /\ On("Measure") /\ Live # {} /\ ~Exhaustive
  /\ \E r1 \in Pick(Live) : \E r2 \in Pick(Live) : \E c \in Pick({TRUE, FALSE}) : \E ms \in MatsFor(c) :
       LET a == reg[r1]  b == reg[r2]
           back(s) == MoveReg(MoveReg(s, 0), s.pos) IN
       /\ ~IsZero(a.vec) /\ ~IsZero(b.vec) /\ r1 # r2
       /\ reg' = [reg EXCEPT ![r1] = back(@), ![r2] = back(@)]
       /\ Rec([op |-> "MatEl", r |-> r1, r2 |-> r2, ms |-> ms,
               vals |-> [n \in 1..N |-> Val(MatEl(dims, a.vec, b.vec, <<<<n, ms[n]>>>>), a.p, a.q, b.p, b.q)]],
              <<r1, r2>>)
  /\ NoFile
RECURSIVE SortedPick(_, _)
SortedPick(k, lo) == IF k = 0 THEN <<>> ELSE LET s == RandomElement(lo..N) IN <<s>> \o SortedPick(k-1, s)
\* products of operators on weakly increasing sites
Corr ==
  /\ On("Corr") /\ Live # {} /\ ~Exhaustive
  /\ \E r \in Pick(Live) : \E k \in Pick(1..4) : \E sites \in {SortedPick(k, 1)} : \E c \in Pick({TRUE, FALSE}) :
     \E jw \in Pick({TRUE, FALSE}) :
     \E ms \in {[i \in 1..k |-> LET dd == dims[sites[i]] P == IF c THEN {G0, G1, GI, <<-1,0>>} ELSE {G0, G1, <<-1,0>>, <<2,0>>}
                                IN [a \in 1..dd |-> [b \in 1..dd |-> RandomElement(P)]]]} :
     \E ps \in {[n \in 1..N |-> [i \in 1..dims[n] |-> [j \in 1..dims[n] |->
                     IF i = j THEN <<RandomElement({1,-1}), 0>> ELSE G0]]]} :
       LET s == reg[r]
           RECURSIVE Strings(_)
           Strings(n) == IF n = 0 THEN <<>> ELSE Append(Strings(n-1), <<n, ps[n]>>)
           RECURSIVE Ops(_)
           Ops(i) == IF i = 0 THEN <<>> ELSE Ops(i-1) \o (IF jw THEN Strings(sites[i]-1) ELSE <<>>) \o <<<<sites[i], ms[i]>>>>
           amp == ApplyList(dims, s.vec, Ops(k))
       IN /\ CanonAt(s, sites[k]) /\ ~IsZero(s.vec) /\ AllBelow(amp, 10000)
          /\ reg' = [reg EXCEPT ![r] = MoveReg(@, sites[k])]
          /\ Rec([op |-> "Corr", r |-> r, sites |-> sites, ms |-> ms, jw |-> jw, ps |-> ps,
                  val |-> Val(Inner(amp, s.vec), s.p, s.q, s.p, s.q)], <<r>>)
  /\ NoFile

-----------------------------------------------------------------------------
Emit == /\ ~Exhaustive /\ step = MaxSteps
        /\ PrintT(ToJson([dims |-> dims, cplx |-> cplx, log |-> log]))
        /\ step' = step + 1 /\ UNCHANGED <<dims, cplx, reg, file, log>>

Init == /\ dims \in DimsSet /\ cplx \in CplxSet
        /\ reg = [r \in Regs |-> Dead] /\ file = [f \in 1..2 |-> Dead]
        /\ log = <<>> /\ step = 0
Next == NewProduct \/ NewTensors \/ Position \/ PositionT \/ Schmidt \/ Canonize \/ Ortho \/ Scale \/ IScale \/ Divide \/ Negate \/ Conjugate
        \/ AddSub \/ Derivative \/ Copy \/ Poke \/ SetDmax \/ Save \/ Load \/ OneSite \/ TwoSite \/ NoTrunc
        \/ Dot \/ Local \/ List \/ MatElList \/ Corr \/ Emit
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* invariants of the machine, checked breadth first *)
TypeOK == \A r \in Live : /\ Len(reg[r].vec) = K /\ reg[r].pos \in 0..N
                          /\ reg[r].p > 0 /\ reg[r].q > 0 /\ GCD(reg[r].p, reg[r].q) \in 1..100000
EdgeBonds == \A r \in Live : reg[r].bd[1] = 1 /\ reg[r].bd[N+1] = 1 /\ \A i \in 1..N+1 : reg[r].bd[i] >= 1
\* the bond-dimension bounds are sound: a bond with bound 1 carries a product cut
BoundsSound == \A r \in Live : \A b \in 1..N-1 : reg[r].bd[b+1] = 1 => RankOne(dims, reg[r].vec, b)
\* on a canonical register the centre separates L from R
CanonMeaning == \A r \in Live : CanonAt(reg[r], reg[r].pos) => \A b \in 0..N : CanonAt(reg[r], b)
InnerHermitian == \A r, s \in Live : Inner(reg[r].vec, reg[s].vec) = GConj(Inner(reg[s].vec, reg[r].vec))
CauchySchwarz == \A r, s \in Live :
    GAbs2(Inner(reg[r].vec, reg[s].vec)) <= Norm2(reg[r].vec) * Norm2(reg[s].vec)
PurityBound == \A r \in Live : \A b \in 1..N-1 :
    /\ PurityNum(dims, reg[r].vec, b) <= Norm2(reg[r].vec) * Norm2(reg[r].vec)
    /\ (RankOne(dims, reg[r].vec, b) <=> PurityNum(dims, reg[r].vec, b) = Norm2(reg[r].vec) * Norm2(reg[r].vec))
\* no action changes more than its target
OneTarget == [][Cardinality({r \in Regs : reg'[r].vec # reg[r].vec}) <= 1]_vars
=============================================================================
