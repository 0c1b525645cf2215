-------------------------------- MODULE GInt --------------------------------
(* Exact arithmetic on Gaussian integers, written as pairs <<re, im>>, and on
   sequences / matrices of them.  Everything PyTeN computes in floating point
   is specified here over these exact numbers. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

G0 == <<0, 0>>
G1 == <<1, 0>>
GI == <<0, 1>>
Re(z) == z[1]
Im(z) == z[2]
GAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
GSub(a, b) == <<a[1] - b[1], a[2] - b[2]>>
GMul(a, b) == <<a[1]*b[1] - a[2]*b[2], a[1]*b[2] + a[2]*b[1]>>
GNeg(a) == <<-a[1], -a[2]>>
GConj(a) == <<a[1], -a[2]>>
GAbs2(a) == a[1]*a[1] + a[2]*a[2]
Int2G(n) == <<n, 0>>

RECURSIVE GSumTo(_, _)
GSumTo(s, n) == IF n = 0 THEN G0 ELSE GAdd(GSumTo(s, n-1), s[n])
GSum(s) == GSumTo(s, Len(s))

RECURSIVE ISumTo(_, _)
ISumTo(s, n) == IF n = 0 THEN 0 ELSE ISumTo(s, n-1) + s[n]
ISum(s) == ISumTo(s, Len(s))

Abs(n) == IF n < 0 THEN -n ELSE n
RECURSIVE GCD(_, _)
GCD(a, b) == IF b = 0 THEN a ELSE GCD(b, a % b)
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

(* vectors *)
VScale(z, v) == TLCEval([i \in 1..Len(v) |-> GMul(z, v[i])])
VAdd(v, w) == TLCEval([i \in 1..Len(v) |-> GAdd(v[i], w[i])])
VSub(v, w) == TLCEval([i \in 1..Len(v) |-> GSub(v[i], w[i])])
VConj(v) == TLCEval([i \in 1..Len(v) |-> GConj(v[i])])
VZero(n) == [i \in 1..n |-> G0]
IsZero(v) == \A i \in 1..Len(v) : v[i] = G0
Norm2(v) == ISum([i \in 1..Len(v) |-> GAbs2(v[i])])
MaxComp(v) == CHOOSE m \in 0..100000 :
                 /\ \A i \in 1..Len(v) : Abs(v[i][1]) <= m /\ Abs(v[i][2]) <= m
                 /\ (m = 0 \/ \E i \in 1..Len(v) : Abs(v[i][1]) = m \/ Abs(v[i][2]) = m)
AllBelow(v, m) == \A i \in 1..Len(v) : Abs(v[i][1]) <= m /\ Abs(v[i][2]) <= m
(* inner product, linear in the FIRST argument (the convention of the library) *)
Inner(a, b) == GSum([i \in 1..Len(a) |-> GMul(a[i], GConj(b[i]))])

(* matrices: sequences of rows *)
MMul(a, b) == TLCEval(LET x == TLCEval(a)  y == TLCEval(b) IN
   [i \in 1..Len(x) |-> TLCEval([j \in 1..Len(y[1]) |->
                 GSum(TLCEval([k \in 1..Len(y) |-> GMul(x[i][k], y[k][j])]))])])
MAdd(a, b) == TLCEval([i \in 1..Len(a) |-> VAdd(a[i], b[i])])
MId(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN G1 ELSE G0]]
MTrans(a) == TLCEval([j \in 1..Len(a[1]) |-> [i \in 1..Len(a) |-> a[i][j]]])
MHerm(a) == TLCEval([j \in 1..Len(a[1]) |-> [i \in 1..Len(a) |-> GConj(a[i][j])]])
MScale(z, a) == TLCEval([i \in 1..Len(a) |-> VScale(z, a[i])])
Kron(a, b) == LET n == Len(b)  m == Len(b[1]) IN
    TLCEval([i \in 1..(Len(a)*n) |-> TLCEval([j \in 1..(Len(a[1])*m) |->
        GMul(a[((i-1) \div n) + 1][((j-1) \div m) + 1], b[((i-1) % n) + 1][((j-1) % m) + 1])])])
=============================================================================
