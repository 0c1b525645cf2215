---------------------------- MODULE Constructors ----------------------------
(* How states come into being.  The caller owns two kinds of mutable inputs, a
   list of local vectors and a list of tensors with a centre matrix; the store
   holds objects.  Constructors copy: afterwards neither side can change the
   other.  An open-boundary object has a represented vector; a periodic one is
   described by its ring vector Tr(A1[s1] .. AN[sN] M) up to a factor.          *)
EXTENDS Dense, TLC, Json, FiniteSetsExt
CONSTANTS DimsSet, MaxSteps, Entries, Bonds
VARIABLES dims, step, vecs, tens, obj, log
vars == <<dims, step, vecs, tens, obj, log>>
Rnd(X) == IF step < 0 THEN CHOOSE x \in X : TRUE ELSE RandomElement(X)
N == Len(dims)
Objs == 1..3
None == [kind |-> "none", obc |-> TRUE, vec |-> <<>>, c |-> FALSE, D |-> 0]
Pool(c) == IF c THEN {<<a, b>> : a \in Entries, b \in Entries} ELSE {<<a, 0>> : a \in Entries}
RVec(n, c) == [i \in 1..n |-> Rnd(Pool(c))]
RMat(n, m, c) == [i \in 1..n |-> RVec(m, c)]
MTrace(x) == GSum([i \in 1..Len(x) |-> x[i][i]])

RECURSIVE Row(_, _, _)             \* product of the matrices of sites 1..n in configuration i
Row(t, n, i) == IF n = 1 THEN t[1][Digit(dims, 1, i)+1] ELSE MMul(Row(t, n-1, i), t[n][Digit(dims, n, i)+1])
Ring(t, mat) == TLCEval([i \in 1..Prod(dims) |-> MTrace(MMul(Row(t, N, i), mat))])

Rec(e, chg) == /\ log' = Append(log, [e |-> e, chg |-> chg, obj |-> obj'])
               /\ step' = step + 1 /\ UNCHANGED dims
Set(o, v) == obj' = [obj EXCEPT ![o] = v]

\* the caller's inputs
NewVecs == /\ \E c \in {Rnd(BOOLEAN)} : \E z \in {Rnd(1..4)} : \E zn \in {Rnd(1..N)} :
              \E v \in {[n \in 1..N |-> IF z = 1 /\ n = zn THEN VZero(dims[n]) ELSE RVec(dims[n], c)]} :
              vecs' = [v |-> v, c |-> c, set |-> TRUE]
           /\ UNCHANGED <<tens, obj>> /\ Rec([op |-> "NewVecs", v |-> vecs'.v, c |-> vecs'.c], 0)
NewTens == /\ \E c \in {Rnd(BOOLEAN)} : \E o \in {Rnd(BOOLEAN)} : \E wm \in {Rnd(BOOLEAN)} : \E D \in {Rnd(Bonds)} :
              \E ds \in {[b \in 1..N+1 |-> IF b = 1 \/ b = N+1 THEN (IF o THEN 1 ELSE D) ELSE Rnd(Bonds)]} :
              \E t \in {[n \in 1..N |-> [s \in 1..dims[n] |-> RMat(ds[n], ds[n+1], c)]]} :
              \E m \in {IF wm THEN RMat(ds[N+1], ds[1], c) ELSE MId(ds[1])} :
              tens' = [t |-> t, m |-> m, wm |-> wm, c |-> c, obc |-> o, D |-> Max({ds[b] : b \in 1..N+1}), set |-> TRUE]
           /\ UNCHANGED <<vecs, obj>>
           /\ Rec([op |-> "NewTens", t |-> tens'.t, m |-> tens'.m, wm |-> tens'.wm, c |-> tens'.c, obc |-> tens'.obc], 0)
\* the caller overwrites his inputs in place: no object may notice
SpoilVecs == vecs.set /\ vecs' = [vecs EXCEPT !.set = FALSE] /\ UNCHANGED <<tens, obj>> /\ Rec([op |-> "SpoilVecs"], 0)
SpoilTens == tens.set /\ tens' = [tens EXCEPT !.set = FALSE] /\ UNCHANGED <<vecs, obj>> /\ Rec([op |-> "SpoilTens"], 0)
\* an object's tensor is multiplied in place: no input and no other object may notice
SpoilObj == \E o \in {Rnd(Objs)} : \E n \in {Rnd(1..N)} :
            /\ obj[o].kind \in {"exact", "unit", "raw"}
            /\ Set(o, [obj[o] EXCEPT !.vec = VScale(<<-2, 0>>, @), !.kind = CASE @ = "unit" -> "unit2" [] @ = "exact" -> "exact2" [] OTHER -> @])
            /\ UNCHANGED <<vecs, tens>> /\ Rec([op |-> "SpoilObj", o |-> o, n |-> n], o)
\* the list of tensors an object hands out is its own copy
SpoilList == \E o \in {Rnd(Objs)} : obj[o].kind # "none" /\ UNCHANGED <<vecs, tens, obj>> /\ Rec([op |-> "SpoilList", o |-> o], 0)

Product == /\ vecs.set
           /\ \E o \in {Rnd(Objs)} : \E dt \in {Rnd(BOOLEAN)} : \E ob \in {Rnd(BOOLEAN)} :
              LET refuse == \E n \in 1..N : IsZero(vecs.v[n]) IN
              /\ obj' = IF refuse THEN obj
                        ELSE [obj EXCEPT ![o] = [kind |-> "exact", obc |-> ob, vec |-> ProductVec(dims, vecs.v), c |-> dt \/ vecs.c, D |-> 1]]
              /\ Rec([op |-> "Product", o |-> o, dt |-> dt, obc |-> ob, refuse |-> refuse], o)
           /\ UNCHANGED <<vecs, tens>>
FromList == /\ tens.set
            /\ \E o \in {Rnd(Objs)} :
               \E v \in {Ring(tens.t, tens.m)} :
               /\ Set(o, [kind |-> IF IsZero(v) THEN "undef" ELSE "unit", obc |-> tens.obc, vec |-> v, c |-> tens.c, D |-> tens.D])
               /\ Rec([op |-> "FromList", o |-> o], o)
            /\ UNCHANGED <<vecs, tens>>
\* the bare constructor: the same tensors, represented up to a factor
Raw == /\ tens.set
       /\ \E o \in {Rnd(Objs)} : \E v \in {Ring(tens.t, MId(Len(tens.m)))} :
          /\ Set(o, [kind |-> IF IsZero(v) THEN "undef" ELSE "raw", obc |-> tens.obc, vec |-> v, c |-> tens.c, D |-> tens.D])
          /\ Rec([op |-> "Raw", o |-> o], o)
       /\ UNCHANGED <<vecs, tens>>
\* constructors without inputs; kinds "uniform", "random", "zero" have no given vector
Make == /\ \E o \in {Rnd(Objs)} : \E k \in {Rnd({"ones", "random", "zeros"})} : \E ob \in {Rnd(BOOLEAN)} : \E c \in {Rnd(BOOLEAN)} :
           \E D \in {Rnd(Bonds)} : \E sc \in {Rnd(BOOLEAN)} :
           /\ Set(o, [kind |-> CASE k = "ones" -> "uniform" [] k = "random" -> "random" [] k = "zeros" -> "zero",
                      obc |-> ob, vec |-> <<>>, c |-> c, D |-> D])
           /\ Rec([op |-> "Make", o |-> o, k |-> k, obc |-> ob, c |-> c, D |-> D, same |-> sc], o)
        /\ UNCHANGED <<vecs, tens>>
Emit == /\ step = MaxSteps /\ PrintT(ToJson([dims |-> dims, log |-> log]))
        /\ step' = step + 1 /\ UNCHANGED <<dims, vecs, tens, obj, log>>
NoV == [v |-> <<>>, c |-> FALSE, set |-> FALSE]
NoT == [t |-> <<>>, m |-> <<>>, wm |-> FALSE, c |-> FALSE, obc |-> TRUE, D |-> 0, set |-> FALSE]
Init == dims \in DimsSet /\ step = 0 /\ vecs = NoV /\ tens = NoT /\ obj = [o \in Objs |-> None] /\ log = <<>>
Next == \/ step < MaxSteps /\ (NewVecs \/ NewTens \/ SpoilVecs \/ SpoilTens \/ SpoilObj \/ SpoilList \/ Product \/ FromList \/ Raw \/ Make)
        \/ Emit
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
\* a product is never the zero vector and has rank one across every cut
ProductsAreProducts == \A o \in Objs : obj[o].kind = "exact" =>
    ~IsZero(obj[o].vec) /\ \A b \in 1..N-1 : RankOne(dims, obj[o].vec, b)
\* overwriting inputs changes no object
InputsDoNotLeak == [][(vecs' # vecs \/ tens' # tens) => obj' = obj]_vars
OneObject == [][Cardinality({o \in Objs : obj'[o] # obj[o]}) <= 1]_vars
=============================================================================
