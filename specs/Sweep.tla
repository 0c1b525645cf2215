-------------------------------- MODULE Sweep --------------------------------
(* The finite sweeping engines (one- and two-site ground-state search, TDVP) as
   a machine over "is this operator environment built from the current tensors".
   LF[n]: the block of sites 1..n matches; RF[k]: the block of the last k sites.
   pos is the centre bond 0..N.  Calls of the user expand into programs of
   micro-operations; every local update must find matching blocks on both sides
   and the centre next to it.  The abstraction is finite, so BFS covers every
   history of calls for the given chain lengths.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Engines, Ns, MaxUser, Emit
\* edge: [left |-> a, right |-> b] other sites of the chain on either side, known to the engine only by
\* their blocks; the window in front of the engine has N sites.  Block 0 on either side is that outer block.
VARIABLES eng, N, st, clean, todo, usedOk, nuser, path, ham, edge
vars == <<eng, N, st, clean, todo, usedOk, nuser, path, ham, edge>>
Rnd(S) == IF N = 0 THEN CHOOSE x \in S : TRUE ELSE RandomElement(S)

Max(a, b) == IF a > b THEN a ELSE b
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))

----------------------------------------------------------------------------
\* effect of the primitive operations on s = [pos, L, R]
Dirty(s, S) == [s EXCEPT !.L = [n \in 0..N |-> s.L[n] /\ \A x \in S : x > n],
                         !.R = [k \in 0..N |-> s.R[k] /\ \A x \in S : x <= N - k]]
AddL(s, n) == [s EXCEPT !.L[n] = s.L[n-1]]                 \* needs the block before it to be right
AddR(s, k) == [s EXCEPT !.R[k] = s.R[k-1]]
Move(s, n) == [Dirty(s, IF n > s.pos THEN s.pos+1..n ELSE n+1..s.pos) EXCEPT !.pos = n]
RECURSIVE AddLs(_, _, _), AddRs(_, _, _)
AddLs(s, a, b) == IF a > b THEN s ELSE AddLs(AddL(s, a), a+1, b)
AddRs(s, a, b) == IF a > b THEN s ELSE AddRs(AddR(s, a), a+1, b)
Goto(s, n) == IF n >= s.pos THEN AddLs(Move(s, n), s.pos+1, n)      \* Container.position
              ELSE AddRs(Move(s, n), N-s.pos+1, N-n)
All == [n \in 0..N |-> TRUE]
OnlyEdge == [n \in 0..N |-> n = 0]

Apply(s, o) ==
  CASE o[1] = "goto" -> Goto(s, o[2])
    [] o[1] = "mv"   -> Move(s, o[2])
    [] o[1] = "u1"   -> Dirty(s, {o[2]})
    [] o[1] = "u2"   -> Dirty(s, {o[2], o[2]+1})
    [] o[1] = "ub"   -> s
    [] o[1] = "L"    -> AddL(s, o[2])
    [] o[1] = "R"    -> AddR(s, o[2])
    [] o[1] = "set"  -> [s EXCEPT !.pos = o[2]]
    [] o[1] = "upd"  -> [pos |-> 0, L |-> OnlyEdge, R |-> All]
    [] o[1] = "init" -> [pos |-> 0, L |-> All, R |-> All]
    [] o[1] = "foreign" -> [Dirty(s, 1..N) EXCEPT !.pos = o[2]]       \* tensors replaced behind the engine's back
Uses(o) == o[1] \in {"u1", "u2", "ub"}
Fresh(s, o) ==
  CASE o[1] = "u1" -> s.L[o[2]-1] /\ s.R[N-o[2]] /\ s.pos \in {o[2]-1, o[2]}
    [] o[1] = "u2" -> s.L[o[2]-1] /\ s.R[N-o[2]-1] /\ s.pos = o[2]
    [] o[1] = "ub" -> s.L[o[2]] /\ s.R[N-o[2]] /\ s.pos = o[2]
    [] OTHER -> TRUE

----------------------------------------------------------------------------
\* programs.  Weights of the time steps are in units of half a step.
Up(a, b, F(_)) == Cat([i \in 1..(IF b < a THEN 0 ELSE b-a+1) |-> F(a+i-1)])
Down(a, b, F(_)) == Cat([i \in 1..(IF a < b THEN 0 ELSE a-b+1) |-> F(a-i+1)])
OneSite == LET F(n) == <<<<"goto", n-1>>, <<"u1", n, 0>>>>
               G(n) == <<<<"goto", n>>, <<"u1", n, 0>>>>
           IN Up(1, N-1, F) \o Down(N, 2, G) \o <<<<"goto", 1>>>>
TwoSite == LET F(n) == <<<<"mv", n>>, <<"u2", n, 0>>, <<"L", n>>>>
               G(n) == <<<<"mv", n>>, <<"u2", n, 0>>, <<"R", N-n>>>>
           IN Up(1, N-2, F) \o Down(N-1, 1, G) \o <<<<"mv", 0>>, <<"R", N-1>>>>
Tdvp == LET F(n) == <<<<"mv", n>>, <<"u1", n, IF n = N THEN 2 ELSE 1>>, <<"L", n>>>> \o (IF n < N THEN <<<<"ub", n, -1>>>> ELSE <<>>)
            G(n) == <<<<"mv", n>>, <<"R", N-n>>, <<"ub", n, -1>>, <<"u1", n, 1>>, <<"set", n-1>>>>
        IN Up(1, N, F) \o Down(N-1, 1, G)
Rep(p, k) == Cat([i \in 1..k |-> p])
Prog(u) ==
  CASE u.op = "pos" -> <<<<"goto", u.n>>>>
    [] u.op = "upd" -> <<<<"upd">>>>
    [] u.op = "trunc" -> <<<<"upd">>>>
    [] u.op = "ss" -> Rep(OneSite, u.k)
    [] u.op = "ts" -> <<<<"goto", 0>>>> \o Rep(TwoSite, u.k)
    [] u.op = "tdvp" -> <<<<"goto", 0>>>> \o Rep(Tdvp, u.k)
    [] u.op = "tebd" -> <<<<"foreign", IF u.k = 0 THEN st.pos ELSE 2*((N-2) \div 2) + 1>>>>
    [] u.op = "init" -> <<<<"init">>>>
    [] u.op = "foreign" -> <<<<"foreign", u.n>>>>
    [] u.op \in {"save", "meas"} -> <<>>
Events(u) == SelectSeq(Prog(u), Uses)

AllOps == LET P == {[op |-> "pos", n |-> n, k |-> 0] : n \in 0..N}
           X(o) == [op |-> o, n |-> 0, k |-> 0]
           K(o) == {[op |-> o, n |-> 0, k |-> k] : k \in 1..2}
       IN IF eng = "dmrg"
          THEN {X("upd"), X("trunc"), X("save"), X("meas")} \cup (IF clean THEN P \cup K("ss") \cup K("ts") ELSE {})
               \cup {[op |-> "foreign", n |-> n, k |-> 0] : n \in 0..N}
          ELSE {X("upd"), X("trunc"), X("save"), X("meas"), X("init")} \cup (IF clean THEN P \cup K("tdvp") ELSE {}) \cup K("tebd")

\* what reads or cuts the state as a chain of its own is left out when it is a window of a longer one
Ops == {u \in AllOps : edge = <<0, 0>> \/ u.op \notin {"trunc", "meas", "tebd"}}

\* which calls a generated history prefers
Pick(w) == LET A == {u \in Ops : u.op \in IF w <= 3 THEN {"ss", "ts", "tdvp", "upd", "init"} ELSE IF w <= 6 THEN {"pos"} ELSE
                                     IF w <= 9 THEN {"meas", "save", "trunc", "upd", "init"} ELSE {"foreign", "tebd"}}
           IN IF A = {} \/ (~clean /\ w > 3) THEN {u \in Ops : u.op \in {"upd", "trunc", "init"}} ELSE A
----------------------------------------------------------------------------
Init == eng = "" /\ N = 0 /\ st = [pos |-> 0, L |-> <<>>, R |-> <<>>] /\ clean = TRUE /\ todo = <<>> /\ usedOk = TRUE
        /\ nuser = 0 /\ path = <<>> /\ ham = <<>> /\ edge = <<0, 0>>
Start == /\ N = 0
         /\ IF Emit THEN \E e \in {RandomElement(IF nuser = 0 THEN Engines ELSE {})} : \E n \in {RandomElement(IF nuser = 0 THEN Ns ELSE {})} : eng' = e /\ N' = n
                    ELSE \E e \in Engines, n \in Ns : eng' = e /\ N' = n
         /\ st' = [pos |-> 0, L |-> [n \in 0..N' |-> TRUE], R |-> [n \in 0..N' |-> TRUE]]
         /\ ham' = IF Emit THEN <<RandomElement(IF nuser = 0 THEN {"XXZ", "TFI", "Spinless"} ELSE {}),
                                  TLCEval([i \in 1..3 |-> TLCEval([j \in 1..N'+4 |-> RandomElement(IF nuser = 0 THEN -3..3 \ {0} ELSE {})])])>>
                   ELSE <<>>
         /\ edge' = IF Emit THEN <<RandomElement(IF nuser = 0 THEN 0..3 ELSE {}) \div 3, Max(0, RandomElement(IF nuser = 0 THEN 0..6 ELSE {}) - 4)>> ELSE <<0, 0>>
         /\ UNCHANGED <<clean, todo, usedOk, nuser, path>>
Call(u) == /\ todo' = Prog(u)
           /\ clean' = IF u.op \in {"upd", "trunc", "init"} THEN TRUE ELSE IF u.op \in {"tebd", "foreign"} THEN FALSE ELSE clean
           /\ nuser' = IF Emit THEN nuser + 1 ELSE nuser
           /\ path' = IF Emit THEN Append(path, [u |-> u, ev |-> Events(u)]) ELSE path
           /\ usedOk' = TRUE
           /\ UNCHANGED <<eng, N, st, ham, edge>>
User == /\ N > 0 /\ todo = <<>> /\ nuser < MaxUser
        /\ IF Emit THEN \E w \in {Rnd(1..10)} : \E u \in {Rnd(Pick(w))} : Call(u) ELSE \E u \in Ops : Call(u)
Step == /\ N > 0 /\ todo # <<>>
        /\ LET o == Head(todo) IN usedOk' = Fresh(st, o) /\ st' = Apply(st, o)
        /\ todo' = Tail(todo)
        /\ path' = IF Emit /\ Len(todo) = 1 THEN [path EXCEPT ![Len(path)] = [u |-> @.u, ev |-> @.ev, pos |-> st'.pos]] ELSE path
        /\ UNCHANGED <<eng, N, clean, nuser, ham, edge>>
Done == /\ Emit /\ nuser = MaxUser /\ todo = <<>>
        /\ PrintT(ToJson([eng |-> eng, N |-> N, ham |-> ham, edge |-> edge, path |-> path]))
        /\ nuser' = nuser + 1 /\ UNCHANGED <<eng, N, st, clean, todo, usedOk, path, ham, edge>>
Next == Start \/ User \/ Step \/ Done
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
UpdatesSeeMatchingBlocks == usedOk
EnvInv == (N > 0 /\ clean /\ todo = <<>>) =>
            /\ \A n \in 0..st.pos : st.L[n]
            /\ \A k \in 0..(IF st.pos = 0 THEN N-1 ELSE N-st.pos) : st.R[k]
\* every sweep visits every site (every bond) as scheduled, and a TDVP step moves each site forward
\* by two half steps and each inner bond backward by two
Count(p, kind, n) == Cardinality({i \in 1..Len(p) : p[i][1] = kind /\ p[i][2] = n})
RECURSIVE SumW(_, _, _)
SumW(p, kind, n) == IF p = <<>> THEN 0 ELSE (IF Head(p)[1] = kind /\ Head(p)[2] = n THEN Head(p)[3] ELSE 0) + SumW(Tail(p), kind, n)
Schedules == N > 1 =>
   /\ \A n \in 1..N : Count(OneSite, "u1", n) >= 1
   /\ \A n \in 1..N-1 : Count(TwoSite, "u2", n) >= 1
   /\ \A n \in 1..N : SumW(Tdvp, "u1", n) = 2
   /\ \A n \in 1..N-1 : SumW(Tdvp, "ub", n) = -2
=============================================================================
