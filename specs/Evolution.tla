------------------------------ MODULE Evolution ------------------------------
(* A time-evolution engine as a clock with a word of elementary evolutions:
   <<"E",x,y>>, <<"O",x,y>>: gates on the even / odd bonds for x+iy half steps,
   <<"T",x,y>>: variational (TDVP) evolution.  A call steps forwards ("f"), backwards
   ("b"), or with the step rotated from real to imaginary time or back ("r").  Calls run several steps with optional
   checkpoints; a call can be cut short by a crash at any micro-operation, after
   which only the files survive and a fresh engine resumes from one of them.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxCalls, MaxSteps, MaxCp, Emit, Modes, Faults, Dirs
VARIABLES N, it, clk, base, word, hist, disk, prog, mine, alive, ncalls, path, ham
vars == <<N, it, clk, base, word, hist, disk, prog, mine, alive, ncalls, path, ham>>
Rnd(S) == IF N = 0 THEN CHOOSE x \in S : TRUE ELSE RandomElement(S)
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))

\* merging neighbouring evolutions of the same bonds
RECURSIVE Canon(_)
Canon(w) == IF Len(w) < 2 THEN w
            ELSE LET r == Canon(Tail(w)) IN
                 IF r # <<>> /\ w[1][1] = r[1][1] /\ w[1][1] # "T"
                 THEN IF w[1][2] + r[1][2] = 0 /\ w[1][3] + r[1][3] = 0 THEN Tail(r)
                      ELSE <<<<w[1][1], w[1][2] + r[1][2], w[1][3] + r[1][3]>>>> \o Tail(r)
                 ELSE <<w[1]>> \o r
X(d, h) == CASE d = "f" -> h [] d = "b" -> -h [] OTHER -> 0
Y(d, h) == IF d = "r" THEN h ELSE 0
Lay(k, d, h) == <<k, X(d, h), Y(d, h)>>
\* what a list of steps amounts to, however it was cut into calls
Ideal(h) == Canon(Cat([i \in 1..Len(h) |-> IF h[i][1] = "tdvp" THEN <<Lay("T", h[i][2], 2)>>
                                              ELSE <<Lay("E", h[i][2], 1), Lay("O", h[i][2], 2), Lay("E", h[i][2], 1)>>]))

\* the program of a call: u = [m, steps, cp, keep, d]
Saves(u, s) == u.cp > 0 /\ (it + s) % u.cp = 0
Save(u) == <<<<"save", 0>>>> \o (IF u.keep THEN <<>> ELSE <<<<"rm", 0>>>>)
TebdStep(u, s) == <<Lay("O", u.d, 2), <<"tick", 0>>>> \o
   (IF Saves(u, s) THEN <<Lay("E", u.d, 1)>> \o Save(u) \o (IF s < u.steps THEN <<Lay("E", u.d, 1)>> ELSE <<>>)
    ELSE <<Lay("E", u.d, IF s < u.steps THEN 2 ELSE 1)>>)
TdvpStep(u, s) == <<Lay("T", u.d, 2), <<"tick", 1>>>> \o (IF Saves(u, s) THEN Save(u) ELSE <<>>)
Prog(u) == IF u.m = "tebd"
           THEN (IF u.steps > 0 THEN <<Lay("E", u.d, 1)>> ELSE <<>>) \o Cat([s \in 1..u.steps |-> TebdStep(u, s)])
           ELSE Cat([s \in 1..u.steps |-> TdvpStep(u, s)])
Calls == [m : Modes, steps : 0..MaxSteps, cp : 0..MaxCp, keep : BOOLEAN, d : Dirs]

Init == N = 0 /\ it = 0 /\ clk = <<0, 0>> /\ base = 0 /\ word = <<>> /\ hist = <<>> /\ disk = {} /\ prog = [m |-> "", todo |-> <<>>] /\ mine = <<>> /\ alive = TRUE
        /\ ncalls = 0 /\ path = <<>> /\ ham = <<>>
Start == /\ N = 0 /\ N' = (IF Emit THEN RandomElement(IF ncalls = 0 THEN 2..5 ELSE {}) ELSE 3)
         /\ ham' = IF Emit THEN <<RandomElement(IF ncalls = 0 THEN {"XXZ", "TFI", "Spinless"} ELSE {}),
                                  TLCEval([i \in 1..3 |-> TLCEval([j \in 1..N' |-> RandomElement(IF ncalls = 0 THEN -3..3 \ {0} ELSE {})])])>>
                   ELSE <<>>
         /\ UNCHANGED <<it, clk, base, word, hist, disk, prog, mine, alive, ncalls, path>>
Idle == prog.todo = <<>>
Files == {<<f.m, f.k>> : f \in disk}
Log(op) == path' = IF Emit THEN Append(path, op) ELSE path
Ran(u, c, sv, ly, i2, c2, w2, d2) == [clk |-> c2, op |-> "run", u |-> u, crash |-> c, saves |-> sv, layers |-> ly, it |-> i2, base |-> base, word |-> w2, files |-> {<<g.m, g.k>> : g \in d2}]
Call(u) == /\ prog' = [m |-> u.m, todo |-> Prog(u), u |-> u, saves |-> 0, layers |-> 0] /\ mine' = <<>>
           /\ UNCHANGED <<N, it, clk, base, word, hist, disk, alive, ham>>
           /\ Log(IF u.steps = 0 THEN Ran(u, "no", 0, 0, it, clk, word, disk) ELSE <<>>)
Begin == /\ N > 0 /\ alive /\ Idle /\ ncalls < MaxCalls /\ ncalls' = ncalls + 1
         /\ IF Emit THEN \E u \in {Rnd(Calls)} : Call(u) ELSE \E u \in Calls : Call(u)
Micro == /\ alive /\ ~Idle
         /\ LET o == Head(prog.todo)
                f == [m |-> prog.m, k |-> it, it |-> it, c |-> clk, b |-> base, w |-> word, h |-> hist] IN
            /\ word' = IF o[1] \in {"E", "O", "T"} THEN Append(word, o) ELSE word
            /\ it' = IF o[1] = "tick" THEN it + 1 ELSE it
            /\ clk' = IF o[1] # "tick" THEN clk ELSE IF prog.u.d = "r" THEN <<clk[1], clk[2] + 1>> ELSE <<clk[1] + 1, clk[2]>>
            /\ hist' = IF o[1] = "tick" THEN Append(hist, <<prog.m, prog.u.d>>) ELSE hist
            /\ mine' = IF o[1] = "save" THEN Append(mine, it) ELSE mine
            /\ disk' = CASE o[1] = "save" -> {g \in disk : g.m # f.m \/ g.k # f.k} \cup {f}
                         [] o[1] = "rm" /\ Len(mine) > 1 -> {g \in disk : g.m # prog.m \/ g.k # mine[Len(mine)-1]}
                         [] OTHER -> disk
            /\ prog' = [prog EXCEPT !.todo = Tail(@), !.saves = @ + (IF o[1] = "save" THEN 1 ELSE 0),
                                    !.layers = @ + (IF o[1] \in {"E", "O", "T"} THEN 1 ELSE 0)]
         /\ UNCHANGED <<N, base, alive, ncalls, ham>>
         /\ Log(IF Len(prog.todo) = 1 THEN Ran(prog.u, "no", 0, 0, it', clk', word', disk') ELSE <<>>)
Crash == /\ Faults /\ alive /\ ~Idle /\ (Emit => Rnd(1..12) = 1)
         /\ alive' = FALSE /\ it' = 0 /\ clk' = <<0, 0>> /\ base' = 0 /\ word' = <<>> /\ hist' = <<>> /\ mine' = <<>>
         /\ prog' = [m |-> "", todo |-> <<>>]
         /\ UNCHANGED <<N, disk, ncalls, ham>>
         /\ Log(Ran(prog.u, Head(prog.todo)[1], prog.saves, prog.layers, 0, <<0, 0>>, <<>>, disk))
Load(f) == /\ alive' = TRUE /\ it' = f.it /\ clk' = f.c /\ base' = f.b /\ word' = f.w /\ hist' = f.h
           /\ UNCHANGED <<N, disk, prog, mine, ham>>
           /\ Log([op |-> "load", m |-> f.m, k |-> f.k, it |-> f.it, clk |-> f.c, base |-> f.b, word |-> f.w, files |-> Files])
Resume == /\ Faults /\ N > 0 /\ Idle /\ disk # {} /\ (~alive \/ (Emit => Rnd(1..4) = 1)) /\ ncalls < MaxCalls /\ ncalls' = ncalls + 1
          /\ IF Emit THEN \E f \in {Rnd(disk)} : Load(f) ELSE \E f \in disk : Load(f)
Fresh == \* nothing was saved before the crash: start over
         /\ N > 0 /\ ~alive /\ disk = {} /\ ncalls < MaxCalls /\ ncalls' = ncalls + 1
         /\ alive' = TRUE /\ UNCHANGED <<N, it, clk, base, word, hist, disk, prog, mine, ham>>
         /\ Log([op |-> "fresh", it |-> 0, clk |-> <<0, 0>>, base |-> 0, word |-> <<>>, files |-> Files])
Reset == /\ N > 0 /\ alive /\ Idle /\ it > 0 /\ (Emit => Rnd(1..4) = 1) /\ ncalls < MaxCalls /\ ncalls' = ncalls + 1
         /\ it' = 0 /\ clk' = <<0, 0>> /\ base' = Len(word) /\ UNCHANGED <<N, word, hist, disk, prog, mine, alive, ham>>
         /\ Log([op |-> "reset", it |-> 0, clk |-> <<0, 0>>, base |-> Len(word), word |-> word, files |-> Files])
Done == /\ Emit /\ N > 0 /\ ncalls = MaxCalls /\ Idle
        /\ PrintT(ToJson([N |-> N, ham |-> ham, path |-> SelectSeq(path, LAMBDA x : x # <<>>)]))
        /\ ncalls' = ncalls + 1 /\ UNCHANGED <<N, it, clk, base, word, hist, disk, prog, mine, alive, path, ham>>
Next == Start \/ Begin \/ Micro \/ Crash \/ Resume \/ Fresh \/ Reset \/ Done
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
ElapsedTime == (Idle /\ alive) => Canon(word) = Ideal(hist)
\* the clock counts what has been evolved, in either direction
ClockCounts == clk[1] + clk[2] = it
CompleteSnapshots == \A f \in disk : f.it = f.k /\ f.c[1] + f.c[2] = f.it /\ Canon(f.w) = Ideal(f.h)
\* once a call has written a checkpoint, a complete one of it is on disk at every moment
NeverWithout == (alive /\ mine # <<>>) => \E f \in disk : f.m = prog.m /\ f.k = mine[Len(mine)]
OnlyLatest == (alive /\ Idle /\ mine # <<>> /\ ~prog.u.keep) =>
                 \A j \in 1..Len(mine)-1 : ~\E f \in disk : f.m = prog.m /\ f.k = mine[j]
EveryKth == (alive /\ ~Idle /\ Head(prog.todo)[1] = "rm") => it % prog.u.cp = 0
=============================================================================
