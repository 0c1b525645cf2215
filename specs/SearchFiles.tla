----------------------------- MODULE SearchFiles -----------------------------
(* Checkpoints of the finite ground-state search.  The state is the word of the
   sweeps that led to it ("1": one-site, "2": two-site).  A call runs up to nmax
   sweeps, replaces the one checkpoint file after every cp-th of them, and may
   stop after its first sweep (loose) when told that any energy will do.  A crash
   loses everything but the file; a new engine starts from the file, or from
   the beginning if there is none.                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxCalls, MaxSweeps, MaxCp, Emit
VARIABLES N, word, file, prog, last, alive, ncalls, path, ham
vars == <<N, word, file, prog, last, alive, ncalls, path, ham>>
Rnd(S) == IF N = 0 THEN CHOOSE x \in S : TRUE ELSE RandomElement(S)
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
NoFile == <<"none">>
Calls == [kind : {"1", "2"}, nmax : 1..MaxSweeps, cp : 0..MaxCp, loose : BOOLEAN]
Sweeps(u) == IF u.loose THEN 1 ELSE u.nmax
Prog(u) == Cat([s \in 1..Sweeps(u) |-> <<u.kind>> \o (IF u.cp > 0 /\ s % u.cp = 0 THEN <<"save">> ELSE <<>>)])

Init == N = 0 /\ word = <<>> /\ file = NoFile /\ prog = [todo |-> <<>>] /\ last = <<>> /\ alive = TRUE /\ ncalls = 0 /\ path = <<>> /\ ham = <<>>
Start == /\ N = 0 /\ N' = (IF Emit THEN RandomElement(IF ncalls = 0 THEN 3..6 ELSE {}) ELSE 3)
         /\ ham' = IF Emit THEN <<RandomElement(IF ncalls = 0 THEN {"XXZ", "TFI", "Spinless"} ELSE {}),
                                  TLCEval([i \in 1..3 |-> TLCEval([j \in 1..N' |-> RandomElement(IF ncalls = 0 THEN -3..3 \ {0} ELSE {})])])>>
                   ELSE <<>>
         /\ UNCHANGED <<word, file, prog, last, alive, ncalls, path>>
Idle == prog.todo = <<>>
Log(op) == path' = IF Emit THEN Append(path, op) ELSE path
Ran(u, c, sw, w, f) == [op |-> "run", u |-> u, crash |-> c, done |-> sw, word |-> w, file |-> f]
Call(u) == prog' = [todo |-> Prog(u), u |-> u, done |-> 0] /\ last' = word
Begin == /\ N > 0 /\ alive /\ Idle /\ ncalls < MaxCalls /\ ncalls' = ncalls + 1
         /\ IF Emit THEN \E u \in {Rnd(Calls)} : Call(u) ELSE \E u \in Calls : Call(u)
         /\ UNCHANGED <<N, word, file, alive, path, ham>>
Micro == /\ alive /\ ~Idle
         /\ LET o == Head(prog.todo) IN
            /\ word' = IF o = "save" THEN word ELSE Append(word, o)
            /\ file' = IF o = "save" THEN word ELSE file
            /\ prog' = [prog EXCEPT !.todo = Tail(@), !.done = @ + (IF o = "save" THEN 0 ELSE 1)]
         /\ UNCHANGED <<N, last, alive, ncalls, ham>>
         /\ IF Len(prog.todo) = 1 THEN Log(Ran(prog.u, "no", prog'.done, word', file')) ELSE UNCHANGED path
Crash == /\ alive /\ ~Idle /\ (Emit => Rnd(1..8) = 1)
         /\ alive' = FALSE /\ word' = <<>> /\ prog' = [todo |-> <<>>] /\ UNCHANGED <<N, file, last, ncalls, ham>>
         /\ Log(Ran(prog.u, Head(prog.todo), prog.done, <<>>, file))
Resume == /\ N > 0 /\ Idle /\ (~alive \/ (Emit => Rnd(1..5) = 1)) /\ ncalls < MaxCalls /\ ncalls' = ncalls + 1
          /\ alive' = TRUE /\ word' = (IF file = NoFile THEN <<>> ELSE file) /\ UNCHANGED <<N, file, prog, last, ham>>
          /\ Log([op |-> IF file = NoFile THEN "fresh" ELSE "load", word |-> word', file |-> file])
Done == /\ Emit /\ N > 0 /\ ncalls = MaxCalls /\ Idle
        /\ PrintT(ToJson([N |-> N, ham |-> ham, path |-> path]))
        /\ ncalls' = ncalls + 1 /\ UNCHANGED <<N, word, file, prog, last, alive, path, ham>>
Next == Start \/ Begin \/ Micro \/ Crash \/ Resume \/ Done
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
\* the file always holds the state after a whole number of sweeps
Prefix(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, 1, Len(a))
\* while a call runs, the file is the one it found, or the state after its last cp-th sweep
LatestOfCall == (alive /\ ~Idle /\ prog.u.cp > 0 /\ prog.done >= prog.u.cp /\ Head(prog.todo) # "save") =>
                   /\ Prefix(file, word) /\ Len(word) - Len(file) = prog.done % prog.u.cp
\* a crash never costs more than cp sweeps of the call that was running
BoundedLoss == (alive /\ ~Idle /\ prog.u.cp > 0 /\ file # NoFile /\ prog.done > prog.u.cp) => Len(word) - Len(file) <= prog.u.cp
=============================================================================
