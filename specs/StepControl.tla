----------------------------- MODULE StepControl -----------------------------
(* The step-size controller and the conjugate-gradient weight of the gradient
   engine, as machines over integer gradient norms.
   Step size = base/factor^depth where base is 0 (the initial step) or the index
   of the scheduled step for the current norm.  Every transition reachable in the
   bounds is printed, to be replayed one by one on the functions.              *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Norms, Sched, ItResets, MaxDepth, TolN, TolD, StdeResets, CgResets, Lo, Hi
VARIABLES part, s, old, it
vars == <<part, s, old, it>>
\* Sched: descending gradient norms at which the scheduled steps take over
Target(sched, g) == LET hits == {i \in 1..Len(sched) : g < sched[i]} IN
                    IF hits = {} THEN 0 ELSE CHOOSE i \in hits : \A j \in hits : j <= i
\* old = norm at the last accepted step
Grows(g) == (g - old) * TolD > TolN * g /\ it > 1

Steps == {[depth |-> 0, base |-> 0, per |-> 0, reset |-> r, warm |-> TRUE, every |-> e, sched |-> sc] :
            r \in {TRUE}, e \in ItResets, sc \in {Sched, <<>>}}
StepOut(g) ==
  IF Grows(g)
  THEN [s EXCEPT !.depth = @ + 1, !.per = 0, !.reset = FALSE]
  ELSE LET d == IF s.reset /\ s.depth > 0 THEN s.depth - 1 ELSE s.depth
           t == IF s.reset THEN [s EXCEPT !.depth = d, !.per = 0, !.base = Target(s.sched, g),
                                  !.reset = (d = 0), !.warm = s.warm /\ Target(s.sched, g) = 0]
                ELSE s
       IN IF t.reset THEN t ELSE [t EXCEPT !.per = @ + 1, !.reset = ((t.per + 1) % t.every = 0)]
DoStep ==
  /\ part = "step"
  /\ \E g \in Norms :
     LET o == StepOut(g) IN
     /\ o.depth <= MaxDepth
     /\ s' = o /\ old' = IF Grows(g) THEN old ELSE g
     /\ it' = 2
     /\ PrintT(ToJson([part |-> "step", g |-> g, old |-> old, it |-> it, i |-> s, o |-> o, rej |-> Grows(g), tol |-> <<TolN, TolD>>]))
  /\ UNCHANGED part

\* conjugate gradient: std = steepest-descent steps done since the restart,
\* cg = conjugate steps done, restarting = still in the steepest-descent phase
Cgs == {[std |-> 0, cg |-> 0, restarting |-> r, stdN |-> a, cgN |-> b, win |-> w] :
          r \in {TRUE, FALSE}, a \in StdeResets, b \in CgResets, w \in {TRUE, FALSE}}
Inside(g) == s.win /\ Lo < g /\ g < Hi
CgOut(g) ==
  IF ~Inside(g) THEN [st |-> s, on |-> FALSE]
  ELSE LET zero == it = 1 \/ g > old
           \* is a conjugate step allowed by the restart phase?
           wait == ~zero /\ s.restarting /\ s.std < s.stdN
           on0 == ~zero /\ ~wait
           s1 == IF zero THEN [s EXCEPT !.std = @ + 1, !.restarting = TRUE]
                 ELSE IF wait THEN [s EXCEPT !.std = @ + 1]
                 ELSE IF s.restarting THEN [s EXCEPT !.std = 0, !.restarting = FALSE] ELSE s
           due == s.cg = s.cgN
           s2 == IF due THEN [s1 EXCEPT !.cg = 0, !.std = 0, !.restarting = TRUE] ELSE s1
           on == on0 /\ ~due
       IN [st |-> [s2 EXCEPT !.cg = IF on THEN @ + 1 ELSE 0], on |-> on]
DoCg ==
  /\ part = "cg"
  /\ \E g \in Norms :
     LET o == CgOut(g) IN
     /\ o.st.std <= 6 /\ s' = o.st /\ old' = g /\ it' = 2
     /\ PrintT(ToJson([part |-> "cg", g |-> g, old |-> old, it |-> it, i |-> s, o |-> o.st, on |-> o.on, lo |-> Lo, hi |-> Hi, tol |-> <<TolN, TolD>>]))
  /\ UNCHANGED part
Init == /\ it = 1 /\ old = 3
        /\ \/ part = "step" /\ s \in Steps
           \/ part = "cg" /\ s \in Cgs
Next == DoStep \/ DoCg
Spec == Init /\ [][Next]_vars
StepOK == part = "step" => /\ s.depth >= 0 /\ s.per <= s.every
                           /\ (s.reset => s.per % s.every = 0)
                           /\ (s.depth > 0 /\ s.reset => s.per = s.every)   \* a level is restored only after a full round
CgOK == part = "cg" => s.cg <= s.cgN
DepthMoves == [][part = "step" => (s'.depth \in {s.depth - 1, s.depth, s.depth + 1})]_vars
=============================================================================
