------------------------------ MODULE SearchTrace ------------------------------
(* Monitor for recorded ground-state searches.  Energies are integers (1e6 times).
   Every recorded event must be a legal next step of the abstract search: sites in
   the order of the sweep, local energies that only fall, never below the exact
   ground-state energy, a sweep count decided by the stopping rule, and a result
   that is the energy of the state left behind.                                *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, hd, k, last, ends, bad
vars == <<i, hd, k, last, ends, bad>>
NONE == 2000000001
Abs(x) == IF x < 0 THEN -x ELSE x

PerSweep == IF hd.kind = "ss" THEN 2*(hd.N-1) ELSE 2*hd.N-3
Site == LET j == k % PerSweep IN
        IF hd.kind = "ss" THEN IF j < hd.N-1 THEN j+1 ELSE hd.N - (j-(hd.N-1))
        ELSE IF j < hd.N-2 THEN j+1 ELSE hd.N-1 - (j-(hd.N-2))
\* must the search have stopped after the last recorded sweep?  "maybe" within rounding of the threshold
Delta == IF Len(ends) < 2 THEN NONE ELSE Abs(ends[Len(ends)] - ends[Len(ends)-1])
Converged == Delta + 1 < hd.econv
MayConverge == Delta - 1 <= hd.econv

WhyUpd(e) ==
  CASE e.kind # (IF hd.kind = "ss" THEN "u1" ELSE "u2") -> "kind"
    [] ~\E x \in 1..Len(e.cand) : e.cand[x] = Site -> "site"
    [] ~\E x \in 1..Len(e.fresh) : e.fresh[x] = Site -> "stale-environment"
    [] k > 0 /\ k % PerSweep = 0 /\ (Len(ends) >= hd.nmax \/ Converged) -> "sweeps-beyond-stop"
    [] e.e > e.before + hd.tol -> "raises-local-energy"
    [] e.e < hd.e0 - hd.tol -> "below-exact"
    [] hd.notrunc /\ last # NONE /\ Abs(e.before - last) > hd.tol -> "starts-elsewhere"
    [] hd.notrunc /\ last # NONE /\ e.e > last + hd.tol -> "rises"
    [] OTHER -> ""
WhyEnd(e) ==
  CASE hd.events /\ k % PerSweep # 0 -> "incomplete-sweep"
    [] hd.events /\ Len(ends) = 0 -> "no-sweep"
    [] hd.events /\ Len(ends) < hd.nmax /\ ~MayConverge -> "stops-early"
    [] hd.events /\ Abs(e.e - last) > hd.tol -> "reported-is-not-last"
    [] hd.notrunc /\ Abs(e.e - e.energy) > hd.tol -> "reported-is-not-state"
    [] e.energy < hd.e0 - hd.tol -> "state-below-exact"
    [] e.e < hd.e0 - hd.tol -> "reported-below-exact"
    [] hd.exact /\ Abs(e.e - hd.e0) > hd.xtol -> "not-exact"
    [] Abs(e.norm - 1000000) > 2 -> "norm"
    [] e.maxd > hd.dlim -> "bond-dimension"
    [] OTHER -> ""

Init == i = 0 /\ hd = [t |-> "none"] /\ k = 0 /\ last = NONE /\ ends = <<>> /\ bad = FALSE
Say(why) == PrintT(ToJson([bad |-> TRUE, at |-> i+1, run |-> hd.run, why |-> why, k |-> k]))
Next ==
  /\ i < Len(Trace) /\ i' = i + 1
  /\ LET e == Trace[i+1] IN
     CASE e.t = "run" -> hd' = e /\ k' = 0 /\ ends' = <<>> /\ last' = (IF e.cont /\ ~bad THEN last ELSE NONE) /\ bad' = FALSE
       [] e.t = "upd" -> /\ UNCHANGED hd
                         /\ LET w == IF bad THEN "" ELSE WhyUpd(e) IN
                            /\ (w # "" => Say(w)) /\ bad' = (bad \/ w # "")
                            /\ k' = k + 1 /\ last' = e.e
                            /\ ends' = IF (k+1) % PerSweep = 0 THEN Append(ends, e.e) ELSE ends
       [] e.t = "end" -> /\ UNCHANGED <<hd, k, ends>>
                         /\ last' = IF hd.notrunc THEN e.energy ELSE NONE
                         /\ LET w == IF bad THEN "" ELSE WhyEnd(e) IN (w # "" => Say(w)) /\ bad' = (bad \/ w # "")
  /\ (i' = Len(Trace) => PrintT(ToJson([done |-> i'])))
Spec == Init /\ [][Next]_vars
=============================================================================
