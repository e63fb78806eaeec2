---------------------------- MODULE BarrierTrace -----------------------------
(* Observed runs of the real barrier: sequences of <<participant, 0|1>>       *)
(* (entered / left a phase) must be complete behaviours of Rendezvous.        *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
Progs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES pi, l, entered, left
P == Progs[pi]
R == INSTANCE Rendezvous WITH N <- 1, K <- 1
Init == /\ pi \in 1..Len(Progs) /\ l = 1 /\ R!Zero(Progs[pi].n)
Can(e) == IF e[2] = 0 THEN R!CanEnter(e[1], P.k) ELSE R!CanLeave(e[1])
Step == /\ l <= Len(P.ev)
        /\ IF Can(P.ev[l]) THEN TRUE ELSE PrintT(<<"REJECT", P.id, l, "left early">>)
        /\ IF P.ev[l][2] = 0 THEN R!DoEnter(P.ev[l][1]) ELSE R!DoLeave(P.ev[l][1])
        /\ l' = l + 1 /\ UNCHANGED pi
Fin == /\ l = Len(P.ev) + 1
       /\ IF \A t \in 1..P.n : left[t] = P.k THEN TRUE ELSE PrintT(<<"REJECT", P.id, l, "did not pass all phases">>)
       /\ l' = l + 1 /\ UNCHANGED <<pi, entered, left>>
Next == Step \/ Fin
Spec == Init /\ [][Next]_<<pi, l, entered, left>>
=============================================================================
