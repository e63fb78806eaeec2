------------------------------ MODULE Barrier --------------------------------
(* The counter/phase barrier of control/barrier.c at the granularity of its   *)
(* memory accesses.  It refines Rendezvous, and under weak fairness every     *)
(* participant passes all K phases (checked by TLC).                          *)
(*                                                                            *)
(* Sim = TRUE: the behaviours are printed as sequences of participants; the   *)
(* real barrier is run with exactly these preemptions.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, K, Sim
VARIABLES pc, old, tmp, count, passed, entered, left, hist
vars == <<pc, old, tmp, count, passed, entered, left, hist>>
R == INSTANCE Rendezvous
T == 1..N

Init == /\ pc = [t \in T |-> "idle"] /\ old = [t \in T |-> 0] /\ tmp = [t \in T |-> 0]
        /\ count = 0 /\ passed = 0
        /\ R!RInit /\ hist = <<>>
H(t) == hist' = IF Sim THEN Append(hist, t) ELSE hist
Start(t) == /\ pc[t] = "idle" /\ left[t] < K
            /\ R!Enter(t)
            /\ pc' = [pc EXCEPT ![t] = "read"]
            /\ UNCHANGED <<old, tmp, count, passed, hist>>
Read(t) == /\ pc[t] = "read" /\ old' = [old EXCEPT ![t] = passed] /\ pc' = [pc EXCEPT ![t] = "add"]
           /\ H(t) /\ UNCHANGED <<tmp, count, passed, entered, left>>
Add(t) == /\ pc[t] = "add" /\ count' = count + 1 /\ pc' = [pc EXCEPT ![t] = "cas"]
          /\ H(t) /\ UNCHANGED <<old, tmp, passed, entered, left>>
Cas(t) == /\ pc[t] = "cas"
          /\ IF count = N THEN count' = 0 /\ pc' = [pc EXCEPT ![t] = "inc1"]
             ELSE count' = count /\ pc' = [pc EXCEPT ![t] = "spin"]
          /\ H(t) /\ UNCHANGED <<old, tmp, passed, entered, left>>
Inc1(t) == /\ pc[t] = "inc1" /\ tmp' = [tmp EXCEPT ![t] = passed] /\ pc' = [pc EXCEPT ![t] = "inc2"]
           /\ H(t) /\ UNCHANGED <<old, count, passed, entered, left>>
Inc2(t) == /\ pc[t] = "inc2" /\ passed' = tmp[t] + 1 /\ pc' = [pc EXCEPT ![t] = "out"]
           /\ H(t) /\ UNCHANGED <<old, tmp, count, entered, left>>
Spin(t) == /\ pc[t] = "spin" /\ passed # old[t] /\ pc' = [pc EXCEPT ![t] = "out"]
           /\ H(t) /\ UNCHANGED <<old, tmp, count, passed, entered, left>>
Out(t) == /\ pc[t] = "out" /\ pc' = [pc EXCEPT ![t] = "idle"]
          /\ left' = [left EXCEPT ![t] = @ + 1] /\ UNCHANGED <<old, tmp, count, passed, entered, hist>>
Step(t) == Start(t) \/ Read(t) \/ Add(t) \/ Cas(t) \/ Inc1(t) \/ Inc2(t) \/ Spin(t) \/ Out(t)
Fin == /\ Sim /\ \A t \in T : left[t] = K /\ pc[t] = "idle"
       /\ PrintT(<<"SCHED", N, K, hist>>)
       /\ pc' = [t \in T |-> "end"] /\ UNCHANGED <<old, tmp, count, passed, entered, left, hist>>
Next == (\E t \in T : Step(t)) \/ Fin
Spec == Init /\ [][Next]_vars /\ \A t \in T : WF_vars(Step(t))

Refines == R!RSpec
NobodyStuck == <>(\A t \in T : left[t] = K)
Bounds == count \in 0..N /\ passed \in 0..K
=============================================================================
