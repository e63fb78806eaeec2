----------------------------- MODULE Rendezvous ------------------------------
(* What the panel barrier promises: N participants pass K phases; nobody      *)
(* leaves a phase before everybody has entered it.                            *)
EXTENDS Integers, FiniteSets
CONSTANTS N, K
VARIABLES entered, left          \* number of phases each participant has entered / left
CanEnter(t, k) == entered[t] = left[t] /\ entered[t] < k
CanLeave(t) == left[t] < entered[t] /\ \A u \in DOMAIN entered : entered[u] >= entered[t]
DoEnter(t) == entered' = [entered EXCEPT ![t] = @ + 1] /\ UNCHANGED left
DoLeave(t) == left' = [left EXCEPT ![t] = @ + 1] /\ UNCHANGED entered
Zero(n) == entered = [t \in 1..n |-> 0] /\ left = [t \in 1..n |-> 0]
Enter(t) == CanEnter(t, K) /\ DoEnter(t)
Leave(t) == CanLeave(t) /\ DoLeave(t)
RInit == Zero(N)
RNext == \E t \in 1..N : Enter(t) \/ Leave(t)
RSpec == RInit /\ [][RNext]_<<entered, left>>
=============================================================================
