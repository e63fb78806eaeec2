------------------------------ MODULE BulgeTrace ------------------------------
(* Recorded executions of the real reduction: every step of BulgeSteps is     *)
(* executed exactly once with the block it belongs to, and after the steps it *)
(* conflicts with, in the happens-before order of OmpTrace (whatever means of *)
(* synchronisation established it).                                           *)
EXTENDS OmpTrace, BulgeSteps
VARIABLE taken
bvars == <<pi, l, K, st, par, kids, pred, grp, gown, dep, rel, bar, team, taken>>
Say(ok, what, x) == IF ok THEN TRUE ELSE PrintT(<<"REJECT", P.id, l, what, x>>)
same == UNCHANGED <<st, par, kids, pred, grp, gown, dep, rel, bar, team>>
\* <<"step", task, kind, st, ed, sweep>> (numbers as passed to the kernel: zero-based), <<"touch", task, steps with conflicting accesses>>
TheStep ==
  LET s == E[6] + 1
      j == E[4] + 1 - s - 1
      k == IF E[3] = 1 THEN 1 ELSE IF E[3] = 2 THEN 2 * (j \div P.nb) + 2 ELSE 2 * (j \div P.nb) + 1
      c == Code(s, k)
      known == E[6] >= 0 /\ j >= 0 /\ c \in StepsOf(P.n, P.nb)
      fits == known /\ BSt(P.nb, s, k) = E[4] + 1 /\ BEd(P.n, P.nb, s, k) = E[5] + 1
      late == IF fits THEN Before(P.n, P.nb, P.w, c) \ K[E[2]] ELSE {}
  IN /\ Say(fits, "STEP", <<E[3], E[4], E[5], E[6]>>)
     /\ Say(c \notin taken, "TWICE", c)
     /\ Say(late = {}, "ORDER", <<c, IF late = {} THEN 0 ELSE CHOOSE x \in late : \A y \in late : x <= y>>)
     /\ taken' = taken \cup {c}
     /\ K' = [K EXCEPT ![E[2]] = @ \cup {c}]
     /\ same
Touch ==
  LET bad == {E[3][i] : i \in 1..Len(E[3])} \ K[E[2]]
  IN /\ Say(bad = {}, "RACE", bad)
     /\ taken' = taken /\ K' = K
     /\ same
End ==
  LET miss == Required(P.n, P.nb) \ taken
  IN /\ Say(miss = {}, "MISSING", IF miss = {} THEN 0 ELSE CHOOSE x \in miss : \A y \in miss : x <= y)
     /\ taken' = {} /\ K' = K
     /\ same
BInit == Init /\ taken = {}
BNext == \/ /\ l <= Len(P.ev) /\ E[1] \in {"step", "touch", "end"}
            /\ CASE E[1] = "step" -> TheStep [] E[1] = "touch" -> Touch [] E[1] = "end" -> End
            /\ l' = l + 1 /\ UNCHANGED pi
         \/ /\ l <= Len(P.ev) /\ E[1] \notin {"step", "touch", "end"}
            /\ Next /\ UNCHANGED taken
Spec2 == BInit /\ [][BNext]_bvars
=============================================================================
