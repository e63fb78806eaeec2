------------------------------- MODULE Refine ---------------------------------
(* A mixed-precision solve.  The low-precision path converts the matrix and   *)
(* the right-hand side, factors, solves, and refines the solution with        *)
(* working-precision residuals until the stopping test holds for every        *)
(* right-hand side.  Anything that makes this path unusable leads to the      *)
(* working-precision factorisation and solve, which is reported.              *)
(*                                                                            *)
(* Gen = TRUE: every outcome of every step is possible.                       *)
(* Gen = FALSE: the outcomes are those of the steps of a recorded call (same  *)
(* operations, one public call each, in the same tiles), and the result has   *)
(* to be one the machine can reach.  Residuals are given as                   *)
(* 1000*Rnorm/(Xnorm*Anorm*sqrt(n)*eps) for each right-hand side, -1 for NaN; *)
(* a value close to 1000 may be judged either way.                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Gen, ItMax, Lo, Hi
Progs == IF Gen THEN <<[id |-> "gen"]>> ELSE ndJsonDeserialize(IOEnv.TRACE)
VARIABLES pi, pc, k, x, iter, status, good
vars == <<pi, pc, k, x, iter, status, good>>

F == Progs[pi]
Judge(rs) ==
  CASE \E j \in 1..Len(rs) : rs[j] < 0 \/ rs[j] > Hi -> {FALSE}
    [] \A j \in 1..Len(rs) : rs[j] >= 0 /\ rs[j] <= Lo -> {TRUE}
    [] OTHER -> BOOLEAN
Converts  == IF Gen THEN BOOLEAN ELSE {F.fits}
Factors   == IF Gen THEN BOOLEAN ELSE {F.low = 0}
Meets     == IF Gen THEN BOOLEAN ELSE IF k + 1 <= Len(F.ratio) THEN Judge(F.ratio[k + 1]) ELSE {}
Fits      == IF Gen THEN BOOLEAN ELSE IF k + 1 <= Len(F.back) THEN {F.back[k + 1]} ELSE {}
Directs   == IF Gen THEN {0, 1} ELSE {F.direct}

Init == /\ pi \in 1..Len(Progs)
        /\ pc = "convert" /\ k = 0 /\ x = "none" /\ iter = 0 /\ status = 0
        /\ good = FALSE                       \* the stopping test held for the present x
Convert == /\ pc = "convert"
           /\ \E ok \in Converts : pc' = (IF ok THEN "factor" ELSE "direct")
           /\ UNCHANGED <<pi, k, x, iter, status, good>>
Factor == /\ pc = "factor"
          /\ \E ok \in Factors : pc' = (IF ok THEN "test" ELSE "direct") /\ x' = (IF ok THEN "low" ELSE x)
          /\ UNCHANGED <<pi, k, iter, status, good>>
Test == /\ pc = "test"
        /\ \E m \in Meets : /\ good' = m
                            /\ pc' = (IF m THEN "done" ELSE IF k = ItMax THEN "direct" ELSE "refine")
                            /\ iter' = (IF m THEN k ELSE iter)
        /\ UNCHANGED <<pi, k, x, status>>
Correct == /\ pc = "refine"
           /\ \E ok \in Fits : IF ok THEN pc' = "test" /\ k' = k + 1 ELSE pc' = "direct" /\ k' = k
           /\ UNCHANGED <<pi, x, iter, status, good>>
Direct == /\ pc = "direct"
          /\ \E s \in Directs : status' = s /\ x' = (IF s = 0 THEN "direct" ELSE "none")
          /\ iter' = 0 - (ItMax + 1) /\ pc' = "done" /\ UNCHANGED <<pi, k, good>>

---------------------------------------------------------------------------
(* the recorded call *)
Root(n) == CHOOSE r \in 0..n : r * r <= n /\ (r + 1) * (r + 1) > n
\* the computed residual differs from the true one by the rounding of the product
Slack(n) == 1000 + (4000 * (n + 2)) \div Root(n)
Matches ==
  /\ F.iter = iter /\ F.status = status
  /\ F.bsame /\ F.asame
  /\ x = "direct" => F.same
  /\ x = "low" => \A j \in 1..Len(F.true) : F.true[j] >= 0 /\ F.true[j] <= Slack(F.n)
Compare == /\ ~Gen /\ pc = "done"
           /\ IF Matches THEN PrintT(<<"ACCEPT", F.id>>) ELSE PrintT(<<"DIFF", F.id, iter, status, x>>)
           /\ pc' = "end" /\ UNCHANGED <<pi, k, x, iter, status, good>>

Next == Convert \/ Factor \/ Test \/ Correct \/ Direct \/ Compare
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
---------------------------------------------------------------------------
Ends == <>(pc = "done")
IterInv == iter \in 0..ItMax \cup {0 - (ItMax + 1)}
DoneInv == pc \in {"done", "end"} =>
             /\ (iter >= 0) <=> (x = "low")
             /\ iter >= 0 => good /\ status = 0 /\ iter = k
             /\ iter < 0 => status # 0 \/ x = "direct"
             /\ (k = ItMax /\ ~good) => iter < 0
===============================================================================
