------------------------------- MODULE Alloc --------------------------------
(* What one call acquires and releases, when memory may run out.             *)
(*                                                                           *)
(* State: live (blocks the call holds), nomem (a request was refused), ret   *)
(* (the value returned), kept (the block a returned descriptor owns).        *)
(*                                                                           *)
(* Mode "gen":   the protocol every routine follows (acquire in order, give  *)
(*               up at the first refusal, release everything but what is     *)
(*               returned) for up to N requests and every fault plan;        *)
(*               Balanced, NoSilence and Finishes are checked on it.         *)
(* Mode "check": recorded acquisitions, releases and returns of the library  *)
(*               are behaviours of the same state machine.                   *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
CONSTANTS Mode, N
Progs == IF Mode = "check" THEN ndJsonDeserialize(IOEnv.TRACE) ELSE <<>>
VARIABLES pi, l, live, nomem, ret, kept, plan, pc
vars == <<pi, l, live, nomem, ret, kept, plan, pc>>
None == 1

\* ---- transitions of the machine
Alloc(b)  == live' = live \cup {b} /\ UNCHANGED <<nomem, ret, kept>>
NoMem     == nomem' = TRUE /\ UNCHANGED <<live, ret, kept>>
Free(b)   == live' = live \ {b} /\ UNCHANGED <<nomem, ret, kept>>
Return(v, K) == ret' = v /\ kept' = live \cap K /\ live' = live \ K /\ UNCHANGED nomem

\* ---- protocol: requests 1..n, the last one is what the call returns if R
GenInit == /\ pi = 0 /\ l = 1 /\ live = {} /\ nomem = FALSE /\ ret = None /\ kept = {}
           /\ plan \in {[n |-> n, fails |-> F, result |-> r] : n \in 0..N, F \in SUBSET (1..N), r \in BOOLEAN}
           /\ pc = "get"
GenNext ==
  /\ pc # "end" /\ UNCHANGED <<pi, plan>>
  /\ CASE pc = "get" /\ l > plan.n -> pc' = "put" /\ UNCHANGED <<l, live, nomem, ret, kept>>
       [] pc = "get" /\ l <= plan.n /\ l \notin plan.fails -> Alloc(l) /\ l' = l + 1 /\ pc' = "get"
       [] pc = "get" /\ l <= plan.n /\ l \in plan.fails -> NoMem /\ pc' = "put" /\ l' = l
       [] pc = "put" -> LET K == IF plan.result /\ ~nomem THEN {plan.n} ELSE {} IN
                        IF live \ K # {} THEN (\E b \in live \ K : Free(b)) /\ UNCHANGED <<l, pc>>
                        ELSE Return(IF nomem THEN -2 ELSE 0, K) /\ pc' = "end" /\ l' = l
Balanced  == ret # None => live = {} /\ (ret < 0 => kept = {}) /\ Cardinality(kept) <= 1
NoSilence == ret # None => (nomem <=> ret < 0)
Finishes  == <>(pc = "end")

\* ---- conformance
CheckInit == /\ pi \in 1..Len(Progs) /\ l = 1 /\ live = {} /\ nomem = FALSE /\ ret = None /\ kept = {} /\ plan = <<>> /\ pc = "check"
Range(s) == {s[i] : i \in 1..Len(s)}
Why(e) ==
  CASE e.k = "free" -> IF e.b \in live THEN "ok" ELSE "release"
    [] e.k = "alloc" -> IF e.b \notin live THEN "ok" ELSE "release"
    [] e.k = "bad" -> "memory"
    [] e.k = "ret" -> IF live \ Range(e.kept) # {} THEN "leak" ELSE "ok"
    \* after the return of a starved call: an error, or the work was done all the same
    [] e.k = "verdict" -> IF nomem THEN IF ret < 0 \/ e.same THEN "ok" ELSE "silent" ELSE IF e.same THEN "ok" ELSE "afterwards"
    [] OTHER -> "ok"
CheckNext ==
  /\ l <= Len(Progs[pi].ev) /\ UNCHANGED <<pi, plan, pc>> /\ l' = l + 1
  /\ LET e == Progs[pi].ev[l]
     IN /\ IF Why(e) = "ok" THEN TRUE ELSE PrintT(<<"REJECT", Progs[pi].id, l, Why(e)>>)
        /\ CASE e.k = "alloc" -> Alloc(e.b)
             [] e.k = "nomem" -> NoMem
             [] e.k = "free"  -> Free(e.b)
             [] e.k = "ret"   -> ret' = e.v /\ kept' = live \cap Range(e.kept) /\ live' = {} /\ UNCHANGED nomem
             [] e.k = "verdict" -> nomem' = FALSE /\ UNCHANGED <<live, ret, kept>>
             [] OTHER -> UNCHANGED <<live, nomem, ret, kept>>

Init == IF Mode = "gen" THEN GenInit ELSE CheckInit
Next == IF Mode = "gen" THEN GenNext ELSE CheckNext
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_vars(Next)
=============================================================================
