------------------------------ MODULE OmpTask -------------------------------
(* The task graph of one call as a state machine.                            *)
(*                                                                           *)
(* The creating task executes its body: a sequence of task creations with    *)
(* their dependences, and waits for everything created so far.  A created    *)
(* task may start as soon as the tasks it depends on have finished; tasks    *)
(* run concurrently (start and finish are separate actions) on any number of *)
(* threads.  The bodies and the pairs of conflicting tasks are recorded from *)
(* the real library.                                                         *)
(*                                                                           *)
(* Used in two ways: (1) breadth-first search over ALL interleavings of      *)
(* small graphs, invariants RaceFree and NoDeadlock; (2) with OneThread = TRUE,    *)
(* simulation: every behaviour is an order in which one thread may execute   *)
(* the tasks, printed and then executed by the real library.                 *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
CONSTANT OneThread
Progs == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES pi, pc, dep, pred, created, running, done, ord
vars == <<pi, pc, dep, pred, created, running, done, ord>>
P == Progs[pi]

Init == /\ pi \in 1..Len(Progs)
        /\ pc = 1
        /\ dep = [x \in 1..Progs[pi].ndep |-> [w |-> 0, r |-> {}]]
        /\ pred = <<>>
        /\ created = {} /\ running = {} /\ done = {} /\ ord = <<>>

Preds(ds) == UNION {LET d == dep[ds[i][1]] IN IF ds[i][2] = 1 THEN d.r \cup {d.w} ELSE {d.w} : i \in 1..Len(ds)} \ {0}
CreateT ==
  /\ pc <= Len(P.body) /\ P.body[pc][1] = "create"
  /\ LET c == P.body[pc][2]
         ds == P.body[pc][3]
         outs == {ds[i][1] : i \in {j \in 1..Len(ds) : ds[j][2] = 1}}
         ins == {ds[i][1] : i \in 1..Len(ds)}
     IN /\ created' = created \cup {c}
        /\ pred' = Append(pred, Preds(ds))
        /\ dep' = [x \in DOMAIN dep |-> IF x \in outs THEN [w |-> c, r |-> {}]
                                        ELSE IF x \in ins THEN [dep[x] EXCEPT !.r = @ \cup {c}] ELSE dep[x]]
  /\ pc' = pc + 1
  /\ UNCHANGED <<pi, running, done, ord>>
WaitT ==
  /\ pc <= Len(P.body) /\ P.body[pc][1] = "wait"
  /\ created = done
  /\ pc' = pc + 1
  /\ UNCHANGED <<pi, dep, pred, created, running, done, ord>>
Startable(t) == t \in created \ (running \cup done) /\ pred[t] \subseteq done
StartT(t) ==
  /\ Startable(t)
  /\ OneThread => (running = {} /\ (pc > Len(P.body) \/ (P.body[pc][1] = "wait" /\ created # done)))      \* one thread: the creator runs until it waits
  /\ running' = running \cup {t}
  /\ ord' = IF OneThread THEN Append(ord, t) ELSE ord
  /\ UNCHANGED <<pi, pc, dep, pred, created, done>>
FinishT(t) ==
  /\ t \in running
  /\ running' = running \ {t}
  /\ done' = done \cup {t}
  /\ UNCHANGED <<pi, pc, dep, pred, created, ord>>
End == pc > Len(P.body) /\ running = {} /\ created = done
Report == IF OneThread /\ End /\ Len(ord) = P.n /\ pc = Len(P.body) + 1
          THEN PrintT(<<"ORDER", P.id, ord>>) ELSE TRUE
Stop == End /\ pc = Len(P.body) + 1 /\ Report /\ pc' = pc + 1 /\ UNCHANGED <<pi, dep, pred, created, running, done, ord>>
Next == CreateT \/ WaitT \/ Stop \/ \E t \in created : StartT(t) \/ FinishT(t)
Spec == Init /\ [][Next]_vars

Conflicts == {{P.conf[i][1], P.conf[i][2]} : i \in 1..Len(P.conf)}
\* no two conflicting tasks ever run at the same time, and none can start while a conflicting one, not yet run
\* and created before it, could still start after it
RaceFree == \A t, u \in running : t # u => {t, u} \notin Conflicts
NoDeadlock == (created # done) => running # {} \/ \E t \in created : Startable(t)
=============================================================================
