------------------------------ MODULE OmpTrace ------------------------------
(* Happens-before semantics of OpenMP tasks, and the absence of data races.  *)
(*                                                                           *)
(* A recorded execution of the real library is a behaviour of this           *)
(* specification.  A segment is a maximal piece of one task between two      *)
(* synchronisation events; K[t] is the set of segments that are ordered      *)
(* before the current point of task t in EVERY execution OpenMP allows for   *)
(* the same program, i.e. by program order, task creation, the declared      *)
(* dependences, taskwait, taskgroup, barriers and explicit synchronisation.  *)
(* The order in which the recorded run happened to execute the tasks is not  *)
(* part of K: a run in which conflicting tasks happened to be executed in    *)
(* the right order is rejected all the same if nothing enforces that order.  *)
(*                                                                           *)
(* Two kinds of rejection:                                                   *)
(*   RACE     two conflicting segments are unordered                         *)
(*   RUNTIME  the recorded run is not a run OpenMP allows (harness error)    *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC

Progs == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES pi, l,
  K,        \* task -> segments ordered before its current point
  st,       \* task -> "none" | "created" | "run" | "done"
  par,      \* task -> parent
  kids,     \* task -> children created so far
  pred,     \* task -> tasks it must wait for (declared dependences)
  grp,      \* task -> sequence of open task groups it belongs to (innermost last)
  gown,     \* task -> how many of these it opened itself
  dep,      \* dependence object (of one parent) -> [w: last writer, r: readers since]
  rel,      \* synchronisation object -> segments released into it
  bar,      \* <<team, generation>> -> segments of the arrived tasks
  team      \* task -> its team
vars == <<pi, l, K, st, par, kids, pred, grp, gown, dep, rel, bar, team>>

P  == Progs[pi]
E  == P.ev[l]
UnionK(T) == UNION {K[t] : t \in T}
Get(f, k) == IF k \in DOMAIN f THEN f[k] ELSE {}
Set(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Front(s) == SubSeq(s, 1, Len(s) - 1)
Last(s) == s[Len(s)]
InGroup(g) == {t \in DOMAIN st : \E i \in 1..Len(grp[t]) : grp[t][i] = g /\ (i <= Len(grp[t]) - gown[t])}
TeamTasks(m) == {t \in DOMAIN st : team[t] = m /\ st[t] # "none"}

\* the run must be one OpenMP allows
Legal(ok, what) == IF ok THEN TRUE ELSE PrintT(<<"REJECT", P.id, l, "RUNTIME", what>>)

\* -------------------------------------------------------------- actions
\* <<"create", p, c, deps>>  deps = << <<object, isout>>, ... >>
Create ==
  LET p == E[2]
      c == E[3]
      ds == E[4]
      outs == {ds[i][1] : i \in {j \in 1..Len(ds) : ds[j][2] = 1}}
      ins == {ds[i][1] : i \in 1..Len(ds)}
      preds == UNION {LET d == dep[ds[i][1]] IN
                      IF ds[i][2] = 1 THEN d.r \cup {d.w} ELSE {d.w} : i \in 1..Len(ds)} \ {0}
  IN /\ K' = [K EXCEPT ![c] = K[p]]
     /\ st' = [st EXCEPT ![c] = "created"]
     /\ par' = [par EXCEPT ![c] = p]
     /\ kids' = [kids EXCEPT ![p] = @ \cup {c}]
     /\ pred' = [pred EXCEPT ![c] = preds]
     /\ grp' = [grp EXCEPT ![c] = grp[p]]
     /\ team' = [team EXCEPT ![c] = team[p]]
     /\ dep' = [x \in DOMAIN dep |-> IF x \in outs THEN [w |-> c, r |-> {}]
                                     ELSE IF x \in ins THEN [dep[x] EXCEPT !.r = @ \cup {c}]
                                     ELSE dep[x]]
     /\ UNCHANGED <<gown, rel, bar>>
Start ==
  LET t == E[2] IN
  /\ Legal(st[t] = "created" /\ \A q \in pred[t] : st[q] = "done", "start")
  /\ st' = [st EXCEPT ![t] = "run"]
  /\ K' = [K EXCEPT ![t] = @ \cup UnionK(pred[t])]
  /\ UNCHANGED <<par, kids, pred, grp, gown, dep, rel, bar, team>>
Finish ==
  LET t == E[2] IN
  /\ Legal(st[t] = "run", "finish")
  /\ st' = [st EXCEPT ![t] = "done"]
  /\ UNCHANGED <<K, par, kids, pred, grp, gown, dep, rel, bar, team>>
\* <<"seg", t, s, conflicts, wconflicts>>: t enters segment s; conflicts are the earlier segments of the run that
\* touch some byte s touches too, one of the two writing it; wconflicts those where every such byte lies in a
\* per-thread workspace (plasma_workspace_create).  Two tasks may use one thread's workspace unordered if they
\* are tied to the same thread and contain no scheduling point, or none between their uses of workspace: then
\* neither is suspended inside.
Bad(t, s) ==
  ({E[4][i] : i \in 1..Len(E[4])} \ K[t])
  \cup {x \in {E[5][i] : i \in 1..Len(E[5])} \ K[t] :
          LET u == P.of.t[x + 1]
          IN ~(/\ P.thr.t[u + 1] = P.thr.t[t + 1] /\ P.thr.t[t + 1] >= 0
               /\ kids[t] = {} \/ P.one.t[t + 1] = 1
               /\ (kids[u] = {} /\ st[u] = "done") \/ P.one.t[u + 1] = 1)}
Seg ==
  LET t == E[2]
      s == E[3]
      bad == Bad(t, s)
  IN /\ IF bad = {} THEN TRUE ELSE PrintT(<<"REJECT", P.id, l, "RACE", s, CHOOSE x \in bad : TRUE>>)
     /\ K' = [K EXCEPT ![t] = @ \cup {s}]
     /\ UNCHANGED <<st, par, kids, pred, grp, gown, dep, rel, bar, team>>
\* taskwait: the children, not their descendants
Waited ==
  LET t == E[2] IN
  /\ Legal(\A q \in kids[t] : st[q] = "done", "taskwait")
  /\ K' = [K EXCEPT ![t] = @ \cup UnionK(kids[t])]
  /\ UNCHANGED <<st, par, kids, pred, grp, gown, dep, rel, bar, team>>
GrpBeg ==
  LET t == E[2] IN
  /\ grp' = [grp EXCEPT ![t] = Append(@, l)]        \* the event number names the group
  /\ gown' = [gown EXCEPT ![t] = @ + 1]
  /\ UNCHANGED <<K, st, par, kids, pred, dep, rel, bar, team>>
GrpEnd ==
  LET t == E[2]
      G == InGroup(Last(grp[t]))
  IN /\ Legal(gown[t] > 0 /\ \A q \in G : st[q] = "done", "taskgroup")
     /\ K' = [K EXCEPT ![t] = @ \cup UnionK(G)]
     /\ grp' = [grp EXCEPT ![t] = Front(@)]
     /\ gown' = [gown EXCEPT ![t] = @ - 1]
     /\ UNCHANGED <<st, par, kids, pred, dep, rel, bar, team>>
\* <<"impl", t, team, host>>
Impl ==
  LET t == E[2] IN
  /\ K' = [K EXCEPT ![t] = K[E[4]]]
  /\ st' = [st EXCEPT ![t] = "run"]
  /\ par' = [par EXCEPT ![t] = E[4]]
  /\ team' = [team EXCEPT ![t] = E[3]]
  /\ UNCHANGED <<kids, pred, grp, gown, dep, rel, bar>>
\* <<"arrive", t, team, generation>>, <<"depart", t, team, generation, n>>
Arrive ==
  LET t == E[2]
      b == <<E[3], E[4]>>
  IN /\ bar' = Set(bar, b, Get(bar, b) \cup {t})
     /\ UNCHANGED <<K, st, par, kids, pred, grp, gown, dep, rel, team>>
Depart ==
  LET t == E[2]
      b == <<E[3], E[4]>>
      first == 0 \notin bar[b]                 \* task 0, the main program, marks an opened barrier
      X == IF first THEN {0} \cup {q \in TeamTasks(E[3]) : st[q] = "done"} ELSE {}
      B == bar[b] \cup X
  IN /\ Legal(~first \/ Cardinality(bar[b]) = E[5], "barrier")
     /\ bar' = Set(bar, b, B)
     /\ K' = [K EXCEPT ![t] = @ \cup UnionK(B)]
     /\ UNCHANGED <<st, par, kids, pred, grp, gown, dep, rel, team>>
\* <<"parend", host, team>>
ParEnd ==
  LET t == E[2] IN
  /\ Legal(\A q \in TeamTasks(E[3]) : st[q] = "done" \/ (par[q] = t /\ q \notin kids[t]), "parallel")   \* implicit tasks end here
  /\ K' = [K EXCEPT ![t] = @ \cup UnionK(TeamTasks(E[3]))]
  /\ UNCHANGED <<st, par, kids, pred, grp, gown, dep, rel, bar, team>>
Acq ==
  LET t == E[2] IN
  /\ K' = [K EXCEPT ![t] = @ \cup Get(rel, E[3])]
  /\ UNCHANGED <<st, par, kids, pred, grp, gown, dep, rel, bar, team>>
Rel ==
  LET t == E[2] IN
  /\ rel' = Set(rel, E[3], Get(rel, E[3]) \cup K[t])
  /\ UNCHANGED <<K, st, par, kids, pred, grp, gown, dep, bar, team>>

Init == /\ pi \in 1..Len(Progs)
        /\ l = 1
        /\ LET n == Progs[pi].nt IN
           /\ K = [t \in 0..n-1 |-> {}]
           /\ st = [t \in 0..n-1 |-> IF t = 0 THEN "run" ELSE "none"]
           /\ par = [t \in 0..n-1 |-> 0]
           /\ kids = [t \in 0..n-1 |-> {}]
           /\ pred = [t \in 0..n-1 |-> {}]
           /\ grp = [t \in 0..n-1 |-> <<>>]
           /\ gown = [t \in 0..n-1 |-> 0]
           /\ team = [t \in 0..n-1 |-> 0]
        /\ dep = [x \in 1..Progs[pi].ndep |-> [w |-> 0, r |-> {}]]
        /\ rel = <<>> /\ bar = <<>>
Next == /\ l <= Len(P.ev)
        /\ CASE E[1] = "create" -> Create
             [] E[1] = "start"  -> Start
             [] E[1] = "finish" -> Finish
             [] E[1] = "seg"    -> Seg
             [] E[1] = "waited" -> Waited
             [] E[1] = "grpbeg" -> GrpBeg
             [] E[1] = "grpend" -> GrpEnd
             [] E[1] = "impl"   -> Impl
             [] E[1] = "arrive" -> Arrive
             [] E[1] = "depart" -> Depart
             [] E[1] = "parend" -> ParEnd
             [] E[1] = "acq"    -> Acq
             [] E[1] = "rel"    -> Rel
        /\ l' = l + 1
        /\ UNCHANGED pi
Spec == Init /\ [][Next]_vars
View == <<pi, l>>
=============================================================================
