-------------------------------- MODULE Bulge ---------------------------------
(* Static scheduling of the bulge chasing steps over cores that wait for each *)
(* other through a table of progress counters.                                *)
(*                                                                            *)
(* Mode "table": each core runs its own steps in a fixed order; a step waits  *)
(* until the table shows that the step before it in its sweep and the step    *)
(* Shift-1 further on in the sweep before are finished.  Every access to the  *)
(* table is one transition.  Checked over all interleavings: a step starts    *)
(* only after all earlier conflicting steps (BulgeSteps), the table is not    *)
(* overrun, and the cores never wait for each other for ever.                 *)
(* Mode "free": any step whose earlier conflicting steps are finished may     *)
(* run; the largest freedom under which the result is that of the sequential  *)
(* algorithm.  Its behaviours are replayed into the real kernels.             *)
EXTENDS BulgeSteps, TLC, Json, IOUtils
CONSTANTS Mode, Shift, Hist      \* Hist: remember the schedule (simulation)
Confs == ndJsonDeserialize(IOEnv.CONF)
VARIABLES ci, pc, ops, tab, begun, done, hist
vars == <<ci, pc, ops, tab, begun, done, hist>>

n == Confs[ci].n
nb == Confs[ci].nb
w == Confs[ci].w
Cores == BMin(Confs[ci].p, BMax(BCeil(n, nb), 1))
Size == 2 * BCeil(n, nb) + Shift + Confs[ci].p + 10
Owner(c) == (BSt(nb, SweepOf(c), StepOf(c)) \div nb) % Cores
Steps == StepsOf(n, nb)
\* the static order: round i, part m, sweep s takes step 3(i-s)+m
Key(c) == LET s == SweepOf(c)
              k == StepOf(c)
              i == s + (k - 1) \div 3
              m == (k - 1) % 3
          IN (i * 3 + m) * 1000 + s
RECURSIVE Sort(_)
Sort(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : \A z \in S : Key(y) <= Key(z) IN <<x>> \o Sort(S \ {x})
Program(core) == Sort({c \in Steps : Owner(c) = core})
\* micro operations: <<"wait", index, value>>, <<"begin", step>>, <<"end", step>>, <<"set", index, value>>
RECURSIVE Sets(_, _, _)
Sets(a, b, v) == IF a > b THEN <<>> ELSE <<<<"set", a, v>>>> \o Sets(a + 1, b, v)
Micro(c) ==
  LET s == SweepOf(c)
      k == StepOf(c)
      lst == Ends(n, nb, s, k)
  IN (IF k > 1 THEN <<<<"wait", k - 1, s>>>> ELSE <<>>)
     \o <<<<"wait", k + Shift - 1, s - 1>>, <<"begin", c>>, <<"end", c>>, <<"set", k, s>>>>
     \o (IF lst THEN Sets(k + 1, k + Shift + (IF k = 1 THEN 0 ELSE Cores), s) ELSE <<>>)
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Micro(Head(q)) \o Flat(Tail(q))
Op(core) == ops[core + 1][pc[core + 1]]
More(core) == pc[core + 1] <= Len(ops[core + 1])

Init == /\ ci \in 1..Len(Confs)
        /\ LET k == BMin(Confs[ci].p, BMax(BCeil(Confs[ci].n, Confs[ci].nb), 1)) IN
           /\ pc = [x \in 1..k |-> 1]
           /\ ops = IF Mode = "table" THEN [x \in 1..k |-> Flat(Program(x - 1))] ELSE [c \in StepsOf(Confs[ci].n, Confs[ci].nb) |-> Before(Confs[ci].n, Confs[ci].nb, Confs[ci].w, c)]
        /\ tab = IF Mode = "table" THEN [x \in 0..Size - 1 |-> 0] ELSE <<>>
        /\ begun = {} /\ done = {} /\ hist = <<>>
Log(x) == hist' = IF Hist THEN Append(hist, x) ELSE hist
Step(core) ==
  /\ More(core)
  /\ LET o == Op(core) IN
     /\ CASE o[1] = "wait"  -> tab[o[2]] = o[3] /\ UNCHANGED <<tab, begun, done>>
          [] o[1] = "begin" -> begun' = begun \cup {o[2]} /\ UNCHANGED <<tab, done>>
          [] o[1] = "end"   -> done' = done \cup {o[2]} /\ UNCHANGED <<tab, begun>>
          [] o[1] = "set"   -> tab' = [tab EXCEPT ![o[2]] = o[3]] /\ UNCHANGED <<begun, done>>
     /\ Log(core)
  /\ pc' = [pc EXCEPT ![core + 1] = @ + 1]
  /\ UNCHANGED <<ci, ops>>
Free(c) ==
  /\ c \notin done /\ ops[c] \subseteq done
  /\ begun' = begun \cup {c} /\ done' = done \cup {c} /\ Log(c)
  /\ UNCHANGED <<ci, pc, ops, tab>>
Finished == done = Steps
Stop == /\ Hist /\ begun # {}
        /\ IF Mode = "table" THEN \A x \in DOMAIN pc : ~More(x - 1) ELSE Finished
        /\ PrintT(<<"BEHAVIOUR", Confs[ci].id, hist>>)
        /\ hist' = <<>> /\ begun' = {} /\ UNCHANGED <<ci, pc, ops, tab, done>>
Next == IF Mode = "table" THEN (\E x \in DOMAIN pc : Step(x - 1)) \/ Stop ELSE (\E c \in Steps : Free(c)) \/ Stop
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------- properties
Running == begun \ done
Ordered == \A c \in Running : Before(n, nb, w, c) \subseteq done
Apart == \A c, d \in Running : c # d => ~Conflict(n, nb, w, c, d)
InTable == Mode = "table" => \A x \in DOMAIN pc : More(x - 1) /\ Op(x - 1)[1] \in {"wait", "set"} => Op(x - 1)[2] \in 0..Size - 1
\* nobody waits for ever: where no core can go on, everything is finished
Live == Mode = "table" => ((\A x \in DOMAIN pc : ~More(x - 1) \/ (Op(x - 1)[1] = "wait" /\ tab[Op(x - 1)[2]] # Op(x - 1)[3]))
                           => Finished /\ \A x \in DOMAIN pc : ~More(x - 1))
\* an entry of the table that some core still has to see is not overwritten: equality waits cannot be overtaken
Kept == Mode = "table" => \A x \in DOMAIN pc : More(x - 1) /\ Op(x - 1)[1] = "wait" => tab[Op(x - 1)[2]] <= Op(x - 1)[3]
=============================================================================
