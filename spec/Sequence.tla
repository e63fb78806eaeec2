------------------------------ MODULE Sequence ------------------------------
(* Asynchronous calls on one sequence.                                       *)
(*                                                                           *)
(* A call is a list of block tasks; each task reads and writes blocks (tiles *)
(* of the operands).  Tasks are submitted in program order, start when the   *)
(* earlier tasks they conflict with are done, and do nothing if the sequence *)
(* has failed when they start.  A task may fail: it sets the status of the   *)
(* sequence and of its request.  A call with illegal arguments fails when it *)
(* is submitted and has no tasks.  A call submitted after a failure has no   *)
(* tasks.                                                                    *)
(*                                                                           *)
(* State: pos (how many of the writes of the sequential program each block   *)
(* has seen), status, req (per call), late (tasks started after a failure).  *)
(*                                                                           *)
(* Mode "gen":   all programs of up to N calls over two blocks and all       *)
(*               interleavings; checked: every block is always at a version  *)
(*               of the sequential program, the program without failure ends *)
(*               in its final state, a failure is never lost, no task        *)
(*               started after the failure writes.                           *)
(* Mode "check": recorded executions of the library's plasma_omp_* routines. *)
(*               The versions of the blocks are those of the sequential      *)
(*               execution of the same calls.                                *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
CONSTANTS Mode, N
Progs == IF Mode = "check" THEN ndJsonDeserialize(IOEnv.TRACE) ELSE <<>>
VARIABLES pi, l, pos, status, req, late, prog, sub, done, running
vars == <<pi, l, pos, status, req, late, prog, sub, done, running>>
Ok == 0

\* ---- the actions on the observable state
Fail(c, code)  == status' = code /\ req' = [req EXCEPT ![c] = code]
Write(b)       == pos' = [pos EXCEPT ![b] = @ + 1]

-----------------------------------------------------------------------------
\* ---- gen: tasks of the program in order, [c, rd, wr, fails]; illegal calls have the single pseudo task wr = 0
Blocks == {1, 2}
CallKinds == {
  <<[rd |-> {1}, wr |-> 1, fails |-> FALSE], [rd |-> {1}, wr |-> 2, fails |-> FALSE]>>,      \* factor one, update two
  <<[rd |-> {1}, wr |-> 1, fails |-> TRUE],  [rd |-> {1}, wr |-> 2, fails |-> FALSE]>>,
  <<[rd |-> {1, 2}, wr |-> 2, fails |-> FALSE]>>,
  <<[rd |-> {2}, wr |-> 2, fails |-> TRUE]>>,
  <<[rd |-> {}, wr |-> 1, fails |-> FALSE], [rd |-> {}, wr |-> 2, fails |-> FALSE]>>,        \* independent
  <<[rd |-> {}, wr |-> 0, fails |-> TRUE]>> }                                               \* illegal argument
RECURSIVE Flat(_, _)
Flat(p, c) == IF c > Len(p) THEN <<>> ELSE [i \in 1 .. Len(p[c]) |-> p[c][i] @@ [c |-> c]] \o Flat(p, c + 1)
Tasks == Flat(prog, 1)
Conflict(s, t) == s.wr # 0 /\ t.wr # 0 /\ (s.wr \in t.rd \cup {t.wr} \/ t.wr \in s.rd)
GenInit == /\ pi = 0 /\ l = 1 /\ status = Ok /\ late = {} /\ sub = 0 /\ done = {} /\ running = {}
           /\ \E n \in 1 .. N : prog \in [1 .. n -> CallKinds] /\ req = [c \in 1 .. n |-> Ok]
           /\ pos = [b \in Blocks |-> <<>>]
\* the next task of the program is submitted, or dropped because its call starts after a failure
Submit ==
  /\ sub < Len(Tasks)
  /\ LET t == Tasks[sub + 1]
         first == sub = 0 \/ Tasks[sub].c # t.c
     IN IF t.wr = 0 THEN Fail(t.c, 10 + t.c) /\ sub' = sub + 1 /\ done' = done \cup {sub + 1}
        ELSE IF first /\ status # Ok
             THEN LET same == {k \in sub + 1 .. Len(Tasks) : Tasks[k].c = t.c} IN
                  sub' = sub + Cardinality(same) /\ done' = done \cup same /\ UNCHANGED <<status, req>>
             ELSE sub' = sub + 1 /\ UNCHANGED <<status, req, done>>
  /\ UNCHANGED <<pi, l, pos, late, prog, running>>
Start == \E k \in (1 .. sub) \ (done \cup running) :
  /\ \A s \in 1 .. k - 1 : Conflict(Tasks[s], Tasks[k]) => s \in done
  /\ IF status = Ok THEN running' = running \cup {k} /\ UNCHANGED done ELSE done' = done \cup {k} /\ UNCHANGED running
  /\ UNCHANGED <<pi, l, pos, status, req, late, prog, sub>>
Finish == \E k \in running :
  /\ running' = running \ {k} /\ done' = done \cup {k}
  /\ pos' = [pos EXCEPT ![Tasks[k].wr] = Append(@, k)]
  /\ IF Tasks[k].fails THEN Fail(Tasks[k].c, 10 + Tasks[k].c) ELSE UNCHANGED <<status, req>>
  /\ UNCHANGED <<pi, l, late, prog, sub>>
GenNext == Submit \/ Start \/ Finish
\* writes of the sequential program that goes on after failures
Writers(b) == SelectSeq([k \in 1 .. Len(Tasks) |-> k], LAMBDA k : Tasks[k].wr = b)
Prefix == \A b \in Blocks : Len(pos[b]) <= Len(Writers(b)) /\ pos[b] = SubSeq(Writers(b), 1, Len(pos[b]))
Ended == sub = Len(Tasks) /\ done = 1 .. sub
Complete == Ended /\ status = Ok => \A b \in Blocks : pos[b] = Writers(b)
NeverLost == (status = Ok <=> \A c \in DOMAIN req : req[c] = Ok) /\ (status # Ok => \E c \in DOMAIN req : req[c] = status)
Reported == Ended => ((\E k \in 1 .. Len(Tasks) : Tasks[k].fails) <=> status # Ok)

-----------------------------------------------------------------------------
\* ---- check: program fields
\*  calls [[op, code, sub, copy]...]  code: error of the call in the sequential execution, sub: it fails when it is submitted (illegal arguments), copy: goes on after a failure
\*  hist [[versions]...] per block, initial version first
\*  ev: [k |-> "s", t, c] task of call c starts; [k |-> "v", t, c, b, v] block b is at version v; [k |-> "f", c, r, code] call c sets the status of the sequence (r = 0) or of request r; [k |-> "end", status, req]
T == Progs[pi]
Ev == T.ev[l]
Errors(e) ==
  CASE e.k = "s" -> {}
    [] e.k = "v" -> IF e.t \in late /\ T.calls[e.c][4] = 1 THEN {} ELSE
                    (IF pos[e.b] < Len(T.hist[e.b]) /\ T.hist[e.b][pos[e.b] + 1] = e.v THEN {} ELSE {"not the state of the sequential program"})
                    \cup (IF e.t \in late THEN {"work after the failure"} ELSE {})
    [] e.k = "f" -> (IF T.calls[e.c][2] = e.code THEN {} ELSE {"failure of the wrong call or with the wrong code"})
                    \cup (IF e.r \in {0, e.c} THEN {} ELSE {"failure in the request of another call"})
    [] e.k = "end" ->
         (IF e.status = status THEN {} ELSE {"status of the sequence"})
         \cup (IF e.req = req /\ \A c \in 1 .. Len(req) : T.calls[c][3] = 1 => req[c] = T.calls[c][2] THEN {} ELSE {"status of a request"})
         \cup (IF (status = Ok <=> \A c \in 1 .. Len(req) : req[c] = Ok) /\ (status # Ok => \E c \in 1 .. Len(req) : req[c] = status) THEN {} ELSE {"sequence and requests disagree"})
         \cup (IF \E c \in 1 .. Len(T.calls) : T.calls[c][2] # 0 THEN (IF e.status # 0 THEN {} ELSE {"failure lost"})
               ELSE IF \A b \in 1 .. Len(T.hist) : pos[b] = Len(T.hist[b]) THEN {} ELSE {"unfinished"})
CheckInit == /\ pi \in 1 .. Len(Progs) /\ l = 1 /\ status = Ok /\ late = {}
             /\ pos = [b \in 1 .. Len(Progs[pi].hist) |-> 1] /\ req = [c \in 1 .. Len(Progs[pi].calls) |-> Ok]
             /\ prog = <<>> /\ sub = 0 /\ done = {} /\ running = {}
CheckNext ==
  /\ l <= Len(T.ev) /\ l' = l + 1 /\ UNCHANGED <<pi, prog, sub, done, running>>
  /\ LET E == Errors(Ev) IN IF E = {} THEN TRUE ELSE PrintT(<<"REJECT", T.id, l, Ev.k, IF Ev.k = "v" THEN Ev.b ELSE 0, ToString(E)>>)
  /\ late' = IF Ev.k = "s" /\ status # Ok THEN late \cup {Ev.t} ELSE late
  /\ IF Ev.k = "v" /\ pos[Ev.b] < Len(T.hist[Ev.b]) THEN Write(Ev.b) ELSE UNCHANGED pos
  /\ status' = IF Ev.k = "f" /\ Ev.r = 0 THEN Ev.code ELSE status
  /\ req' = IF Ev.k = "f" /\ Ev.r # 0 THEN [req EXCEPT ![Ev.r] = Ev.code] ELSE req
View == <<pi, l>>
Init == IF Mode = "check" THEN CheckInit ELSE GenInit
Next == IF Mode = "check" THEN CheckNext ELSE GenNext
Spec == Init /\ [][Next]_vars
=============================================================================
