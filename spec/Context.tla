------------------------------ MODULE Context -------------------------------
(* Life cycle and parameters of the library context.                         *)
(*                                                                           *)
(* State: up (initialised or not), par (the parameters a client can set and  *)
(* read back), inpar (the client is inside a parallel region).               *)
(*                                                                           *)
(* Mode "gen":   all histories up to MaxLen over the alphabet Ops; each      *)
(*               complete history is printed for replay in the library.      *)
(* Mode "check": histories recorded from the library (return values, values  *)
(*               read, all parameters after each step) are behaviours.       *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
CONSTANTS Mode, MaxLen
Progs == IF Mode = "check" THEN ndJsonDeserialize(IOEnv.TRACE) ELSE <<>>
VARIABLES pi, l, up, par, inpar, hist
vars == <<pi, l, up, par, inpar, hist>>

Params == {"Tuning", "Nb", "Ib", "NumPanelThreads", "HouseholderMode"}
Flags  == {0, 1}
Legal(p, v) == CASE p \in {"Tuning", "HouseholderMode"} -> v \in Flags
                 [] p \in {"Nb", "Ib", "NumPanelThreads"} -> v > 0
                 [] OTHER -> FALSE                       \* no such parameter
Default == [Tuning |-> 1, Nb |-> 256, Ib |-> 64, NumPanelThreads |-> 1, HouseholderMode |-> 0]
NotInit == -101
Environment == -109
IllegalValue == -103
AnyError == 999
Val(p, v) == p \in Params /\ par[p] = v

\* ---- what each call returns and does; err = some error (which one is not promised)
InitFails == up \/ inpar
Ret(e) ==         \* the set of allowed return values
  CASE e.op = "init" -> IF InitFails THEN {AnyError} ELSE {0}
    [] e.op = "fin"  -> IF ~up THEN {NotInit} ELSE IF inpar THEN {Environment} ELSE {0}
    [] e.op = "set"  -> IF ~up THEN {NotInit} ELSE IF inpar THEN {Environment} ELSE IF Legal(e.p, e.v) THEN {0} ELSE {IllegalValue}
    [] e.op = "get"  -> IF ~up THEN {NotInit} ELSE IF e.p \in Params THEN {0} ELSE {IllegalValue}
    [] e.op = "call" -> IF ~up THEN {NotInit} ELSE {0}
    [] e.op = "par"  -> {0}
RetOK(e) == e.ret \in Ret(e) \/ (AnyError \in Ret(e) /\ e.ret < 0)
Up2(e)  == CASE e.op = "init" /\ ~InitFails -> TRUE
             [] e.op = "fin" /\ up /\ ~inpar -> FALSE
             [] OTHER -> up
Par2(e) == CASE e.op = "init" /\ ~InitFails -> Default
             [] e.op = "set" /\ up /\ ~inpar /\ Legal(e.p, e.v) -> [par EXCEPT ![e.p] = e.v]
             [] OTHER -> par
InPar2(e) == IF e.op = "par" THEN ~inpar ELSE inpar

\* ---- generation
SmallV == {-1, 0, 1, 2, 300}
Ops == {[op |-> "init"], [op |-> "fin"], [op |-> "par"], [op |-> "call"]}
       \cup {[op |-> "set", p |-> p, v |-> v] : p \in Params \cup {"InplaceOutplace"}, v \in SmallV}
       \cup {[op |-> "get", p |-> p] : p \in Params \cup {"InplaceOutplace"}}
GenInit == pi = 0 /\ l = 0 /\ up = FALSE /\ par = Default /\ inpar = FALSE /\ hist = <<>>
GenNext == /\ l < MaxLen
           /\ \E e \in Ops : /\ (e.op = "call" => ~inpar)
                             /\ up' = Up2(e) /\ par' = Par2(e) /\ inpar' = InPar2(e) /\ hist' = Append(hist, e)
           /\ l' = l + 1 /\ UNCHANGED pi
           /\ IF l + 1 = MaxLen THEN PrintT(<<"HIST", ToJson(hist')>>) ELSE TRUE
\* the parameters of an initialised library are always legal; a library that is not up has lost the values set before
ParamsLegal == \A p \in Params : Legal(p, par[p])
NoMemory == [][(~up /\ up') => par' = Default]_vars
OnlySet  == [][par' # par => (\E e \in Ops : hist' = Append(hist, e) /\ e.op \in {"set", "init"})]_vars

\* ---- conformance
CheckInit == pi \in 1..Len(Progs) /\ l = 1 /\ up = FALSE /\ par = Default /\ inpar = FALSE /\ hist = <<>>
ObsOK(e) == \* all parameters read after the step
  IF Up2(e) THEN \A p \in Params : e.obs[p] = Par2(e)[p]
            ELSE \A p \in Params : e.obs[p] = NotInit
Verdict(e) ==
  IF e.op = "call"
  THEN IF up THEN IF e.ret < 0 \/ e.fatal THEN "refused" ELSE IF ObsOK(e) THEN "ok" ELSE "params"
       ELSE IF ~(e.fatal \/ e.ret = NotInit) THEN "accepted" ELSE IF e.touched THEN "touched" ELSE IF ObsOK(e) THEN "ok" ELSE "params"
  ELSE IF ~RetOK(e) THEN "return"
  ELSE IF e.op = "get" /\ e.ret = 0 /\ e.val # par[e.p] THEN "value"
  ELSE IF e.op = "get" /\ e.ret # 0 /\ e.val # -12345 THEN "value"       \* a failing get leaves the variable alone
  ELSE IF ~ObsOK(e) THEN "params"
  ELSE IF (e.op = "fin" /\ e.ret = 0 /\ e.live # 0) THEN "leak"
  ELSE "ok"
CheckNext ==
  /\ l <= Len(Progs[pi].ev)
  /\ LET e == Progs[pi].ev[l]
         v == Verdict(e)
     IN /\ IF v = "ok" THEN TRUE ELSE PrintT(<<"REJECT", Progs[pi].id, l, e.op, v, e.ret>>)
        /\ up' = Up2(e) /\ inpar' = InPar2(e)
        /\ par' = (IF v = "params" /\ Up2(e) THEN [p \in Params |-> e.obs[p]] ELSE Par2(e))   \* go on from what was observed
  /\ l' = l + 1 /\ UNCHANGED <<pi, hist>>

Init == IF Mode = "gen" THEN GenInit ELSE CheckInit
Next == IF Mode = "gen" THEN GenNext ELSE CheckNext
Spec == Init /\ [][Next]_vars
=============================================================================
