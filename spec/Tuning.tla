------------------------------- MODULE Tuning ---------------------------------
(* Tuning.  A session may have a tuning script.  With tuning enabled, a call  *)
(* of a routine asks the script for its parameters (tile size, inner block,   *)
(* panel threads; which of them and from which function depends on the        *)
(* routine) with the precision, the number of threads and the size, and uses  *)
(* and keeps what it gets.  What the script cannot provide (no function, an   *)
(* error, not a positive int) leaves the parameter as it was; so do tuning    *)
(* disabled and a session without a usable script.                            *)
(*                                                                            *)
(* Gen = TRUE explores all histories of an abstract routine with three        *)
(* parameters and every answer of the script; otherwise the recorded          *)
(* sessions of the library are checked.  The functions of the recorded        *)
(* scripts have the form 1 + (c0 + c1*precision + c2*threads + sum of         *)
(* c3..*argument) mod m, so that the specification knows their values.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANT Gen
Progs == IF Gen THEN <<[id |-> "gen", ev |-> <<>>]>> ELSE ndJsonDeserialize(IOEnv.TRACE)
VARIABLES pi, l, on, usable, par
vars == <<pi, l, on, usable, par>>
Names == {"nb", "ib", "mt"}
Default == [nb |-> 256, ib |-> 64, mt |-> 1]

---------------------------------------------------------------------------
(* which function tunes a routine, with which arguments *)
MN == <<"m", "n">>   NK == <<"n", "k">>   NN == <<"n", "n">>   N1 == <<"n">>   NBW == <<"n", "bw">>
Row(f, a) == [f |-> f, a |-> a]
Table ==
  [gbmm |-> Row("gbmm", <<"m", "n", "k", "kl", "ku">>), gbsv |-> Row("gbtrf", NBW), gbtrf |-> Row("gbtrf", NBW), gbtrs |-> Row("gbtrf", NBW),
   geadd |-> Row("geadd", MN), geinv |-> Row("geinv", MN), gelqf |-> Row("gelqf", MN), gelqs |-> Row("gelqf", MN), gemm |-> Row("gemm", <<"m", "n", "k">>),
   geqrf |-> Row("geqrf", MN), geqrs |-> Row("geqrf", MN), gesv |-> Row("getrf", NN), geswp |-> Row("geswp", MN), getrf |-> Row("getrf", MN),
   getri |-> Row("getrf", NN), getrs |-> Row("trsm", NN), hemm |-> Row("symm", MN), her2k |-> Row("syr2k", NK), herk |-> Row("syrk", NK),
   hesv |-> Row("hetrf", N1), hetrf |-> Row("hetrf", N1), hetrs |-> Row("trsm", NN), lacpy |-> Row("lacpy", MN), lag2c |-> Row("lag2c", MN),
   lange |-> Row("lange", MN), lanhe |-> Row("lansy", N1), lansy |-> Row("lansy", N1), lantr |-> Row("lantr", MN), lascl |-> Row("lascl", MN),
   laset |-> Row("laset", MN), lauum |-> Row("lauum", N1), pbsv |-> Row("pbtrf", N1), pbtrf |-> Row("pbtrf", N1), pbtrs |-> Row("trsm", NN),
   poinv |-> Row("poinv", N1), posv |-> Row("potrf", N1), potrf |-> Row("potrf", N1), potri |-> Row("trtri", N1), potrs |-> Row("trsm", NN),
   symm |-> Row("symm", MN), syr2k |-> Row("syr2k", NK), syrk |-> Row("syrk", NK), tradd |-> Row("tradd", MN), trmm |-> Row("trmm", MN),
   trsm |-> Row("trsm", MN), trtri |-> Row("trtri", N1), unglq |-> Row("gelqf", MN), ungqr |-> Row("geqrf", MN), unmlq |-> Row("gelqf", MN),
   unmqr |-> Row("geqrf", MN), cgesv |-> Row("getrf", NN), cposv |-> Row("potrf", N1), cgbsv |-> Row("gbtrf", NBW)]
Tunes(op, c) == IF op = "gels" THEN {Row(IF c.m < c.n THEN "gelqf" ELSE "geqrf", MN)}
                ELSE IF op \in DOMAIN Table THEN {Table[op]} ELSE {}
Asked(f) == {"nb"} \cup (IF f \in {"gbtrf", "geinv", "gelqf", "geqrf", "getrf"} THEN {"ib"} ELSE {})
                   \cup (IF f \in {"gbtrf", "geinv", "getrf"} THEN {"mt"} ELSE {})
\* the low precision is what the mixed solvers of gesv and posv are tuned for
Prec(op, p) == IF op \in {"cgesv", "cposv"} THEN (IF p = "d" THEN "s" ELSE "c") ELSE p
PrecNo == [s |-> 1, d |-> 2, c |-> 3, z |-> 4]

---------------------------------------------------------------------------
RECURSIVE Sum(_, _, _, _)
Sum(c, as, e, i) == IF i > Len(as) THEN 0 ELSE c[((2 + i - 1) % Len(c)) + 1] * e[as[i]] + Sum(c, as, e, i + 1)
\* values the parameter may have after asking the script; old stays when there is no legal answer
Answer(rule, e, as, old) ==
  LET v == 1 + ((rule.c[1] + rule.c[2] * PrecNo[Prec(e.op, e.p)] + rule.h * e.threads + Sum(rule.c, as, e, 1)) % rule.m)
  IN CASE rule.kind \in {"ok", "numstr"} -> {v}
       [] rule.kind = "half" -> {v, old}             \* not an integer: refused or rounded down
       [] OTHER -> {old}

Script == Progs[pi].scripts[Progs[pi].ev[l].script]
Rule(f, x) == LET k == f \o "_" \o x IN IF k \in DOMAIN Script THEN Script[k] ELSE [kind |-> "missing", c |-> <<0, 0>>, h |-> 0, m |-> 1]

\* the recorded event agrees with the state, and what follows
Call(e) ==
  LET ts == IF on /\ usable THEN Tunes(e.op, e.args) ELSE {}
      args == [x \in {"m", "n", "k", "kl", "ku", "bw", "threads", "op", "p"} |->
                 IF x = "threads" THEN e.threads ELSE IF x = "op" THEN e.op ELSE IF x = "p" THEN e.p ELSE e.args[x]]
      May(x) == LET us == {t \in ts : x \in Asked(t.f)}
                IN IF us = {} THEN {par[x]} ELSE UNION {Answer(Rule(t.f, x), args, t.a, par[x]) : t \in us}
  IN \A x \in Names : e.par[x] \in May(x)

Verdict(e) ==
  CASE e.k = "init" -> IF e.par # Default \/ e.on # TRUE THEN "init" ELSE "ok"
    [] e.k = "set" -> IF e.par # [par EXCEPT ![e.x] = e.v] THEN "set" ELSE "ok"
    [] e.k = "tune" -> IF e.par # par THEN "switch" ELSE "ok"
    [] e.k = "fin" -> IF e.lua # 0 THEN "leak" ELSE "ok"
    [] e.k = "call" -> (IF ~Call(e) THEN "parameters" ELSE IF ~e.used THEN "unused" ELSE "ok")
    [] e.k = "shipped" -> IF \E x \in Names : e.par[x] < 1 \/ (e.par[x] = e.old[x] /\ \E t \in Tunes(e.op, e.args) : x \in Asked(t.f)) THEN "shipped" ELSE "ok"

Init == /\ pi \in 1..Len(Progs) /\ l = 1
        /\ on = TRUE /\ usable = FALSE /\ par = Default
Step == /\ ~Gen /\ l <= Len(Progs[pi].ev)
        /\ LET e == Progs[pi].ev[l]
               v == Verdict(e)
           IN /\ IF v = "ok" THEN TRUE ELSE PrintT(<<"REJECT", Progs[pi].id, l, v, IF e.k \in {"call", "shipped"} THEN e.op ELSE e.k>>)
              /\ on' = (IF e.k = "init" THEN TRUE ELSE IF e.k = "tune" THEN e.v ELSE on)
              /\ usable' = (IF e.k = "init" THEN e.usable ELSE usable)
              /\ par' = (IF e.k = "fin" THEN par ELSE e.par)
        /\ l' = l + 1 /\ UNCHANGED pi

(* ---- all histories of an abstract routine that asks for some of the parameters *)
Vals == {1, 2, 64}
Abstract == /\ Gen /\ l <= 4 /\ l' = l + 1 /\ UNCHANGED pi
       /\ \/ \E u \in BOOLEAN : on' = TRUE /\ usable' = u /\ par' = Default
          \/ \E x \in Names, v \in Vals : par' = [par EXCEPT ![x] = v] /\ UNCHANGED <<on, usable>>
          \/ \E b \in BOOLEAN : on' = b /\ UNCHANGED <<usable, par>>
          \/ \E asked \in SUBSET Names, ans \in [Names -> {-1, 0, 1, 2, 1000000}] :
               /\ par' = [x \in Names |-> IF on /\ usable /\ x \in asked /\ ans[x] > 0 THEN ans[x] ELSE par[x]]
               /\ UNCHANGED <<on, usable>>
Spec == Init /\ [][Step \/ Abstract]_vars
Legal == \A x \in Names : par[x] >= 1
\* nothing but the user changes parameters when tuning is off or there is no script
Quiet == [][~(on /\ usable) /\ Gen => (par' = par \/ par' = Default \/ \E x \in Names, v \in Vals : par' = [par EXCEPT ![x] = v])]_vars
===============================================================================
