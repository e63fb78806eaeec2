------------------------------- MODULE ApiArgs --------------------------------
(* Legality of the arguments of every public routine, and what a call with an *)
(* illegal argument does: it returns -i for the first illegal argument i,     *)
(* touches no operand, changes nothing and keeps no memory.  A legal call     *)
(* with an empty dimension succeeds.                                          *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
CONSTANT Cx
Progs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES pi, l
NB == Progs[pi].nb
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
Ceil(a) == (a + NB - 1) \div NB
Flip(t, m, n) == IF t = "NoTrans" THEN m ELSE n        \* rows of X when op(X) is m-by-n

Order(a) == IF a.side = "Left" THEN a.m ELSE a.n

\* rows of the array behind a leading dimension
Rows(o, a, x) ==
  CASE o = "gemm" -> (CASE x = "lda" -> Flip(a.transa, a.m, a.k) [] x = "ldb" -> Flip(a.transb, a.k, a.n) [] x = "ldc" -> a.m)
    [] o = "gbmm" -> (CASE x = "lda" -> Flip(a.transa, a.m, a.k) [] x = "ldb" -> Flip(a.transb, a.k, a.n) [] x = "ldc" -> a.m)
    [] o \in {"symm", "hemm"} -> (CASE x = "lda" -> Order(a) [] OTHER -> a.m)
    [] o \in {"syrk", "herk", "syr2k", "her2k"} -> (CASE x = "ldc" -> a.n [] OTHER -> Flip(a.trans, a.n, a.k))
    [] o \in {"trmm", "trsm"} -> (CASE x = "lda" -> Order(a) [] x = "ldb" -> a.m)
    [] o \in {"geadd", "tradd"} -> (CASE x = "lda" -> Flip(a.transa, a.m, a.n) [] x = "ldb" -> a.m)
    [] o = "lacpy" -> (CASE x = "lda" -> a.m [] x = "ldb" -> Flip(a.transa, a.m, a.n))
    [] o \in {"laset", "lascl", "gbset", "geswp", "zlag2c", "clag2z", "lange", "lantr", "amax", "getrf", "geinv", "geqrf", "gelqf"} -> a.m
    [] o \in {"lansy", "lanhe", "lauum", "trtri", "potrf", "potri", "poinv", "getri", "getri_aux"} -> a.n
    [] o \in {"posv", "potrs", "zcposv", "gesv", "getrs", "zcgesv"} -> a.n
    [] o \in {"pbtrf", "pbsv", "pbtrs"} -> (CASE x = "ldab" -> a.kd + 1 [] x = "ldb" -> a.n)
    [] o \in {"gbtrf", "gbsv", "gbtrs", "zcgbsv"} -> (CASE x \in {"lda", "ldab"} -> a.kl + a.ku + 1 [] OTHER -> a.n)
    [] o = "langb" -> a.kl + a.ku + 1
    [] o = "gels" -> (CASE x = "lda" -> a.m [] x = "ldb" -> Max(a.m, a.n))
    [] o \in {"geqrs", "gelqs"} -> (CASE x = "lda" -> a.m [] x = "ldb" -> Max(a.m, a.n))
    [] o = "ungqr" -> a.m
    [] o = "unglq" -> a.m
    [] o = "unmqr" -> (CASE x = "lda" -> Order(a) [] x = "ldc" -> a.m)
    [] o = "unmlq" -> (CASE x = "lda" -> a.k [] x = "ldc" -> a.m)
    [] o \in {"hetrf", "hetrs", "hesv"} -> a.n
    [] o = "gesdd" -> (CASE x = "lda" -> a.m
                          [] x = "ldu" -> IF a.jobu = "NoVec" THEN 1 ELSE a.m
                          [] x = "ldvt" -> (CASE a.jobvt = "AllVec" -> a.n [] a.jobvt = "SomeVec" -> (IF a.m < a.n THEN a.m ELSE a.n) [] OTHER -> 1))

\* value v of argument x is legal
Ok(o, a, x) ==
  LET v == a[x] IN
  CASE x \in {"transa", "transb"} -> v \in {"NoTrans", "Trans", "ConjTrans"}
    [] x = "trans" -> (CASE o \in {"getrs"} -> v \in {"NoTrans", "Trans", "ConjTrans"}
                         [] o \in {"syrk", "syr2k"} -> v \in {"NoTrans", "Trans"} \cup (IF Cx THEN {} ELSE {"ConjTrans"})
                         [] o \in {"herk", "her2k"} -> v \in {"NoTrans", "ConjTrans"}
                         [] OTHER -> v \in {"NoTrans", IF Cx THEN "ConjTrans" ELSE "Trans"})
    [] x = "uplo" /\ o \in {"hetrf", "hetrs", "hesv"} -> v = "Lower"
    [] x = "jobtype" -> v \in {"Vec", "NoVec", "Count"}
    [] x = "range" -> v \in {"RangeV", "RangeI"}
    [] x = "vl" -> (a.range = "RangeV" => v < a.vu)
    [] x = "il" -> (a.range = "RangeI" => v >= 1 /\ v <= Max(1, a.n))
    [] x = "iu" -> (a.range = "RangeI" => v <= a.n /\ v >= Min(a.n, a.il))
    [] x = "jobu" -> v \in {"NoVec", "AllVec", "SomeVec"}
    [] x = "jobvt" -> v = a.jobu
    [] x = "uplo" -> v \in {"Upper", "Lower"} \cup (IF o \in {"lacpy", "laset", "lascl", "tradd"} THEN {"General"} ELSE {})
    [] x = "side" -> v \in {"Left", "Right"}
    [] x = "diag" /\ o # "stevx2" -> v \in {"Unit", "NonUnit"}
    [] x = "norm" -> v \in {"MaxNorm", "OneNorm", "InfNorm", "FrobeniusNorm"}
    [] x = "colrow" -> v \in {"Columnwise", "Rowwise"}
    [] x = "m" -> v >= 0
    [] x = "n" -> v >= 0 /\ (o = "ungqr" => v <= a.m) /\ (o = "unglq" => v >= a.m)
    [] x = "k" -> v >= 0 /\ (o = "ungqr" => v <= a.n) /\ (o = "unglq" => v <= a.m) /\ (o \in {"unmqr", "unmlq"} => v <= Order(a))
    [] x \in {"nrhs", "kl", "ku", "kd"} -> v >= 0
    [] x \in {"lda", "ldb", "ldc", "ldab", "ldas", "ldq", "ldx", "ldu", "ldvt"} -> v >= Max(1, Rows(o, a, x))
    [] OTHER -> TRUE

Illegal(e) == {i \in DOMAIN e.args : ~Ok(e.op, e.a, e.args[i])}
Empty(a) == \E x \in {"m", "n", "nrhs"} : x \in DOMAIN a /\ a[x] = 0

Component == -108     \* LAPACK found something wrong inside: not a statement about an argument
Verdict(e) ==
  LET I == Illegal(e)
      w == IF I = {} THEN 0 ELSE SetMin(I)
  IN IF w > 0
     THEN CASE ~e.int /\ e.ret >= 0 -> "accepted"
            [] e.int /\ e.ret = 0 -> "accepted"
            [] e.int /\ e.ret # -w -> "code"
            [] e.touched -> "touched"
            [] e.left > 0 -> "leak"
            [] OTHER -> "ok"
     ELSE CASE e.op = "stevx2" /\ e.ret = -4 /\ e.a.k < e.a.n -> "ok"       \* too little room for what was found: Contract.tla
            [] e.int /\ e.ret < 0 /\ e.ret # Component -> "refused"
            [] e.left > 0 -> "leak"
            [] OTHER -> "ok"

Init == pi \in 1..Len(Progs) /\ l = 1
Step == /\ l <= Len(Progs[pi].ev)
        /\ LET e == Progs[pi].ev[l]
               v == Verdict(e)
           IN IF v = "ok" THEN TRUE ELSE PrintT(<<"REJECT", Progs[pi].id, l, e.op, v, IF Illegal(e) = {} THEN 0 ELSE SetMin(Illegal(e)), e.ret>>)
        /\ l' = l + 1 /\ UNCHANGED pi
Spec == Init /\ [][Step]_<<pi, l>>
=============================================================================
