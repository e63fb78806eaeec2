------------------------------ MODULE Footprint ------------------------------
(* Which elements of each operand a public routine refers to, may change, and *)
(* may depend on.                                                             *)
(*                                                                            *)
(* State of a client program: for each operand, the set of positions that     *)
(* still hold junk (never given a value the documentation defines).  A call   *)
(*  - changes elements of the documented part of its output operands only,    *)
(*  - reaches memory only inside the rows and columns of the operand (the     *)
(*    translation to tiles copies whole matrices), never in the padding,      *)
(*  - does not let junk outside the part flow anywhere.                       *)
(* Every program was run twice with different junk; `dep' lists the positions *)
(* whose contents differ between the two runs after the call, `chg' those     *)
(* that changed in the call, `tch' those that were read or written.           *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC

Progs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES pi, l, junk
vars == <<pi, l, junk>>
NB == Progs[pi].nb
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Rng(s) == {s[k] : k \in DOMAIN s}

Gen(m, n) == (1..m) \X (1..n)
Tri(uplo, diag, m, n) ==
  {p \in Gen(m, n) : /\ diag = "Unit" => p[1] # p[2]
                     /\ CASE uplo = "Upper" -> p[1] <= p[2] [] uplo = "Lower" -> p[1] >= p[2] [] OTHER -> TRUE}
Band(m, n, kl, ku) == {p \in Gen(m, n) : p[2] - p[1] <= ku /\ p[1] - p[2] <= kl}
\* LAPACK band storage: element (i, j) of the matrix in row off+1+i-j
Stored(m, n, lo, hi, off, rows) == {p \in (1..rows) \X (1..n) : LET d == p[1] - 1 - off IN d <= lo /\ -d <= hi /\ p[2] + d >= 1 /\ p[2] + d <= m}
Vec(n) == Gen(n, 1)
Flip(t, m, n) == IF t = "NoTrans" THEN Gen(m, n) ELSE Gen(n, m)
Turn(t, S) == IF t = "NoTrans" THEN S ELSE {<<p[2], p[1]>> : p \in S}
\* a parameter of a call: the documented part, the elements that may be reached, whether it is an output
RT(uplo, diag, m, n, w) == [p |-> Tri(uplo, diag, m, n), c |-> Gen(m, n), w |-> w]
G(m, n, w) == [p |-> Gen(m, n), c |-> Gen(m, n), w |-> w]
\* the same part of the transposed matrix
RTT(t, uplo, m, n, w) == IF t = "NoTrans" THEN RT(uplo, "NonUnit", m, n, w)
                         ELSE RT(CASE uplo = "Upper" -> "Lower" [] uplo = "Lower" -> "Upper" [] OTHER -> uplo, "NonUnit", n, m, w)
F(S, w) == [p |-> S, c |-> S, w |-> w]
In == FALSE
Out == TRUE
None == [p |-> {}, c |-> {}, w |-> FALSE]

Side(a) == IF a.side = "Left" THEN a.m ELSE a.n
SymBand(a, w) == LET S == IF a.uplo = "Upper" THEN Stored(a.n, a.n, 0, a.kd, a.kd, a.kd + 1) ELSE Stored(a.n, a.n, a.kd, 0, 0, a.kd + 1)
                 IN [p |-> S, c |-> (1..(a.kd + 1)) \X (1..a.n), w |-> w]
\* LU band storage: kl more rows for fill-in, whole tiles; interchanges move multipliers within the tiles of a panel
LuRows(a) == (((a.kl + a.ku + NB - 1) \div NB) + ((a.kl + NB - 1) \div NB) + 1) * NB
LuBand(a, n, w) == LET S == {p \in (1..LuRows(a)) \X (1..n) : LET i == p[1] - 1 - a.kl - a.ku + p[2] IN i >= 1 /\ i <= n}
                   IN [p |-> S, c |-> S, w |-> w]
\* the band matrix of Aasen's factorization: at most NB sub- and superdiagonals in the storage of an LU band matrix
AasenBand(a, w) == LET kd == Min(NB, a.n - 1)
                       L == LuBand([kl |-> kd, ku |-> kd], a.n, w)
                       \* whole tiles, one below the diagonal
                       S == {p \in L.p : (p[1] - 1 - 2*kd + p[2] - 1) \div NB <= (p[2] - 1) \div NB + 1}
                   IN [p |-> S, c |-> S, w |-> w]

\* formal parameter x of the call
Par(e, x) ==
  LET a == e.a
      o == e.op
      tri(w) == RT(a.uplo, "NonUnit", a.n, a.n, w)
  IN CASE o = "gemm" -> (CASE x = "A" -> LET S == Flip(a.transa, a.m, a.k) IN F(S, In)
                          [] x = "B" -> F(Flip(a.transb, a.k, a.n), In)
                          [] x = "C" -> G(a.m, a.n, Out))
       [] o \in {"symm", "hemm"} -> (CASE x = "A" -> RT(a.uplo, "NonUnit", Side(a), Side(a), In)
                          [] x = "B" -> G(a.m, a.n, In)
                          [] x = "C" -> G(a.m, a.n, Out))
       [] o \in {"syrk", "herk", "syr2k", "her2k"} -> (CASE x \in {"A", "B"} -> F(Flip(a.trans, a.n, a.k), In)
                          [] x = "C" -> tri(Out))
       [] o \in {"trmm", "trsm"} -> (CASE x = "A" -> RT(a.uplo, a.diag, Side(a), Side(a), In)
                          [] x = "B" -> G(a.m, a.n, Out))
       [] o = "gbmm" -> (CASE x = "A" -> LET d == IF a.transa = "NoTrans" THEN <<a.m, a.k>> ELSE <<a.k, a.m>>
                                        IN [p |-> Band(d[1], d[2], a.kl, a.ku), c |-> Gen(d[1], d[2]), w |-> In]
                          [] x = "B" -> F(Flip(a.transb, a.k, a.n), In)
                          [] x = "C" -> G(a.m, a.n, Out))
       [] o = "geadd" -> (CASE x = "A" -> F(Flip(a.transa, a.m, a.n), In) [] x = "B" -> G(a.m, a.n, Out))
       [] o = "tradd" -> (CASE x = "B" -> RT(a.uplo, "NonUnit", a.m, a.n, Out)
                          [] x = "A" -> RTT(a.transa, a.uplo, a.m, a.n, In))
       [] o = "lacpy" -> (CASE x = "A" -> RT(a.uplo, "NonUnit", a.m, a.n, In)
                          [] x = "B" -> RTT(a.transa, a.uplo, a.m, a.n, Out))
       [] o \in {"laset", "lascl"} -> (RT(a.uplo, "NonUnit", a.m, a.n, Out))
       [] o = "gbset" -> (G(a.m, a.n, Out))
       [] o = "geswp" -> (CASE x = "A" -> G(a.m, a.n, Out) [] x = "ipiv" -> F(Vec(IF a.colrow = "Rowwise" THEN a.m ELSE a.n), In))
       [] o = "lauum" -> (tri(Out))
       [] o = "trtri" -> (RT(a.uplo, a.diag, a.n, a.n, Out))
       [] o \in {"zlag2c", "clag2z"} -> (G(a.m, a.n, (o = "zlag2c") = (x = "As")))
       [] o = "lange" -> (G(a.m, a.n, In))
       [] o \in {"lansy", "lanhe"} -> (tri(In))
       [] o = "lantr" -> (RT(a.uplo, a.diag, a.m, a.n, In))
       [] o = "amax" -> (CASE x = "A" -> G(a.m, a.n, In) [] x = "values" -> F(Vec(IF a.colrow = "Columnwise" THEN a.n ELSE a.m), Out))
       [] o \in {"potrf", "potri", "poinv"} -> (tri(Out))
       [] o \in {"posv", "potrs", "zcposv"} -> (CASE x = "A" -> tri(o = "posv")
                          [] x = "B" -> G(a.n, a.nrhs, o # "zcposv")
                          [] x = "X" -> G(a.n, a.nrhs, Out)
                          [] x = "iter" -> F(Vec(1), Out))
       [] o \in {"pbtrf", "pbsv", "pbtrs"} -> (CASE x = "AB" -> SymBand(a, o # "pbtrs") [] x = "B" -> G(a.n, a.nrhs, Out))
       [] o = "getrf" -> (CASE x = "A" -> G(a.m, a.n, Out) [] x = "ipiv" -> F(Vec(Min(a.m, a.n)), Out))
       [] o = "geinv" -> (CASE x = "A" -> G(a.m, a.n, Out) [] x = "ipiv" -> F(Vec(Min(a.m, a.n)), Out))
       [] o \in {"getri", "getri_aux"} -> (CASE x = "A" -> G(a.n, a.n, Out) [] x = "ipiv" -> F(Vec(a.n), In))
       [] o \in {"gesv", "getrs", "zcgesv"} -> (CASE x = "A" -> G(a.n, a.n, o = "gesv")
                          [] x = "ipiv" -> F(Vec(a.n), o # "getrs")
                          [] x = "B" -> G(a.n, a.nrhs, o # "zcgesv")
                          [] x = "X" -> G(a.n, a.nrhs, Out)
                          [] x = "iter" -> F(Vec(1), Out))
       [] o \in {"gbtrf", "gbtrs", "gbsv", "zcgbsv"} -> (CASE x \in {"A", "AB"} -> LuBand(a, a.n, o \in {"gbtrf", "gbsv"})
                          [] x = "ipiv" -> F(Vec(a.n), o # "gbtrs")
                          [] x = "B" -> G(a.n, a.nrhs, o # "zcgbsv")
                          [] x = "X" -> G(a.n, a.nrhs, Out)
                          [] x = "iter" -> F(Vec(1), Out))
       [] o = "langb" -> (LET off == a.kl + a.ku
                          IN [p |-> Stored(a.m, a.n, a.kl, a.ku, off, LuRows(a)),
                              c |-> {q \in (1..LuRows(a)) \X (1..a.n) : LET i == q[1] - 1 - off + q[2] IN i >= 1 /\ i <= a.m}, w |-> In])
       [] o \in {"hetrf", "hesv", "hetrs"} -> (CASE x = "A" -> RT("Lower", "NonUnit", a.n, a.n, o # "hetrs")
                          [] x = "T" -> AasenBand(a, o # "hetrs")
                          [] x \in {"ipiv", "ipiv2"} -> F(Vec(a.n), o # "hetrs")
                          [] x = "B" -> G(a.n, a.nrhs, Out))
       [] o = "gesdd" -> (LET k == Min(a.m, a.n)
                              nu == CASE a.jobu = "AllVec" -> a.m [] a.jobu = "SomeVec" -> k [] OTHER -> 0
                              nv == CASE a.jobvt = "AllVec" -> a.n [] a.jobvt = "SomeVec" -> k [] OTHER -> 0
                          IN CASE x = "A" -> G(a.m, a.n, Out)
                               [] x = "S" -> F(Vec(k), Out)
                               [] x = "U" -> G(a.m, nu, Out)
                               [] x = "VT" -> G(nv, a.n, Out))
       [] o = "stevx2" -> (CASE x = "diag" -> F(Vec(a.n), In)
                               [] x = "offd" -> F(Vec(Max(0, a.n - 1)), In)
                               [] x = "Found" -> F(Vec(1), Out)
                               [] x \in {"Val", "Mul"} -> F(Vec(Min(a.k, a.n)), Out)
                               [] x = "Vec" -> G(a.n, Min(a.k, a.n), Out))
       [] o \in {"geqrf", "gelqf"} -> (G(a.m, a.n, Out))
       [] o = "gels" -> (CASE x = "A" -> G(a.m, a.n, Out) [] x = "B" -> G(Max(a.m, a.n), a.nrhs, Out))
       [] o = "geqrs" -> (CASE x = "A" -> G(a.m, a.n, In) [] x = "B" -> G(Max(a.m, a.n), a.nrhs, Out))
       [] o = "gelqs" -> (CASE x = "A" -> G(a.m, a.n, In) [] x = "B" -> G(Max(a.m, a.n), a.nrhs, Out))
       [] o = "ungqr" -> (CASE x = "A" -> G(a.m, a.k, In) [] x = "Q" -> G(a.m, a.n, Out))
       [] o = "unglq" -> (CASE x = "A" -> G(a.k, a.n, In) [] x = "Q" -> G(a.m, a.n, Out))
       [] o = "unmqr" -> (CASE x = "A" -> G(Side(a), a.k, In) [] x = "C" -> G(a.m, a.n, Out))
       [] o = "unmlq" -> (CASE x = "A" -> G(a.k, Side(a), In) [] x = "C" -> G(a.m, a.n, Out))

\* what the call means for the operand (variable of the client) v
For(e, v) == LET X == {x \in Rng(e.ops) : e.a[x] = v} IN IF X = {} THEN None ELSE Par(e, CHOOSE x \in X : TRUE)
At(f, v) == IF v \in DOMAIN f THEN Rng(f[v]) ELSE {}

\* a system without right-hand sides is not even factored
Computes(e) == e.ret = 0 /\ ("nrhs" \in DOMAIN e.a => e.a.nrhs > 0)
Within(S, P) == \A q \in S : q \in P
JunkAfter(e, v) == LET r == For(e, v) IN IF r.w /\ Computes(e) THEN {q \in junk[v] : q \notin r.p} ELSE junk[v]
Changed(e, v) == IF For(e, v).w THEN Within(At(e.chg, v), For(e, v).p) ELSE At(e.chg, v) = {}
Reached(e, v) == Within(At(e.tch, v), For(e, v).c)
Flows(e, v) == /\ Within(At(e.dep, v), junk[v])
               /\ For(e, v).w /\ Computes(e) /\ e.op # "stevx2" => \A q \in At(e.dep, v) : q \notin For(e, v).p
Verdict(e, v) == CASE ~Changed(e, v) -> "changed" [] ~Reached(e, v) -> "reached" [] ~Flows(e, v) -> "depends" [] OTHER -> "ok"

Init == /\ pi \in 1..Len(Progs) /\ l = 1
        /\ junk = [v \in DOMAIN Progs[pi].junk |-> Rng(Progs[pi].junk[v])]
Step == /\ l <= Len(Progs[pi].ev)
        /\ LET e == Progs[pi].ev[l] IN
           /\ \A v \in DOMAIN junk : IF Verdict(e, v) = "ok" THEN TRUE ELSE PrintT(<<"REJECT", Progs[pi].id, l, e.op, Verdict(e, v), v>>)
           /\ IF e.retdep THEN PrintT(<<"REJECT", Progs[pi].id, l, e.op, "depends", "return value">>) ELSE TRUE
           /\ junk' = [v \in DOMAIN junk |-> JunkAfter(e, v)]
        /\ l' = l + 1 /\ UNCHANGED pi
Spec == Init /\ [][Step]_vars
View == <<pi, l>>
=============================================================================
