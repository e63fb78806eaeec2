------------------------------ MODULE Kernel ------------------------------
(* Contract of the tile kernels, plasma_core_xyz: what one kernel call does  *)
(* to its operands.  Kernels that have a public routine of the same name and *)
(* arguments share its contract (Contract.tla); the others are here: norms   *)
(* and sums of squares returned through pointers, the reduction of the       *)
(* generalised eigenproblem, the QR and LQ kernels of one tile (geqrt), of a *)
(* triangle on top of a tile (tsqrt) and of two triangles (ttqrt) with the   *)
(* kernels that apply their reflectors, and the pentagonal products these    *)
(* are made of (pemv, parfb).                                                *)
(* A client learns the orthogonal matrix behind reflectors by applying them  *)
(* to the identity; every other application must then agree with it.         *)
EXTENDS Contract

IsEye(X, n) == \A i \in 1..n : \A j \in 1..n : X[i][j] = (IF i = j THEN I2N(Q) ELSE Zero)

\* -------------------------------------------------------------- norms and sums of squares
Val(e, x) == Post(e, x)[1][1]                          \* the 1-by-1 operands scale, sumsq, value are real
NormInto(e, S, m, n) == e.ret = 0 /\ Frame(e, {e.a.value, e.a.work}) /\ NormOf(e.a.norm, S, m, n, Val(e, e.a.value))
KLange(e) == LET a == e.a IN NormInto(e, Moduli(M0(a.A), a.m, a.n, All2), a.m, a.n)
KLansy(e) == LET a == e.a
                 W == Moduli(M0(a.A), a.n, a.n, LAMBDA i,j : InTri(a.uplo, "NonUnit", i, j))
             IN NormInto(e, Mat(a.n, a.n, LAMBDA i,j : IF InTri(a.uplo, "NonUnit", i, j) THEN W[i][j] ELSE W[j][i]), a.n, a.n)
KLantr(e) == LET a == e.a
                 W == Moduli(M0(a.A), a.m, a.n, LAMBDA i,j : InTri(a.uplo, a.diag, i, j))
             IN NormInto(e, Mat(a.m, a.n, LAMBDA i,j : IF i = j /\ a.diag = "Unit" THEN 1 ELSE W[i][j]), a.m, a.n)
\* scale^2 * sumsq grows by the sum of the squares of the moduli of S; every scale here is an integer
Grow(e, S, m, n) ==
  LET a == e.a
      s0 == M0(a.scale)[1][1]
      q0 == M0(a.sumsq)[1][1]
      s1 == Val(e, a.scale)
      q1 == Val(e, a.sumsq)
      t  == (s0 \div Q) * (s0 \div Q) * (q0 \div Q) + SumTo([i \in 1..m |-> SumTo([j \in 1..n |-> S[i][j] * S[i][j]], n)], m)
      k  == s1 \div Q
  IN /\ e.ret = 0 /\ Frame(e, {a.scale, a.sumsq})
     /\ s1 >= 0 /\ s1 < 20 * Q /\ s1 % Q = 0 /\ q1 >= 0 /\ q1 < 1000 * Q
     /\ AbsI(k * k * q1 - Q * t) <= k * k
KGessq(e) == LET a == e.a IN Grow(e, Moduli(M0(a.A), a.m, a.n, All2), a.m, a.n)
KSyssq(e) == LET a == e.a
                 W == Moduli(M0(a.A), a.n, a.n, LAMBDA i,j : InTri(a.uplo, "NonUnit", i, j))
             IN Grow(e, Mat(a.n, a.n, LAMBDA i,j : IF InTri(a.uplo, "NonUnit", i, j) THEN W[i][j] ELSE W[j][i]), a.n, a.n)
KTrssq(e) == LET a == e.a
                 W == Moduli(M0(a.A), a.m, a.n, LAMBDA i,j : InTri(a.uplo, a.diag, i, j))
             IN Grow(e, Mat(a.m, a.n, LAMBDA i,j : IF i = j /\ a.diag = "Unit" THEN 1 ELSE W[i][j]), a.m, a.n)

\* -------------------------------------------------------------- generalised eigenproblem, exact (q = 1)
KHegst(e) ==
  LET a == e.a
      n == a.n
      U == TriM(M0(a.B), n, n, a.uplo, "NonUnit", 1)
      UH == AdjM(U, n, n)
      A0 == HerM(M0(a.A), n, a.uplo)
      F == Post(e, a.A)
      A1h == HerM(F, n, a.uplo)
      P(i,j) == InTri(a.uplo, "NonUnit", i, j)
      Prod(X, Y, Z) == MulM(MulM(X, Y, n, n, n), Z, n, n, n)
  IN /\ e.ret = 0 /\ Frame(e, {a.A}) /\ NumPart(F, n, n, P)
     /\ \A i \in 1..n : Im(F[i][i]) = 0
     /\ EqPart(F, M0(a.A), n, n, LAMBDA i,j : ~P(i,j))
     /\ IF a.itype = 1 THEN EqM(IF a.uplo = "Upper" THEN Prod(UH, A1h, U) ELSE Prod(U, A1h, UH), A0, n, n)
                       ELSE EqM(A1h, IF a.uplo = "Upper" THEN Prod(U, A0, UH) ELSE Prod(UH, A0, U), n, n)

\* -------------------------------------------------------------- reflectors of one tile
KFactor(e) == LET a == e.a IN e.ret = 0 /\ Frame(e, {a.A, a.T, a.tau, a.work}) /\ NumM(Post(e, a.A), a.m, a.n)
\* the factor R (or L) and Q give the tile back
BackQr(f, R, Qm) ==
  LET k == MinI(f.m, f.n)
      Rk == Mat(k, f.n, LAMBDA i,j : IF i <= j THEN R[i][j] ELSE Zero)
      Q1 == Mat(f.m, k, LAMBDA i,j : Qm[i][j])
  IN NearProd(Q1, Rk, f.V, f.m, k, f.n, Q, All2)
BackLq(f, L, Qm) ==
  LET k == MinI(f.m, f.n)
      Lk == Mat(f.m, k, LAMBDA i,j : IF i >= j THEN L[i][j] ELSE Zero)
  IN NearProd(Lk, Qm, f.V, f.m, k, f.n, Q, All2)
KApply(e) ==
  LET a == e.a
      C1 == Post(e, a.C)
      f  == fct[a.A]
      o  == IF a.side = "Left" THEN a.m ELSE a.n
      kk == MinI(f.m, f.n)
      first(X, n) == \A i \in 1..o : \A j \in 1..n : X[i][j] = (IF i = j THEN I2N(Q) ELSE Zero)
  IN /\ e.ret = 0 /\ Frame(e, {a.C, a.work}) /\ NumM(C1, a.m, a.n)
     /\ IF ~Has(f, "Qm")                              \* first application: to the identity
        THEN IsEye(M0(a.C), o) /\ Orthonormal(C1, o, o, Q) /\ (IF f.k = "qr" THEN BackQr(f, M0(a.A), C1) ELSE BackLq(f, M0(a.A), C1))
        ELSE IF a.k = kk
        THEN LET O == Apply(a.trans, f.Qm, o, o)
             IN IF a.side = "Left" THEN NearProd(O, M0(a.C), C1, a.m, a.m, a.n, Q, All2) ELSE NearProd(M0(a.C), O, C1, a.m, a.n, a.n, Q, All2)
        ELSE IF f.k = "qr"                            \* fewer reflectors, applied to as many unit vectors
        THEN \A i \in 1..a.m : \A j \in 1..a.n : Near(C1[i][j], f.Qm[i][j], 2)
        ELSE \A i \in 1..a.m : \A j \in 1..a.n : Near(C1[i][j], f.Qm[i][j], 2)

\* -------------------------------------------------------------- reflectors of two coupled tiles
\* QR: A1 (n-by-n, upper) on top of A2 (m-by-n; upper if tt); LQ: A1 (m-by-m, lower) beside A2 (m-by-n; lower if tt)
QrPart(tt, i, j) == ~tt \/ i <= j
LqPart(tt, i, j) == ~tt \/ i >= j
KPair(e, qr, tt) ==
  LET a == e.a
      k == IF qr THEN a.n ELSE a.m
      P(i,j) == IF qr THEN QrPart(tt, i, j) ELSE LqPart(tt, i, j)
      D(i,j) == IF qr THEN i <= j ELSE i >= j
  IN /\ e.ret = 0 /\ Frame(e, {a.A1, a.A2, a.T, a.tau, a.work})
     /\ NumPart(Post(e, a.A1), k, k, D) /\ NumPart(Post(e, a.A2), a.m, a.n, P)
     /\ EqPart(Post(e, a.A1), M0(a.A1), k, k, LAMBDA i,j : ~D(i,j))
     /\ EqPart(Post(e, a.A2), M0(a.A2), a.m, a.n, LAMBDA i,j : ~P(i,j))
\* the coupled matrix before and the triangle after
Coupled(e, qr, tt) ==
  LET a == e.a IN
  IF qr THEN Mat(a.n + a.m, a.n, LAMBDA i,j : IF i <= a.n THEN (IF i <= j THEN M0(a.A1)[i][j] ELSE Zero)
                                              ELSE IF QrPart(tt, i - a.n, j) THEN M0(a.A2)[i - a.n][j] ELSE Zero)
  ELSE Mat(a.m, a.m + a.n, LAMBDA i,j : IF j <= a.m THEN (IF i >= j THEN M0(a.A1)[i][j] ELSE Zero)
                                        ELSE IF LqPart(tt, i, j - a.m) THEN M0(a.A2)[i][j - a.m] ELSE Zero)
Triangle(e, qr) ==
  LET k == IF qr THEN e.a.n ELSE e.a.m
  IN Mat(k, k, LAMBDA i,j : IF (qr /\ i <= j) \/ (~qr /\ i >= j) THEN Post(e, e.a.A1)[i][j] ELSE Zero)
\* side Left: the rows 1..k of B1 and all rows of B2; side Right: the columns
Joined(X, Y, a) ==
  IF a.side = "Left" THEN Mat(a.k + a.m2, a.n1, LAMBDA i,j : IF i <= a.k THEN X[i][j] ELSE Y[i - a.k][j])
  ELSE Mat(a.m1, a.k + a.n2, LAMBDA i,j : IF j <= a.k THEN X[i][j] ELSE Y[i][j - a.k])
KApply2(e) ==
  LET a  == e.a
      X0 == Joined(M0(a.A1), M0(a.A2), a)
      X1 == Joined(Post(e, a.A1), Post(e, a.A2), a)
      f  == fct[a.V]
      o  == IF a.side = "Left" THEN a.k + a.m2 ELSE a.k + a.n2
      O  == Apply(a.trans, f.Qm, o, o)
  IN /\ e.ret = 0 /\ Frame(e, {a.A1, a.A2, a.work})
     /\ NumM(Post(e, a.A1), a.m1, a.n1) /\ NumM(Post(e, a.A2), a.m2, a.n2)
     /\ \A i \in 1..a.m1 : \A j \in 1..a.n1 :          \* what lies beyond the k rows or columns is left alone
          (IF a.side = "Left" THEN i > a.k ELSE j > a.k) => Post(e, a.A1)[i][j] = M0(a.A1)[i][j]
     /\ IF ~Has(f, "Qm")
        THEN /\ IsEye(X0, o) /\ Orthonormal(X1, o, o, Q)
             /\ IF f.qr THEN NearProd(X1, f.R, f.V, o, a.k, a.k, Q, All2) ELSE NearProd(f.R, X1, f.V, a.k, a.k, o, Q, All2)
        ELSE IF a.side = "Left" THEN NearProd(O, X0, X1, o, o, a.n1, Q, All2) ELSE NearProd(X0, O, X1, a.m1, o, o, Q, All2)

\* -------------------------------------------------------------- pentagonal operands, exact (q = 1)
\* Columnwise: the last l rows of the first l columns are an upper triangle; Rowwise: the first l rows of the last l
\* columns are a lower triangle
Penta(M, m, n, lt, storev) ==
  Mat(m, n, LAMBDA i,j : IF storev = "Columnwise" THEN (IF j <= lt /\ i > m - lt + j THEN Zero ELSE M[i][j])
                         ELSE (IF i <= lt /\ j > n - lt + i THEN Zero ELSE M[i][j]))
KPemv(e) ==
  LET a == e.a
      A == Penta(M0(a.A), a.m, a.n, a.l, a.storev)
      O == Apply(a.trans, A, a.m, a.n)
      d == OpDims(a.trans, a.m, a.n)
      X == Mat(d[2], 1, LAMBDA i,j : M0(a.X)[1][i])
      AX == MulM(O, X, d[1], d[2], 1)
      Y0 == M0(a.Y)
      Y1 == Post(e, a.Y)
  IN /\ e.ret = 0 /\ Frame(e, {a.Y, a.work})
     /\ \A i \in 1..d[1] : Y1[1][i] = Add(IF ZeroN(a.alpha) THEN Zero ELSE Mul(a.alpha, AX[i][1]), IF ZeroN(a.beta) THEN Zero ELSE Mul(a.beta, Y0[1][i]))
\* H = I - W*T*W^H with W = [I; V] (columnwise) or W^H = [I V] (rowwise): H or H^H from the left of [A1; A2] or the right of [A1 A2]
KParfb(e) ==
  LET a  == e.a
      k  == a.k
      p  == IF a.side = "Left" THEN a.m2 ELSE a.n2
      col == a.storev = "Columnwise"
      V0 == IF col THEN Penta(M0(a.V), p, k, a.l, a.storev) ELSE Penta(M0(a.V), k, p, a.l, a.storev)
      Vc == IF col THEN V0 ELSE AdjM(V0, k, p)
      W  == Mat(k + p, k, LAMBDA i,j : IF i <= k THEN (IF i = j THEN One ELSE Zero) ELSE Vc[i - k][j])
      TT == Apply(a.trans, TriM(M0(a.T), k, k, "Upper", "NonUnit", 1), k, k)
      H  == LET G == MulM(MulM(W, TT, k + p, k, k), AdjM(W, k + p, k), k + p, k, k + p)
            IN Mat(k + p, k + p, LAMBDA i,j : Sub(IF i = j THEN One ELSE Zero, G[i][j]))
      X0 == Joined(M0(a.A1), M0(a.A2), a)
      X1 == Joined(Post(e, a.A1), Post(e, a.A2), a)
  IN /\ e.ret = 0 /\ Frame(e, {a.A1, a.A2, a.work})
     /\ IF a.side = "Left" THEN EqM(X1, MulM(H, X0, k + p, k + p, a.n1), k + p, a.n1)
                           ELSE EqM(X1, MulM(X0, H, a.m1, k + p, k + p), a.m1, k + p)
     /\ \A i \in 1..a.m1 : \A j \in 1..a.n1 :
          (IF a.side = "Left" THEN i > k ELSE j > k) => Post(e, a.A1)[i][j] = M0(a.A1)[i][j]

\* W = A1 + op(V)*A2 (or A2*op(V)); A2 = A2 - op(V)*W (or W*op(V)), V pentagonal
KPamm(e) ==
  LET a    == e.a
      left == a.side = "Left"
      d    == IF left THEN <<a.m, a.k>> ELSE <<a.k, a.n>>
      tr   == (a.storev = "Columnwise") = (left = (a.op = "W"))
      V0   == IF tr THEN Penta(M0(a.V), d[2], d[1], a.l, a.storev) ELSE Penta(M0(a.V), d[1], d[2], a.l, a.storev)
      O    == IF tr THEN AdjM(V0, d[2], d[1]) ELSE V0
      from == IF a.op = "W" THEN M0(a.A1) ELSE M0(a.A2)
      with == IF a.op = "W" THEN M0(a.A2) ELSE M0(a.W)
      out  == Post(e, IF a.op = "W" THEN a.W ELSE a.A2)
      P    == IF left THEN MulM(O, with, a.m, a.k, a.n) ELSE MulM(with, O, a.m, a.k, a.n)
  IN /\ e.ret = 0 /\ Frame(e, IF a.op = "W" THEN {a.W} ELSE {a.A2, a.W})
     /\ \A i \in 1..a.m : \A j \in 1..a.n : out[i][j] = IF a.op = "W" THEN Add(from[i][j], P[i][j]) ELSE Sub(from[i][j], P[i][j])
\* H = I - V*T*V^H, V with explicit zeros and ones
KLarfb(e) ==
  LET a == e.a
      o == IF a.side = "Left" THEN a.M ELSE a.N
      V == M0(a.V)
      TT == Apply(a.trans, TriM(M0(a.T), a.K, a.K, "Upper", "NonUnit", 1), a.K, a.K)
      G == MulM(MulM(V, TT, o, a.K, a.K), AdjM(V, o, a.K), o, a.K, o)
      H == Mat(o, o, LAMBDA i,j : Sub(IF i = j THEN One ELSE Zero, G[i][j]))
  IN /\ e.ret = 0 /\ Frame(e, {a.C, a.WORK})
     /\ EqM(Post(e, a.C), IF a.side = "Left" THEN MulM(H, M0(a.C), a.M, a.M, a.N) ELSE MulM(M0(a.C), H, a.M, a.N, a.N), a.M, a.N)

\* -------------------------------------------------------------- illegal arguments: refused by number, nothing changed
Refused(e) == e.ret = -e.wrong /\ Frame(e, {})

KEnsures(e) ==
  /\ e.gap = <<>>                                       \* memory between the columns is nobody's
  /\ IF e.wrong # 0 THEN Refused(e) ELSE
       (CASE e.op = "k_lange" -> KLange(e)
        [] e.op \in {"k_lansy", "k_lanhe"} -> KLansy(e)
        [] e.op = "k_lantr" -> KLantr(e)
        [] e.op = "k_gessq" -> KGessq(e)
        [] e.op \in {"k_syssq", "k_hessq"} -> KSyssq(e)
        [] e.op = "k_trssq" -> KTrssq(e)
        [] e.op = "k_hegst" -> KHegst(e)
        [] e.op \in {"k_geqrt", "k_gelqt"} -> KFactor(e)
        [] e.op \in {"k_unmqr", "k_unmlq"} -> KApply(e)
        [] e.op \in {"k_tsqrt", "k_tslqt", "k_ttqrt", "k_ttlqt"} -> KPair(e, e.op \in {"k_tsqrt", "k_ttqrt"}, e.op \in {"k_ttqrt", "k_ttlqt"})
        [] e.op \in {"k_tsmqr", "k_tsmlq", "k_ttmqr", "k_ttmlq"} -> KApply2(e)
        [] e.op = "k_pemv" -> KPemv(e)
        [] e.op = "k_parfb" -> KParfb(e)
        [] e.op = "k_pamm" -> KPamm(e)
        [] e.op = "k_larfb_gemm" -> KLarfb(e)
        [] OTHER -> e.ret = 0 /\ Ensures(e))

KLearn(e) ==
  LET a == e.a IN
  IF e.wrong # 0 THEN fct ELSE
  CASE e.op = "k_geqrt" -> Put(fct, a.A, [k |-> "qr", V |-> M0(a.A), m |-> a.m, n |-> a.n])
        [] e.op = "k_gelqt" -> Put(fct, a.A, [k |-> "lq", V |-> M0(a.A), m |-> a.m, n |-> a.n])
        [] e.op \in {"k_unmqr", "k_unmlq"} -> IF Has(fct[a.A], "Qm") THEN fct ELSE Put(fct, a.A, fct[a.A] @@ [Qm |-> Post(e, a.C)])
        [] e.op \in {"k_tsqrt", "k_tslqt", "k_ttqrt", "k_ttlqt"} ->
         LET qr == e.op \in {"k_tsqrt", "k_ttqrt"}
         IN Put(fct, a.A2, [qr |-> qr, V |-> Coupled(e, qr, e.op \in {"k_ttqrt", "k_ttlqt"}), R |-> Triangle(e, qr)])
    [] e.op \in {"k_tsmqr", "k_tsmlq", "k_ttmqr", "k_ttmlq"} ->
         IF Has(fct[a.V], "Qm") THEN fct ELSE Put(fct, a.V, fct[a.V] @@ [Qm |-> Joined(Post(e, a.A1), Post(e, a.A2), a)])
    [] OTHER -> fct

KCall ==
  /\ l <= Len(Progs[pi].ev)
  /\ LET e == Progs[pi].ev[l]
         ok == bad # {} \/ KEnsures(e)
     IN /\ mem' = [x \in DOMAIN mem |-> [mem[x] EXCEPT !.e = Post(e, x)]]
        /\ fct' = IF bad = {} /\ ok THEN KLearn(e) ELSE fct
        /\ bad' = IF ok THEN bad ELSE bad \cup {l}
        /\ IF ok THEN TRUE ELSE PrintT(<<"REJECT", Progs[pi].id, l, e.op>>)
  /\ l' = l + 1
  /\ UNCHANGED pi
KSpec == Init /\ [][KCall]_vars
=============================================================================
