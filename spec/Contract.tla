------------------------------ MODULE Contract ------------------------------
(* Functional contract of the public routines.                               *)
(*                                                                           *)
(* State of a client program: the contents of its operands (mem) and what    *)
(* the client may know about opaque results (fct: the matrix behind a factor,*)
(* the orthogonal matrix behind reflectors).  One action per public call;    *)
(* an action is enabled for exactly those new contents the documentation     *)
(* allows.  Programs and the contents observed after each call come from     *)
(* the real library (see vt/).                                               *)
EXTENDS LinAlg, Json, IOUtils

Progs == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES pi, l, mem, fct, bad
vars == <<pi, l, mem, fct, bad>>

Q   == Progs[pi].q
M0(x) == mem[x].e
Has(e, k) == k \in DOMAIN e
Post(e, x) == IF x \in DOMAIN e.post THEN e.post[x] ELSE mem[x].e
Frame(e, W) == \A x \in DOMAIN e.post : x \in W
ZeroN(x) == x = Zero

\* -------------------------------------------------------------- products
OpDims(t, m, n) == IF t = "NoTrans" THEN <<m, n>> ELSE <<n, m>>
\* C' = al*X + be*C on the part P, exact
AxpbyOK(al, X, be, C, C1, m, n, P(_,_)) ==
  \A i \in 1..m : \A j \in 1..n : P(i,j) =>
     C1[i][j] = Add(IF ZeroN(al) THEN Zero ELSE Mul(al, X[i][j]), IF ZeroN(be) THEN Zero ELSE Mul(be, C[i][j]))

OpM(a, nm, t, m, n) == LET d == OpDims(t, m, n) IN Apply(t, M0(nm), d[1], d[2])   \* op(A) is m-by-n

GemmOK(e) == LET a == e.a
                 X == MulM(OpM(a, a.A, a.transa, a.m, a.k), OpM(a, a.B, a.transb, a.k, a.n), a.m, a.k, a.n)
             IN /\ Frame(e, {a.C})
                /\ AxpbyOK(a.alpha, X, a.beta, M0(a.C), Post(e, a.C), a.m, a.n, All2)

SymmOK(e, he) ==
  LET a == e.a
      na == IF a.side = "Left" THEN a.m ELSE a.n
      S == IF he THEN HerM(M0(a.A), na, a.uplo) ELSE SymM(M0(a.A), na, a.uplo)
      X == IF a.side = "Left" THEN MulM(S, M0(a.B), a.m, a.m, a.n) ELSE MulM(M0(a.B), S, a.m, a.n, a.n)
  IN Frame(e, {a.C}) /\ AxpbyOK(a.alpha, X, a.beta, M0(a.C), Post(e, a.C), a.m, a.n, All2)

\* rank-k updates: only the triangle uplo of C is defined
RealS(x, isreal) == IF isreal THEN I2N(x) ELSE x
SyrkOK(e, he, two) ==
  LET a == e.a
      d == OpDims(a.trans, a.n, a.k)
      adj(M) == IF he THEN AdjM(M, a.n, a.k) ELSE Trn(M, a.n, a.k)
      opa(M) == IF a.trans = "NoTrans" THEN M ELSE IF he THEN AdjM(M, d[1], d[2]) ELSE Trn(M, d[1], d[2])
      A == opa(M0(a.A))
      B == IF two THEN opa(M0(a.B)) ELSE A
      X1 == MulM(A, adj(B), a.n, a.k, a.n)
      al == RealS(a.alpha, he /\ ~two)
      be == RealS(a.beta, he)
      X2 == MulM(B, adj(A), a.n, a.k, a.n)
      X == IF ~two THEN SclM(al, X1, a.n, a.n)
           ELSE AddM(SclM(al, X1, a.n, a.n), SclM(IF he THEN Cnj(al) ELSE al, X2, a.n, a.n), a.n, a.n)
      P(i,j) == InTri(a.uplo, "NonUnit", i, j)
      C0 == IF he THEN Mat(a.n, a.n, LAMBDA i,j : IF i = j THEN I2N(Re(M0(a.C)[i][j])) ELSE M0(a.C)[i][j]) ELSE M0(a.C)
      C1 == Post(e, a.C)
  IN /\ Frame(e, {a.C})
     /\ AxpbyOK(One, X, be, C0, C1, a.n, a.n, P)
     /\ EqPart(C1, M0(a.C), a.n, a.n, LAMBDA i,j : ~P(i,j))

TrmmOK(e) ==
  LET a == e.a
      na == IF a.side = "Left" THEN a.m ELSE a.n
      O == Apply(a.transa, TriM(M0(a.A), na, na, a.uplo, a.diag, 1), na, na)
      X == IF a.side = "Left" THEN MulM(O, M0(a.B), a.m, a.m, a.n) ELSE MulM(M0(a.B), O, a.m, a.n, a.n)
  IN Frame(e, {a.B}) /\ AxpbyOK(a.alpha, X, Zero, X, Post(e, a.B), a.m, a.n, All2)

TrsmOK(e) ==     \* op(A)*X = alpha*B or X*op(A) = alpha*B
  LET a == e.a
      na == IF a.side = "Left" THEN a.m ELSE a.n
      O == Apply(a.transa, TriM(M0(a.A), na, na, a.uplo, a.diag, Q), na, na)
      X == Post(e, a.B)
      R == SclM(a.alpha, M0(a.B), a.m, a.n)
  IN /\ Frame(e, {a.B})
     /\ NumM(X, a.m, a.n)
     /\ IF a.side = "Left" THEN NearProd(O, X, R, a.m, a.m, a.n, Q, All2) ELSE NearProd(X, O, R, a.m, a.n, a.n, Q, All2)

GbmmOK(e) == GemmOK(e)

\* -------------------------------------------------------------- copies and element-wise operations
GeaddOK(e) == LET a == e.a IN Frame(e, {a.B}) /\
                AxpbyOK(a.alpha, OpM(a, a.A, a.transa, a.m, a.n), a.beta, M0(a.B), Post(e, a.B), a.m, a.n, All2)
TraddOK(e) ==
  LET a == e.a
      P(i,j) == InTri(a.uplo, "NonUnit", i, j)
  IN /\ Frame(e, {a.B})
     /\ AxpbyOK(a.alpha, OpM(a, a.A, a.transa, a.m, a.n), a.beta, M0(a.B), Post(e, a.B), a.m, a.n, P)
     /\ EqPart(Post(e, a.B), M0(a.B), a.m, a.n, LAMBDA i,j : ~P(i,j))
LacpyOK(e) ==
  LET a == e.a
      P(i,j) == InTri(a.uplo, "NonUnit", i, j)       \* in the coordinates of A
      T(i,j) == IF a.transa = "NoTrans" THEN P(i,j) ELSE P(j,i)
      X == Apply(a.transa, M0(a.A), a.m, a.n)
  IN /\ Frame(e, {a.B})
     /\ EqPart(Post(e, a.B), X, a.m, a.n, T)
     /\ EqPart(Post(e, a.B), M0(a.B), a.m, a.n, LAMBDA i,j : ~T(i,j))
LasetOK(e) ==
  LET a == e.a
      P(i,j) == InTri(a.uplo, "NonUnit", i, j)
  IN /\ Frame(e, {a.A})
     /\ \A i \in 1..a.m : \A j \in 1..a.n :
          Post(e, a.A)[i][j] = IF i = j THEN a.beta ELSE IF P(i,j) THEN a.alpha ELSE M0(a.A)[i][j]
LasclOK(e) ==
  LET a == e.a
      P(i,j) == InTri(a.uplo, "NonUnit", i, j)
  IN /\ Frame(e, {a.A})
     /\ \A i \in 1..a.m : \A j \in 1..a.n :
          IF P(i,j) THEN Num(Post(e, a.A)[i][j]) /\ Scl(a.cfrom, Post(e, a.A)[i][j]) = Scl(a.cto, M0(a.A)[i][j])
                    ELSE Post(e, a.A)[i][j] = M0(a.A)[i][j]
RECURSIVE SwapRows(_,_,_,_)
\* apply the interchanges k, k+s, ... of the pivot vector to a sequence of rows
SwapRows(R, p, ks, t) ==
  IF t > Len(ks) THEN R
  ELSE LET k == ks[t]
           o == p[k][1]
       IN SwapRows([R EXCEPT ![k] = R[o], ![o] = R[k]], p, ks, t + 1)
Order(n, inc) == [t \in 1..n |-> IF inc > 0 THEN t ELSE n + 1 - t]
GeswpOK(e) ==
  LET a == e.a
      rowwise == a.colrow = "Rowwise"
      k == IF rowwise THEN a.m ELSE a.n
      R == IF rowwise THEN M0(a.A) ELSE Trn(M0(a.A), a.m, a.n)
      S == SwapRows(R, M0(a.ipiv), Order(k, a.incx), 1)
      X == IF rowwise THEN S ELSE Trn(S, a.n, a.m)
  IN Frame(e, {a.A}) /\ EqM(Post(e, a.A), X, a.m, a.n)
GbsetOK(e) ==
  LET a == e.a IN
  /\ Frame(e, {a.A})
  /\ \A i \in 1..a.m : \A j \in 1..a.n :
       Post(e, a.A)[i][j] = IF j - i <= a.ku /\ i - j <= a.kl THEN M0(a.A)[i][j] ELSE Zero
ConvertOK(e, src, dst) ==
  LET a == e.a IN Frame(e, {dst}) /\ EqM(Post(e, dst), M0(src), a.m, a.n)

LauumOK(e) ==    \* U*U^H or L^H*L
  LET a == e.a
      TT == TriM(M0(a.A), a.n, a.n, a.uplo, "NonUnit", Q)
      X == IF a.uplo = "Upper" THEN MulM(TT, AdjM(TT, a.n, a.n), a.n, a.n, a.n) ELSE MulM(AdjM(TT, a.n, a.n), TT, a.n, a.n, a.n)
      P(i,j) == InTri(a.uplo, "NonUnit", i, j)
  IN /\ Frame(e, {a.A})
     /\ EqPart(Post(e, a.A), X, a.n, a.n, P)
     /\ EqPart(Post(e, a.A), M0(a.A), a.n, a.n, LAMBDA i,j : ~P(i,j))

\* -------------------------------------------------------------- norms (moduli of the elements are integers; e.ret is scaled by q)
\* the matrix of moduli, zero outside the part of the operand that counts
NormOf(kind, W, m, n, ret) ==
  CASE kind = "MaxNorm" -> ret = Q * MaxTo([i \in 1..m |-> MaxTo(W[i], n)], m)
    [] kind = "OneNorm" -> LET WT == Trn(W, m, n) IN AbsI(ret - Q * MaxTo([j \in 1..n |-> SumTo(WT[j], m)], n)) <= 1
    [] kind = "InfNorm" -> AbsI(ret - Q * MaxTo([i \in 1..m |-> SumTo(W[i], n)], m)) <= 1
    [] kind = "FrobeniusNorm" ->
         LET s2 == SumTo([i \in 1..m |-> SumTo([j \in 1..n |-> W[i][j] * W[i][j]], n)], m)
             r  == ISqrt(s2)                       \* r <= ||A||_F < r+1
         IN /\ ret < NotNum
            /\ ret >= Q * r - 1 /\ ret <= Q * (r + 1) + 1
            \* |ret^2 - q^2 s2| small, computed without leaving 32 bits: ret = q*r + d
            /\ LET d == ret - Q * r IN AbsI(2 * r * d + (d * d) \div Q - Q * (s2 - r * r)) <= 2 * r + 4
Moduli(M, m, n, P(_,_)) == Mat(m, n, LAMBDA i,j : IF P(i,j) THEN Modulus(Quo(M[i][j], Q)) ELSE 0)
LangeOK(e) == LET a == e.a IN Frame(e, {}) /\ NormOf(a.norm, Moduli(M0(a.A), a.m, a.n, All2), a.m, a.n, e.ret)
LansyOK(e) == LET a == e.a IN Frame(e, {}) /\
   LET W == Moduli(M0(a.A), a.n, a.n, LAMBDA i,j : InTri(a.uplo, "NonUnit", i, j))
       S == Mat(a.n, a.n, LAMBDA i,j : IF InTri(a.uplo, "NonUnit", i, j) THEN W[i][j] ELSE W[j][i])
   IN NormOf(a.norm, S, a.n, a.n, e.ret)
LantrOK(e) == LET a == e.a IN Frame(e, {}) /\
   LET W == Moduli(M0(a.A), a.m, a.n, LAMBDA i,j : InTri(a.uplo, a.diag, i, j))
       S == Mat(a.m, a.n, LAMBDA i,j : IF i = j /\ a.diag = "Unit" THEN 1 ELSE W[i][j])
   IN NormOf(a.norm, S, a.m, a.n, e.ret)
InBand(kl, ku, m, i, j) == j - i <= ku /\ i - j <= kl /\ i >= 1 /\ i <= m
LangbOK(e) == LET a == e.a IN Frame(e, {}) /\
   LET S == Mat(a.m, a.n, LAMBDA i,j : IF InBand(a.kl, a.ku, a.m, i, j) THEN Modulus(Quo(M0(a.AB)[a.kl + a.ku + 1 + i - j][j], Q)) ELSE 0)
   IN NormOf(a.norm, S, a.m, a.n, e.ret)
AmaxOK(e) ==
  LET a == e.a
      V == Post(e, a.values)
      W == Mat(a.m, a.n, LAMBDA i,j : A1(M0(a.A)[i][j]))
      WT == Trn(W, a.m, a.n)
  IN /\ Frame(e, {a.values})
     /\ IF a.colrow = "Columnwise" THEN \A j \in 1..a.n : V[j][1] = MaxTo(WT[j], a.m)
                                   ELSE \A i \in 1..a.m : V[i][1] = MaxTo(W[i], a.n)

\* -------------------------------------------------------------- Cholesky
FullHer(x, n, uplo) == HerM(M0(x), n, uplo)
CholOK(A, F, n, uplo, Pre) ==     \* F's triangle is the Cholesky factor of the Hermitian A
  LET TT == TriM(F, n, n, uplo, "NonUnit", Q)
      P(i,j) == InTri(uplo, "NonUnit", i, j)
  IN /\ NumPart(F, n, n, P)
     /\ \A i \in 1..n : Re(F[i][i]) > 0 /\ Im(F[i][i]) = 0
     /\ IF uplo = "Lower" THEN NearProd(TT, AdjM(TT, n, n), A, n, n, n, Q, All2) ELSE NearProd(AdjM(TT, n, n), TT, A, n, n, n, Q, All2)
     /\ EqPart(F, Pre, n, n, LAMBDA i,j : ~P(i,j))
\* a system without right-hand sides is solved without factoring the matrix
Empty(a) == a.n = 0 \/ a.nrhs = 0
SolveOK(A, X, B, n, r) == NumM(X, n, r) /\ NearProd(A, X, B, n, n, r, Q, All2)
PotrfOK(e) == LET a == e.a IN e.ret = 0 /\ Frame(e, {a.A}) /\ CholOK(FullHer(a.A, a.n, a.uplo), Post(e, a.A), a.n, a.uplo, M0(a.A))
PosvOK(e) == LET a == e.a IN e.ret = 0 /\ Frame(e, {a.A, a.B}) /\
                (Empty(a) \/ (CholOK(FullHer(a.A, a.n, a.uplo), Post(e, a.A), a.n, a.uplo, M0(a.A)) /\
                SolveOK(FullHer(a.A, a.n, a.uplo), Post(e, a.B), M0(a.B), a.n, a.nrhs)))
PotrsOK(e) == LET a == e.a IN e.ret = 0 /\ Frame(e, {a.B}) /\ (a.A \in DOMAIN fct => SolveOK(fct[a.A].V, Post(e, a.B), M0(a.B), a.n, a.nrhs))
InvHerOK(A, F, n, uplo, Pre) ==
  LET X == HerM(F, n, uplo)
      P(i,j) == InTri(uplo, "NonUnit", i, j)
  IN /\ NumPart(F, n, n, P)
     /\ NearProd(A, X, EyeM(n, Q), n, n, n, Q, All2)
     /\ \A i \in 1..n : AbsI(Im(F[i][i])) <= 1
     /\ EqPart(F, Pre, n, n, LAMBDA i,j : ~P(i,j))
PotriOK(e) == LET a == e.a IN e.ret = 0 /\ Frame(e, {a.A}) /\ (a.A \in DOMAIN fct => InvHerOK(fct[a.A].V, Post(e, a.A), a.n, a.uplo, M0(a.A)))
PoinvOK(e) == LET a == e.a IN e.ret = 0 /\ Frame(e, {a.A}) /\ InvHerOK(FullHer(a.A, a.n, a.uplo), Post(e, a.A), a.n, a.uplo, M0(a.A))
TrtriOK(e) ==
  LET a == e.a
      F == Post(e, a.A)
      X == TriM(F, a.n, a.n, a.uplo, a.diag, Q)
      P(i,j) == InTri(a.uplo, a.diag, i, j)
  IN /\ e.ret = 0 /\ Frame(e, {a.A})
     /\ NumPart(F, a.n, a.n, P)
     /\ NearProd(TriM(M0(a.A), a.n, a.n, a.uplo, a.diag, Q), X, EyeM(a.n, Q), a.n, a.n, a.n, Q, All2)
     /\ EqPart(F, M0(a.A), a.n, a.n, LAMBDA i,j : ~P(i,j))

\* -------------------------------------------------------------- LU with partial pivoting
PivOK(p, k, m) == \A i \in 1..k : p[i][1] >= i /\ p[i][1] <= m
LuOK(A, F, p, m, n) ==       \* P*A = L*U, |L| <= 1 (in the 1-norm of the components for complex matrices)
  LET k == MinI(m, n)
      L == Mat(m, k, LAMBDA i,j : IF i > j THEN F[i][j] ELSE IF i = j THEN I2N(Q) ELSE Zero)
      U == Mat(k, n, LAMBDA i,j : IF i <= j THEN F[i][j] ELSE Zero)
  IN /\ PivOK(p, k, m)
     /\ NumM(F, m, n)
     /\ NearProd(L, U, SwapRows(A, p, Order(k, 1), 1), m, k, n, Q, All2)
     /\ \A i \in 1..m : \A j \in 1..k : i > j => A1(F[i][j]) <= (IF Cx THEN 2*Q + 2 ELSE Q + 1)   \* complex pivots are chosen by |re|+|im|
GetrfOK(e) == LET a == e.a IN e.ret = 0 /\ Frame(e, {a.A, a.ipiv}) /\ LuOK(M0(a.A), Post(e, a.A), Post(e, a.ipiv), a.m, a.n)
GetrsOK(e) == LET a == e.a IN e.ret = 0 /\ Frame(e, {a.B}) /\
                (a.A \in DOMAIN fct => SolveOK(Apply(a.trans, fct[a.A].V, a.n, a.n), Post(e, a.B), M0(a.B), a.n, a.nrhs))
GesvOK(e) == LET a == e.a IN e.ret = 0 /\ Frame(e, {a.A, a.ipiv, a.B}) /\
                (Empty(a) \/ (LuOK(M0(a.A), Post(e, a.A), Post(e, a.ipiv), a.n, a.n) /\ SolveOK(M0(a.A), Post(e, a.B), M0(a.B), a.n, a.nrhs)))
InvOK(A, X, n) == NumM(X, n, n) /\ NearProd(A, X, EyeM(n, Q), n, n, n, Q, All2)
GetriOK(e) == LET a == e.a IN e.ret = 0 /\ Frame(e, {a.A}) /\ (a.A \in DOMAIN fct => InvOK(fct[a.A].V, Post(e, a.A), a.n))
GeinvOK(e) == LET a == e.a IN e.ret = 0 /\ Frame(e, {a.A, a.ipiv}) /\ InvOK(M0(a.A), Post(e, a.A), a.n)
GetriAuxOK(e) ==
  LET a == e.a
      L == TriM(M0(a.A), a.n, a.n, "Lower", "Unit", Q)
      U == TriM(M0(a.A), a.n, a.n, "Upper", "NonUnit", Q)
  IN e.ret = 0 /\ Frame(e, {a.A}) /\ NumM(Post(e, a.A), a.n, a.n) /\ NearProd(Post(e, a.A), L, U, a.n, a.n, a.n, Q, All2)

\* -------------------------------------------------------------- band matrices
\* full matrix of a band in LAPACK format with first diagonal row off
BandM(S, n, kl, ku, off) == Mat(n, n, LAMBDA i,j : IF InBand(kl, ku, n, i, j) THEN S[off + 1 + i - j][j] ELSE Zero)
PbFull(S, n, kd, uplo) ==
  IF uplo = "Upper" THEN LET B == BandM(S, n, 0, kd, kd) IN HerM(B, n, "Upper")
  ELSE LET B == BandM(S, n, kd, 0, 0) IN HerM(B, n, "Lower")
PbFactor(S, n, kd, uplo) == IF uplo = "Upper" THEN BandM(S, n, 0, kd, kd) ELSE BandM(S, n, kd, 0, 0)
PbIn(n, kd, uplo, b, j) == IF uplo = "Upper" THEN b - 1 - kd + j >= 1 /\ b <= kd + 1 ELSE b - 1 + j <= n /\ b <= kd + 1
PbCholOK(S, F, n, kd, uplo) ==
  LET TT == PbFactor(F, n, kd, uplo)
      A == PbFull(S, n, kd, uplo)
  IN /\ NumPart(F, kd+1, n, LAMBDA b,j : PbIn(n, kd, uplo, b, j))
     /\ \A i \in 1..n : Re(TT[i][i]) > 0 /\ Im(TT[i][i]) = 0
     /\ IF uplo = "Lower" THEN NearProd(TT, AdjM(TT, n, n), A, n, n, n, Q, All2) ELSE NearProd(AdjM(TT, n, n), TT, A, n, n, n, Q, All2)
     /\ EqPart(F, S, kd+1, n, LAMBDA b,j : ~PbIn(n, kd, uplo, b, j))
PbtrfOK(e) == LET a == e.a IN e.ret = 0 /\ Frame(e, {a.AB}) /\ PbCholOK(M0(a.AB), Post(e, a.AB), a.n, a.kd, a.uplo)
PbsvOK(e) == LET a == e.a IN e.ret = 0 /\ Frame(e, {a.AB, a.B}) /\
                (Empty(a) \/ (PbCholOK(M0(a.AB), Post(e, a.AB), a.n, a.kd, a.uplo) /\
                SolveOK(PbFull(M0(a.AB), a.n, a.kd, a.uplo), Post(e, a.B), M0(a.B), a.n, a.nrhs)))
PbtrsOK(e) == LET a == e.a IN e.ret = 0 /\ Frame(e, {a.B}) /\ (a.AB \in DOMAIN fct => SolveOK(fct[a.AB].V, Post(e, a.B), M0(a.B), a.n, a.nrhs))
GbFull(S, n, kl, ku) == BandM(S, n, kl, ku, kl + ku)
GbtrfOK(e, nm) == LET a == e.a IN e.ret = 0 /\ Frame(e, {nm, a.ipiv}) /\ PivOK(Post(e, a.ipiv), a.n, a.n)
GbtrsOK(e) == LET a == e.a IN e.ret = 0 /\ Frame(e, {a.B}) /\
                (a.AB \in DOMAIN fct => SolveOK(Apply(a.transa, fct[a.AB].V, a.n, a.n), Post(e, a.B), M0(a.B), a.n, a.nrhs))
GbsvOK(e) == LET a == e.a IN e.ret = 0 /\ Frame(e, {a.AB, a.ipiv, a.B}) /\
                (Empty(a) \/ (PivOK(Post(e, a.ipiv), a.n, a.n) /\
                SolveOK(GbFull(M0(a.AB), a.n, a.kl, a.ku), Post(e, a.B), M0(a.B), a.n, a.nrhs)))

\* -------------------------------------------------------------- QR and LQ
GeqrfOK(e) == LET a == e.a IN e.ret = 0 /\ Frame(e, {a.A}) /\ NumM(Post(e, a.A), a.m, a.n)
\* Q from ungqr: orthonormal columns; all of Q times R gives the factored matrix back; a partial Q is the leading part of the full one
UngqrOK(e) ==
  LET a == e.a
      Qm == Post(e, a.Q)
  IN /\ e.ret = 0 /\ Frame(e, {a.Q}) /\ NumM(Qm, a.m, a.n)
     /\ Orthonormal(Qm, a.m, a.n, Q)
     /\ a.A \in DOMAIN fct /\ fct[a.A].k = "qr" /\ a.m = fct[a.A].m =>
          LET f == fct[a.A]
              k == MinI(f.m, f.n)
              R == Mat(k, f.n, LAMBDA i,j : IF i <= j THEN M0(a.A)[i][j] ELSE Zero)
              Q1 == Mat(a.m, k, LAMBDA i,j : Qm[i][j])
          IN /\ (a.n >= k /\ a.k = k) => NearProd(Q1, R, f.V, f.m, k, f.n, Q, All2)
             /\ (Has(f, "Qm") /\ a.k <= a.n /\ (a.k = k \/ a.n <= k)) => \A i \in 1..a.m : \A j \in 1..MinI(a.n, a.k) : Near(Qm[i][j], f.Qm[i][j], 2)
UnglqOK(e) ==
  LET a == e.a
      Qm == Post(e, a.Q)
  IN /\ e.ret = 0 /\ Frame(e, {a.Q}) /\ NumM(Qm, a.m, a.n)
     /\ Orthonormal(AdjM(Qm, a.m, a.n), a.n, a.m, Q)
     /\ a.A \in DOMAIN fct /\ fct[a.A].k = "lq" /\ a.n = fct[a.A].n =>
          LET f == fct[a.A]
              k == MinI(f.m, f.n)
              L == Mat(f.m, k, LAMBDA i,j : IF i >= j THEN M0(a.A)[i][j] ELSE Zero)
          IN /\ (a.m >= k /\ a.k = k) => NearProd(L, Qm, f.V, f.m, k, f.n, Q, All2)
             /\ (Has(f, "Qm") /\ (a.k = k \/ a.m <= k)) => \A i \in 1..MinI(a.m, a.k) : \A j \in 1..a.n : Near(Qm[i][j], f.Qm[i][j], 2)
UnmOK(e) ==
  LET a == e.a
      C1 == Post(e, a.C)
  IN /\ e.ret = 0 /\ Frame(e, {a.C}) /\ NumM(C1, a.m, a.n)
     /\ a.A \in DOMAIN fct /\ Has(fct[a.A], "Qm") /\ fct[a.A].full =>
          LET f == fct[a.A]
              o == IF a.side = "Left" THEN a.m ELSE a.n
              O == Apply(a.trans, f.Qm, o, o)
          IN IF a.side = "Left" THEN NearProd(O, M0(a.C), C1, a.m, a.m, a.n, Q, All2) ELSE NearProd(M0(a.C), O, C1, a.m, a.n, a.n, Q, All2)

\* least squares: A^H*(A*X - B) = 0, with the residual rounded to scale q before the second product;
\* minimum norm: A*X = B and X = A^H*Y for the logged witness Y
LsqOK(A, X, B, m, n, r) ==
  LET AX == MulM(A, X, m, n, r)
      Rs == Mat(m, r, LAMBDA i,j : Sub(Quo(AX[i][j], Q), B[i][j]))
      AH == AdjM(A, m, n)
      NE == MulM(AH, Rs, n, m, r)
      XT == Trn(X, n, r)
      err == 2 + (MaxTo([i \in 1..m |-> R1(A[i], n)], m) + MaxTo([j \in 1..r |-> R1(XT[j], n)], r)) \div (2*Q)
  IN \A i \in 1..n : \A j \in 1..r : A1(NE[i][j]) <= 2 * err * R1(AH[i], m)
BoundedM(X, m, n, lim) == \A i \in 1..m : \A j \in 1..n : A1(X[i][j]) <= lim
TopM(X, k, r) == Mat(k, r, LAMBDA i,j : X[i][j])
GelsCore(V, m, n, trans, X, B, r, W) ==
  LET ma == IF trans = "NoTrans" THEN m ELSE n       \* op(A) is ma-by-na
      na == IF trans = "NoTrans" THEN n ELSE m
      A == Apply(trans, V, m, n)
      X1 == TopM(X, na, r)
      B1 == TopM(B, ma, r)
  IN /\ BoundedM(X1, na, r, 60 * Q)
     /\ IF ma = 0 THEN \A i \in 1..na : \A j \in 1..r : ZeroN(X1[i][j])
        ELSE IF ma >= na THEN LsqOK(A, X1, B1, ma, na, r)
        ELSE /\ NearProd(A, X1, B1, ma, na, r, Q, All2)
             /\ NearProd(AdjM(A, ma, na), W, X1, na, ma, r, Q, All2)
GelsOK(e) == LET a == e.a IN e.ret = 0 /\ Frame(e, {a.A, a.B}) /\ NumM(Post(e, a.A), a.m, a.n) /\
                GelsCore(M0(a.A), a.m, a.n, a.trans, Post(e, a.B), M0(a.B), a.nrhs, e.wit)
GeqrsOK(e) == LET a == e.a IN e.ret = 0 /\ Frame(e, {a.B}) /\
                (a.A \in DOMAIN fct => GelsCore(fct[a.A].V, a.m, a.n, "NoTrans", Post(e, a.B), M0(a.B), a.nrhs, e.wit))

\* -------------------------------------------------------------- Hermitian indefinite
HetrfOK(e) == LET a == e.a IN e.ret = 0 /\ Frame(e, {a.A, a.T, a.ipiv, a.ipiv2})
HetrsOK(e) == LET a == e.a IN e.ret = 0 /\ Frame(e, {a.B}) /\ (a.A \in DOMAIN fct => SolveOK(fct[a.A].V, Post(e, a.B), M0(a.B), a.n, a.nrhs))
HesvOK(e) == LET a == e.a IN e.ret = 0 /\ Frame(e, {a.A, a.T, a.ipiv, a.ipiv2, a.B}) /\
                (Empty(a) \/ (SolveOK(FullHer(a.A, a.n, a.uplo), Post(e, a.B), M0(a.B), a.n, a.nrhs)))

\* eigenvalues of a tridiagonal matrix of single rows and of pairs [[a, b], [b, a]], in ascending order
Spectrum(D, E, n) ==
  LET b(i) == IF i >= 1 /\ i < n THEN E[i][1] ELSE 0
      raw == [i \in 1..n |-> IF b(i) # 0 THEN D[i][1] - AbsI(b(i)) ELSE IF b(i-1) # 0 THEN D[i][1] + AbsI(b(i-1)) ELSE D[i][1]]
  IN SortSeq(raw, LAMBDA x, y : x < y)
RECURSIVE Expand(_, _, _, _)
Expand(V, M, i, f) == IF i > f THEN <<>> ELSE [x \in 1..M[i][1] |-> V[i][1]] \o Expand(V, M, i + 1, f)
Stevx2OK(e) ==
  LET a == e.a
      D == M0(a.diag)
      E == M0(a.offd)
      s == Spectrum(D, E, a.n)
      sel == IF a.range = "RangeI" THEN SubSeq(s, a.il, a.iu) ELSE SelectSeq(s, LAMBDA x : x >= a.vl*Q /\ x < a.vu*Q)
      f == Post(e, a.Found)[1][1]
      V == Post(e, a.Val)
      M == Post(e, a.Mul)
      W == Post(e, a.Vec)
      b(i) == IF i >= 1 /\ i < a.n THEN E[i][1] \div Q ELSE 0
      w(i, j) == IF i >= 1 /\ i <= a.n THEN W[i][j] ELSE 0
      all == Expand(V, M, 1, f)
  IN IF a.n = 0 THEN e.ret = 0 /\ f = 0 /\ Frame(e, {a.Found})
     ELSE IF a.jobtype = "Count" THEN e.ret = 0 /\ f = Len(sel) /\ Frame(e, {a.Found})
     ELSE IF a.k < Len(sel) THEN e.ret = -4 /\ Frame(e, {})
     ELSE /\ e.ret = 0 /\ Frame(e, {a.Found, a.Val, a.Mul} \cup (IF a.jobtype = "Vec" THEN {a.Vec} ELSE {}))
          /\ f >= 0 /\ f <= Len(sel)
          /\ \A i \in 1..f : Num(V[i][1]) /\ M[i][1] >= 1
          /\ Len(all) = Len(sel) /\ \A i \in 1..Len(sel) : AbsI(all[i] - sel[i]) <= 1
          /\ a.jobtype = "Vec" => /\ NumM(W, a.n, f) /\ Orthonormal(W, a.n, f, Q)
                                  \* distinct eigenvalues of these matrices are at least 1 apart
                                  /\ (f = Cardinality({sel[i] : i \in 1..Len(sel)}) =>
                                       \A j \in 1..f, i \in 1..a.n :
                                          AbsI((D[i][1] \div Q - (V[j][1] + Q \div 2) \div Q) * w(i, j) + b(i-1) * w(i-1, j) + b(i) * w(i+1, j)) <= 12)

\* -------------------------------------------------------------- SVD
SortedDesc(S, k) == \A i \in 1..k : S[i][1] >= 0 /\ S[i][1] < NotNum /\ (i < k => S[i][1] >= S[i+1][1])
GesddOK(e) ==
  LET a == e.a
      k == MinI(a.m, a.n)
      S == Post(e, a.S)
      U == Post(e, a.U)
      V == Post(e, a.VT)
      vec == a.jobu # "NoVec"
      nu == IF a.jobu = "AllVec" THEN a.m ELSE k
      nv == IF a.jobvt = "AllVec" THEN a.n ELSE k
      US == Mat(a.m, k, LAMBDA i,j : Quo(Scl(S[j][1], U[i][j]), Q))
  IN /\ e.ret = 0 /\ Frame(e, IF vec THEN {a.A, a.S, a.U, a.VT} ELSE {a.A, a.S})
     /\ SortedDesc(S, k)
     /\ vec => /\ NumM(U, a.m, nu) /\ NumM(V, nv, a.n)
               /\ Orthonormal(U, a.m, nu, Q) /\ Orthonormal(AdjM(V, nv, a.n), a.n, nv, Q)
               /\ NearProdT(M0(a.A), AdjM(V, nv, a.n), US, a.m, a.n, k, Q, 2 + S[1][1] \div (2*Q), All2)
     \* the values alone are the same as those computed with vectors from the same matrix
     /\ \A x \in DOMAIN fct : (fct[x].k = "svd" /\ fct[x].V = M0(a.A)) => \A i \in 1..k : AbsI(fct[x].S[i][1] - S[i][1]) <= 1

\* -------------------------------------------------------------- mixed precision
CsvOK(e, A, W) == LET a == e.a IN e.ret = 0 /\ Frame(e, W) /\ SolveOK(A, Post(e, a.X), M0(a.B), a.n, a.nrhs)

Ensures(e) ==
  CASE e.op = "gemm" -> GemmOK(e)
    [] e.op = "symm" -> SymmOK(e, FALSE)
    [] e.op = "hemm" -> SymmOK(e, TRUE)
    [] e.op = "syrk" -> SyrkOK(e, FALSE, FALSE)
    [] e.op = "herk" -> SyrkOK(e, TRUE, FALSE)
    [] e.op = "syr2k" -> SyrkOK(e, FALSE, TRUE)
    [] e.op = "her2k" -> SyrkOK(e, TRUE, TRUE)
    [] e.op = "trmm" -> TrmmOK(e)
    [] e.op = "trsm" -> TrsmOK(e)
    [] e.op = "gbmm" -> GbmmOK(e)
    [] e.op = "geadd" -> GeaddOK(e)
    [] e.op = "tradd" -> TraddOK(e)
    [] e.op = "lacpy" -> LacpyOK(e)
    [] e.op = "laset" -> LasetOK(e)
    [] e.op = "lascl" -> LasclOK(e)
    [] e.op = "geswp" -> GeswpOK(e)
    [] e.op = "gbset" -> GbsetOK(e)
    [] e.op = "zlag2c" -> ConvertOK(e, e.a.A, e.a.As)
    [] e.op = "clag2z" -> ConvertOK(e, e.a.As, e.a.A)
    [] e.op = "lauum" -> LauumOK(e)
    [] e.op = "lange" -> LangeOK(e)
    [] e.op \in {"lansy", "lanhe"} -> LansyOK(e)
    [] e.op = "lantr" -> LantrOK(e)
    [] e.op = "langb" -> LangbOK(e)
    [] e.op = "amax" -> AmaxOK(e)
    [] e.op = "potrf" -> PotrfOK(e)
    [] e.op = "potrs" -> PotrsOK(e)
    [] e.op = "posv" -> PosvOK(e)
    [] e.op = "potri" -> PotriOK(e)
    [] e.op = "poinv" -> PoinvOK(e)
    [] e.op = "trtri" -> TrtriOK(e)
    [] e.op = "getrf" -> GetrfOK(e)
    [] e.op = "getrs" -> GetrsOK(e)
    [] e.op = "gesv" -> GesvOK(e)
    [] e.op = "getri" -> GetriOK(e)
    [] e.op = "getri_aux" -> GetriAuxOK(e)
    [] e.op = "geinv" -> GeinvOK(e)
    [] e.op = "pbtrf" -> PbtrfOK(e)
    [] e.op = "pbtrs" -> PbtrsOK(e)
    [] e.op = "pbsv" -> PbsvOK(e)
    [] e.op = "gbtrf" -> GbtrfOK(e, e.a.A)
    [] e.op = "gbtrs" -> GbtrsOK(e)
    [] e.op = "gbsv" -> GbsvOK(e)
    [] e.op \in {"geqrf", "gelqf"} -> GeqrfOK(e)
    [] e.op = "ungqr" -> UngqrOK(e)
    [] e.op = "unglq" -> UnglqOK(e)
    [] e.op \in {"unmqr", "unmlq"} -> UnmOK(e)
    [] e.op = "gels" -> GelsOK(e)
    [] e.op \in {"geqrs", "gelqs"} -> GeqrsOK(e)
    [] e.op = "hetrf" -> HetrfOK(e)
    [] e.op = "hetrs" -> HetrsOK(e)
    [] e.op = "hesv" -> HesvOK(e)
    [] e.op = "gesdd" -> GesddOK(e)
    [] e.op = "stevx2" -> Stevx2OK(e)
    [] e.op = "zcgesv" -> CsvOK(e, M0(e.a.A), {e.a.A, e.a.ipiv, e.a.X, e.a.iter})
    [] e.op = "zcposv" -> CsvOK(e, FullHer(e.a.A, e.a.n, e.a.uplo), {e.a.A, e.a.X, e.a.iter})
    [] e.op = "zcgbsv" -> CsvOK(e, GbFull(M0(e.a.AB), e.a.n, e.a.kl, e.a.ku), {e.a.AB, e.a.ipiv, e.a.X, e.a.iter})
    [] OTHER -> FALSE

\* what the client knows about opaque results after the call
Put(f, x, r) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN r ELSE f[y]]
Drop(f, X) == [y \in DOMAIN f \ X |-> f[y]]
Learn(e) ==
  LET a == e.a IN
  CASE e.op \in {"posv", "gesv", "pbsv", "gbsv", "hesv"} /\ Empty(a) -> Drop(fct, {IF Has(a, "AB") THEN a.AB ELSE a.A})
    [] e.op \in {"potrf", "posv"} -> Put(fct, a.A, [k |-> "chol", V |-> FullHer(a.A, a.n, a.uplo)])
    [] e.op = "getrf" -> Put(fct, a.A, [k |-> "lu", V |-> M0(a.A)])
    [] e.op = "gesv" -> Put(fct, a.A, [k |-> "lu", V |-> M0(a.A)])
    [] e.op \in {"pbtrf", "pbsv"} -> Put(fct, a.AB, [k |-> "chol", V |-> PbFull(M0(a.AB), a.n, a.kd, a.uplo)])
    [] e.op = "gbtrf" -> Put(fct, a.A, [k |-> "lu", V |-> GbFull(M0(a.A), a.n, a.kl, a.ku)])
    [] e.op = "gbsv" -> Put(fct, a.AB, [k |-> "lu", V |-> GbFull(M0(a.AB), a.n, a.kl, a.ku)])
    [] e.op = "geqrf" -> Put(fct, a.A, [k |-> "qr", V |-> M0(a.A), m |-> a.m, n |-> a.n, full |-> FALSE])
    [] e.op = "gelqf" -> Put(fct, a.A, [k |-> "lq", V |-> M0(a.A), m |-> a.m, n |-> a.n, full |-> FALSE])
    [] e.op = "ungqr" /\ a.A \in DOMAIN fct /\ a.m = a.n -> Put(fct, a.A, [Qm |-> Post(e, a.Q), full |-> TRUE] @@ fct[a.A])
    [] e.op = "unglq" /\ a.A \in DOMAIN fct /\ a.m = a.n -> Put(fct, a.A, [Qm |-> Post(e, a.Q), full |-> TRUE] @@ fct[a.A])
    [] e.op \in {"hetrf", "hesv"} -> Put(fct, a.A, [k |-> "he", V |-> FullHer(a.A, a.n, a.uplo)])
    [] e.op = "gesdd" -> Put(fct, a.A, [k |-> "svd", V |-> M0(a.A), S |-> Post(e, a.S)])
    [] e.op \in {"potri", "getri"} -> Drop(fct, {a.A})
    [] OTHER -> fct

\* one action per call: the observed contents must be among those the contract allows
Call ==
  /\ l <= Len(Progs[pi].ev)
  /\ LET e == Progs[pi].ev[l]
         ok == bad # {} \/ Ensures(e)      \* nothing is known after a broken promise
     IN /\ mem' = [x \in DOMAIN mem |-> [mem[x] EXCEPT !.e = Post(e, x)]]
        /\ fct' = IF bad = {} /\ ok /\ e.ret >= 0 THEN Learn(e) ELSE fct
        /\ bad' = IF ok THEN bad ELSE bad \cup {l}
        /\ IF ok THEN TRUE ELSE PrintT(<<"REJECT", Progs[pi].id, l, e.op>>)
  /\ l' = l + 1
  /\ UNCHANGED pi

Init == /\ pi \in 1..Len(Progs)
        /\ l = 1 /\ mem = Progs[pi].mem /\ fct = <<>> /\ bad = {}
Next == Call
Spec == Init /\ [][Next]_vars
View == <<pi, l>>
=============================================================================
