------------------------------- MODULE LinAlg -------------------------------
(* Exact and fixed-point linear algebra over small matrices.                 *)
(* A number is an integer (real programs) or a pair <<re, im>> (complex      *)
(* programs, Cx = TRUE).  A matrix is a sequence of rows.  A program has a   *)
(* scale q: a stored element a stands for a/q, rounded to nearest.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT Cx

NotNum == 2000000000        \* elements at or above this are markers (NaN, overflow, not an integer)

AbsI(x)   == IF x < 0 THEN -x ELSE x
MaxI(x,y) == IF x > y THEN x ELSE y
MinI(x,y) == IF x < y THEN x ELSE y

Zero   == IF Cx THEN <<0,0>> ELSE 0
One    == IF Cx THEN <<1,0>> ELSE 1
I2N(i) == IF Cx THEN <<i,0>> ELSE i
Re(x)  == IF Cx THEN x[1] ELSE x
Im(x)  == IF Cx THEN x[2] ELSE 0
Add(x,y) == IF Cx THEN <<x[1]+y[1], x[2]+y[2]>> ELSE x+y
Sub(x,y) == IF Cx THEN <<x[1]-y[1], x[2]-y[2]>> ELSE x-y
Mul(x,y) == IF Cx THEN <<x[1]*y[1]-x[2]*y[2], x[1]*y[2]+x[2]*y[1]>> ELSE x*y
Scl(i,x) == IF Cx THEN <<i*x[1], i*x[2]>> ELSE i*x
Cnj(x)   == IF Cx THEN <<x[1], -x[2]>> ELSE x
Num(x)   == IF Cx THEN x[1] < NotNum /\ x[2] < NotNum ELSE x < NotNum
A1(x)    == IF ~Num(x) THEN NotNum ELSE IF Cx THEN AbsI(x[1]) + AbsI(x[2]) ELSE AbsI(x)
Near(x,y,tol) == IF Cx THEN AbsI(x[1]-y[1]) <= tol /\ AbsI(x[2]-y[2]) <= tol ELSE AbsI(x-y) <= tol
DivR(a,q)  == (2*a + q) \div (2*q)                   \* a/q rounded
Quo(x,q)   == IF Cx THEN <<DivR(x[1],q), DivR(x[2],q)>> ELSE DivR(x,q)

RECURSIVE ISqrtR(_,_,_)
ISqrtR(x, lo, hi) == IF hi - lo <= 1 THEN lo
                     ELSE LET mid == (lo + hi) \div 2 IN IF mid*mid <= x THEN ISqrtR(x, mid, hi) ELSE ISqrtR(x, lo, mid)
ISqrt(x) == ISqrtR(x, 0, MinI(x + 2, 46340))
\* modulus of a number whose modulus is an integer
Modulus(x) == IF Cx THEN ISqrt(x[1]*x[1] + x[2]*x[2]) ELSE AbsI(x)

RECURSIVE SumTo(_,_)
SumTo(f, k) == IF k = 0 THEN 0 ELSE f[k] + SumTo(f, k-1)
RECURSIVE MaxTo(_,_)
MaxTo(f, k) == IF k = 0 THEN 0 ELSE MaxI(f[k], MaxTo(f, k-1))

\* ---- matrices
Mat(m, n, F(_,_)) == TLCEval([i \in 1..m |-> TLCEval([j \in 1..n |-> F(i,j)])])
Trn(M, m, n) == Mat(n, m, LAMBDA i,j : M[j][i])
Apply(t, M, m, n) ==     \* op(M) for an m-by-n matrix M
  IF t = "NoTrans" THEN M
  ELSE IF t = "Trans" THEN Mat(n, m, LAMBDA i,j : M[j][i])
  ELSE Mat(n, m, LAMBDA i,j : Cnj(M[j][i]))
AdjM(M, m, n) == Mat(n, m, LAMBDA i,j : Cnj(M[j][i]))
InTri(uplo, diag, i, j) ==      \* stored part of a triangular or trapezoidal operand
  \/ uplo = "General"
  \/ uplo = "Upper" /\ (i < j \/ (i = j /\ diag = "NonUnit"))
  \/ uplo = "Lower" /\ (i > j \/ (i = j /\ diag = "NonUnit"))
TriM(M, m, n, uplo, diag, q) ==
  Mat(m, n, LAMBDA i,j : IF InTri(uplo, diag, i, j) THEN M[i][j] ELSE IF i = j /\ diag = "Unit" THEN I2N(q) ELSE Zero)
SymM(M, n, uplo) == Mat(n, n, LAMBDA i,j : IF InTri(uplo, "NonUnit", i, j) THEN M[i][j] ELSE M[j][i])
HerM(M, n, uplo) == Mat(n, n, LAMBDA i,j : IF i = j THEN I2N(Re(M[i][i]))
                                           ELSE IF InTri(uplo, "NonUnit", i, j) THEN M[i][j] ELSE Cnj(M[j][i]))
EyeM(n, q) == Mat(n, n, LAMBDA i,j : IF i = j THEN I2N(q) ELSE Zero)
ZeroM(m, n) == Mat(m, n, LAMBDA i,j : Zero)

RECURSIVE DotR(_,_,_)
DotR(a, b, k) == IF k = 0 THEN Zero ELSE Add(DotR(a, b, k-1), Mul(a[k], b[k]))
MulM(A, B, m, k, n) ==          \* exact product of m-by-k and k-by-n
  LET BT == Trn(B, k, n) IN Mat(m, n, LAMBDA i,j : DotR(A[i], BT[j], k))
AddM(A, B, m, n) == Mat(m, n, LAMBDA i,j : Add(A[i][j], B[i][j]))
SclM(a, A, m, n) == Mat(m, n, LAMBDA i,j : Mul(a, A[i][j]))
EqM(A, B, m, n) == \A i \in 1..m : \A j \in 1..n : A[i][j] = B[i][j]
EqPart(A, B, m, n, P(_,_)) == \A i \in 1..m : \A j \in 1..n : P(i,j) => A[i][j] = B[i][j]
NumPart(A, m, n, P(_,_)) == \A i \in 1..m : \A j \in 1..n : P(i,j) => Num(A[i][j])
NumM(A, m, n) == NumPart(A, m, n, LAMBDA i,j : TRUE)

RECURSIVE R1(_,_)
R1(row, k) == IF k = 0 THEN 0 ELSE A1(row[k]) + R1(row, k-1)
RECURSIVE RMax(_,_)
RMax(row, k) == IF k = 0 THEN 0 ELSE MaxI(A1(row[k]), RMax(row, k-1))

\* A*B = s*C up to the rounding of the stored numbers: A is m-by-k, B is k-by-n, all stored with scale q and s = q.
\* Elements beyond the representable products mean a result that is out of any proportion: rejected.
Small(row, k, lim) == \A t \in 1..k : A1(row[t]) < lim
NearProdT(A, B, C, m, k, n, s, t, P(_,_)) ==
  LET BT == Trn(B, k, n)
      ra == TLCEval([i \in 1..m |-> IF Small(A[i], k, 40000000) THEN R1(A[i], k) ELSE NotNum])
      rb == TLCEval([j \in 1..n |-> IF Small(BT[j], k, 40000000) THEN R1(BT[j], k) ELSE NotNum])
      mb == TLCEval([j \in 1..n |-> IF rb[j] = NotNum THEN NotNum ELSE RMax(BT[j], k)])
  IN \A i \in 1..m : \A j \in 1..n : P(i,j) =>
       /\ ra[i] < NotNum /\ rb[j] < NotNum
       /\ ra[i] <= 1000000000 \div MaxI(mb[j], 1)
       /\ A1(C[i][j]) <= 1000000000 \div s
       /\ Near(DotR(A[i], BT[j], k), Scl(s, C[i][j]), (ra[i] + rb[j]) \div 2 + k + s*t)
NearProd(A, B, C, m, k, n, s, P(_,_)) == NearProdT(A, B, C, m, k, n, s, 1, P)
All2(i,j) == TRUE
Orthonormal(Q, m, n, q) == NearProd(AdjM(Q, m, n), Q, EyeM(n, q), n, m, n, q, All2)   \* columns of the m-by-n Q
=============================================================================
