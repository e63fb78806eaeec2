------------------------------- MODULE Failure --------------------------------
(* Numerical failure.  A factorisation has a first bad pivot or none; this is *)
(* a property of the matrix alone (positive definite: the first leading block *)
(* that is not; LU with any pivoting: the first column that depends on the    *)
(* columns before it; triangular: the first zero on the diagonal).  The call  *)
(* returns exactly this index, whatever the tiles, threads, schedule and      *)
(* earlier calls, and a solver leaves the right-hand side alone.              *)
(*                                                                            *)
(* Positive definiteness is decided from a certificate A = L*D*L^H, checked   *)
(* here; dependence of columns by elimination modulo a prime (complex numbers *)
(* through a square root of -1), for which the generator guarantees the same  *)
(* answer as over the rationals.                                              *)
EXTENDS LinAlg, Json, IOUtils
Progs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES pi, l
MinOr0(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : x <= y

P == 46337                                  \* prime, 1 modulo 4, P*P < 2^31
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE LET h == Pow(b, e \div 2)
                                      s == (h * h) % P
                                  IN IF e % 2 = 1 THEN (s * b) % P ELSE s
Inv(x) == Pow(x, P - 2)
\* a square root of -1: x^((P-1)/4) of a non-residue
Iota == CHOOSE y \in {Pow(g, (P - 1) \div 4) : g \in {2, 3, 5, 7, 11, 13}} : (y * y) % P = P - 1
M1(x) == LET y == x % P IN IF y < 0 THEN y + P ELSE y
ModP(z) == IF Cx THEN (M1(z[1]) + M1(z[2]) * Iota) % P ELSE M1(z)

\* reduce column v by the echelon columns E (sequence of <<pivot row, column>>), return it
RECURSIVE Reduce(_, _, _)
Reduce(v, E, t) == IF t > Len(E) THEN v
  ELSE LET r == E[t][1]
           w == E[t][2]
           f == v[r]
       IN Reduce([i \in DOMAIN v |-> (v[i] + (P - f) * w[i]) % P], E, t + 1)
RECURSIVE FirstDep(_, _, _, _)
FirstDep(V, k, j, E) ==
  IF j > k THEN 0
  ELSE LET v == Reduce([i \in DOMAIN V |-> ModP(V[i][j])], E, 1)
           nz == MinOr0({i \in DOMAIN v : v[i] # 0})
       IN IF nz = 0 THEN j
          ELSE LET s == Inv(v[nz]) IN FirstDep(V, k, j + 1, Append(E, <<nz, [i \in DOMAIN v |-> (v[i] * s) % P]>>))

Certificate(c) ==          \* V = L*D*L^H with L unit lower triangular
  /\ \A i \in 1..c.n : \A j \in 1..c.n : j >= i => c.L[i][j] = (IF i = j THEN One ELSE Zero)
  /\ LET X == MulM(Mat(c.n, c.n, LAMBDA i, k : Scl(c.D[k], c.L[i][k])), AdjM(c.L, c.n, c.n), c.n, c.n, c.n)
     IN \A i \in 1..c.n : \A j \in 1..c.n : X[i][j] = c.V[i][j]

Expected(c) ==
  CASE c.kind = "pd"  -> MinOr0({i \in 1..c.n : c.D[i] <= 0})
    [] c.kind = "lu"  -> FirstDep(c.V, IF c.m < c.n THEN c.m ELSE c.n, 1, <<>>)
    [] c.kind = "tri" -> IF c.unit THEN 0 ELSE MinOr0({i \in 1..c.n : c.V[1][i] = Zero})

Verdict(c) ==
  LET x == Expected(c) IN
  CASE c.kind = "pd" /\ ~Certificate(c) -> "certificate"
    [] c.ret # x -> (IF x = 0 THEN "spurious" ELSE IF c.ret = 0 THEN "lost" ELSE "index")
    [] c.ret # 0 /\ c.solve /\ ~c.same -> "rhs"
    [] OTHER -> "ok"

Init == pi \in 1..Len(Progs) /\ l = 1
Step == /\ l <= Len(Progs[pi].ev)
        /\ LET c == Progs[pi].ev[l]
               v == Verdict(c)
           IN IF v = "ok" THEN TRUE ELSE PrintT(<<"REJECT", Progs[pi].id, l, c.op, v, Expected(c), c.ret>>)
        /\ l' = l + 1 /\ UNCHANGED pi
Spec == Init /\ [][Step]_<<pi, l>>
=============================================================================
