------------------------------- MODULE Bisect ---------------------------------
(* Eigenvalues of a symmetric tridiagonal matrix by task-parallel bisection.  *)
(* A bracket [lo, hi) with the numbers of eigenvalues below lo and below hi   *)
(* is halved until it cannot be halved any more; empty halves and halves      *)
(* outside the wanted indices are dropped, two non-empty halves become two    *)
(* tasks.  A finished bracket is one eigenvalue with its multiplicity, stored *)
(* at its place in the result; the result is compressed at the end.           *)
(*                                                                            *)
(* Gen = TRUE: numbers are the grid 0..M, all spectra of up to N eigenvalues  *)
(* on it, all ranges, all cut points, all interleavings of the tasks.         *)
(* Gen = FALSE: recorded calls of the solver are judged.  The matrices have   *)
(* a known spectrum; eigenvalues equal to working accuracy share a class      *)
(* (cl[i] is the class of eigenvalue i, in ascending order).  Where a record  *)
(* has an integer matrix, the numbers of eigenvalues below the ends of the    *)
(* range are computed here, by an exact Sturm sequence.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Gen, N, M
VARIABLES ev, rng, open, out, pi
vars == <<ev, rng, open, out, pi>>

Sorted(s) == \A i \in 1..Len(s) - 1 : s[i] <= s[i + 1]
Below(s, u) == Cardinality({i \in 1..Len(s) : s[i] < u})
\* the wanted indices are First+1 .. Last
First(s, r) == IF r.kind = "I" THEN r.a - 1 ELSE Below(s, r.a)
Last(s, r)  == IF r.kind = "I" THEN r.b     ELSE Below(s, r.b)
\* what has to be returned: values in ascending order with the number of wanted indices they stand for
RECURSIVE Group(_, _, _)
Group(s, i, j) ==          \* i..j of s
  IF i > j THEN <<>>
  ELSE LET m == Cardinality({k \in i..j : s[k] = s[i]}) IN <<[val |-> s[i], mul |-> m]>> \o Group(s, i + m, j)
Wanted(s, r) == Group(s, First(s, r) + 1, Last(s, r))
RECURSIVE Compress(_, _)
Compress(o, i) == IF i > Len(o) THEN <<>> ELSE (IF o[i].mul > 0 THEN <<o[i]>> ELSE <<>>) \o Compress(o, i + 1)

---------------------------------------------------------------------------
(* the state machine *)
Spectra == UNION {{s \in [1..n -> 1..M - 1] : Sorted(s)} : n \in 1..N}
Ranges(n) == {[kind |-> "V", a |-> a, b |-> b] : a \in 0..M, b \in 0..M} \cup {[kind |-> "I", a |-> a, b |-> b] : a \in 1..n, b \in 1..n}
None == [val |-> 0, mul |-> 0]
Bracket(lo, hi, s) == [lo |-> lo, hi |-> hi, nlo |-> Below(s, lo), nhi |-> Below(s, hi)]
InitGen ==
  /\ pi = 0 /\ ev \in Spectra
  /\ rng \in {r \in Ranges(Len(ev)) : IF r.kind = "V" THEN r.a < r.b ELSE r.a <= r.b}
  /\ LET b == IF rng.kind = "V" THEN Bracket(rng.a, rng.b, ev) ELSE Bracket(0, M, ev)
     IN open = (IF b.nlo = b.nhi THEN {} ELSE {b})
  /\ out = [i \in 1..Last(ev, rng) - First(ev, rng) |-> None]
Cut(b) ==
  \E c \in b.lo + 1..b.hi - 1 :
    LET k == Below(ev, c)
        L == [b EXCEPT !.hi = c, !.nhi = k]
        R == [b EXCEPT !.lo = c, !.nlo = k]
    IN open' = (open \ {b}) \cup
         (IF k = b.nhi THEN {L} ELSE IF k = b.nlo THEN {R}
          ELSE IF rng.kind = "I" /\ k < rng.a THEN {R}
          ELSE IF rng.kind = "I" /\ k >= rng.b THEN {L} ELSE {L, R})
Clip(b) == [f |-> IF b.nlo > First(ev, rng) THEN b.nlo ELSE First(ev, rng), l |-> IF b.nhi < Last(ev, rng) THEN b.nhi ELSE Last(ev, rng)]
Store(b) == /\ b.hi = b.lo + 1
            /\ open' = open \ {b}
            /\ out' = [out EXCEPT ![Clip(b).f - First(ev, rng) + 1] = [val |-> b.lo, mul |-> Clip(b).l - Clip(b).f]]
NextGen == /\ \E b \in open : (b.hi > b.lo + 1 /\ Cut(b) /\ out' = out) \/ Store(b)
           /\ UNCHANGED <<ev, rng, pi>>
Spec == InitGen /\ [][NextGen]_vars /\ WF_vars(NextGen)
Idx(b) == Clip(b).f + 1..Clip(b).l
Disjoint == \A b, c \in open : b # c => b.hi <= c.lo \/ c.hi <= b.lo
Counted  == \A b \in open : b.nlo = Below(ev, b.lo) /\ b.nhi = Below(ev, b.hi) /\ b.nlo < b.nhi
Slots    == \A b \in open : /\ Idx(b) # {} /\ Clip(b).f - First(ev, rng) + 1 \in DOMAIN out
                            /\ \A i \in Idx(b) : out[i - First(ev, rng)] = None
Covered  == UNION {Idx(b) : b \in open} \cup UNION {First(ev, rng) + i..First(ev, rng) + i + out[i].mul - 1 : i \in {j \in DOMAIN out : out[j].mul > 0}}
              = First(ev, rng) + 1..Last(ev, rng)
Result   == open = {} => Compress(out, 1) = Wanted(ev, rng)
Ends     == <>(open = {})
\* every instance once: the cases replayed against the code
Emit     == IF open = {} THEN PrintT(<<"CASE", ToJson([ev |-> ev, kind |-> rng.kind, a |-> rng.a, b |-> rng.b])>>) ELSE TRUE

---------------------------------------------------------------------------
(* recorded calls *)
Progs == IF Gen THEN <<[id |-> "gen"]>> ELSE ndJsonDeserialize(IOEnv.TRACE)
\* Sturm sequence of the integer matrix (d, e) at u: number of eigenvalues below u, u an eigenvalue not counted.
\* A zero term has the sign of the term before it; a zero off-diagonal splits the matrix.
Neg(x, was) == IF x < 0 THEN TRUE ELSE IF x > 0 THEN FALSE ELSE was
RECURSIVE Sturm(_, _, _, _, _, _, _)
Sturm(d, e, u, i, p1, p0, neg) ==       \* p1 = P[i-1], p0 = P[i-2]
  IF i > Len(d) THEN 0
  ELSE LET split == i > 1 /\ e[i - 1] = 0
           q  == IF i = 1 \/ split THEN d[i] - u ELSE (d[i] - u) * p1 - e[i - 1] * e[i - 1] * p0
           wn == IF i = 1 \/ split THEN FALSE ELSE neg
           nn == Neg(q, wn)
       IN (IF nn # wn THEN 1 ELSE 0) + Sturm(d, e, u, i + 1, q, IF i = 1 \/ split THEN 1 ELSE p1, nn)
Less(F, u) == Sturm(F.d, F.e, u, 1, 1, 0, FALSE)
NL(F) == IF F.kind = "I" THEN F.a - 1 ELSE IF F.d = <<>> THEN F.nl ELSE Less(F, F.a)
NU(F) == IF F.kind = "I" THEN F.b     ELSE IF F.d = <<>> THEN F.nu ELSE Less(F, F.b)
RECURSIVE SumMul(_, _, _)
SumMul(F, c, i) == IF i > Len(F.val) THEN 0 ELSE (IF F.val[i] = c THEN F.mul[i] ELSE 0) + SumMul(F, c, i + 1)
Classes(F) == {F.cl[i] : i \in 1..Len(F.cl)}
InWindow(F, c) == Cardinality({i \in NL(F) + 1..NU(F) : F.cl[i] = c})
Whole(F, c) == Cardinality({i \in 1..Len(F.cl) : F.cl[i] = c})
Reasons(F) ==
  LET n == NU(F) - NL(F) IN
  IF F.job = "Count" THEN (IF F.ret # 0 THEN {"status"} ELSE IF F.found # n THEN {"count"} ELSE {}) \cup (IF F.kept THEN {} ELSE {"written"})
  ELSE IF F.k < n THEN (IF F.ret = -4 THEN {} ELSE {"room"})
  ELSE IF F.ret # 0 THEN {"status"}
  ELSE (IF F.found # Len(F.val) \/ \E i \in 1..Len(F.mul) : F.mul[i] < 1 THEN {"found"} ELSE {})
    \cup (IF \E i \in 1..Len(F.val) : F.val[i] = 0 THEN {"value"} ELSE {})
    \cup (IF \E i \in 1..Len(F.rank) - 1 : F.rank[i] >= F.rank[i + 1] THEN {"order"} ELSE {})
    \cup (IF \E c \in Classes(F) : SumMul(F, c, 1) # InWindow(F, c)
                                    /\ ~ (F.kind = "I" /\ InWindow(F, c) > 0 /\ SumMul(F, c, 1) \in InWindow(F, c)..Whole(F, c))
          THEN {"multiplicity"} ELSE {})
    \cup (IF F.kept THEN {} ELSE {"written"})
    \cup (IF F.job = "Vec" /\ F.res > 1000 THEN {"residual"} ELSE {})
    \cup (IF F.job = "Vec" /\ F.orth > 1000 THEN {"orthonormality"} ELSE {})
InitCheck == /\ pi \in 1..Len(Progs) /\ ev = <<>> /\ rng = <<>> /\ open = {} /\ out = <<>>
             /\ LET F == Progs[pi] R == Reasons(F) IN
                  IF R = {} THEN TRUE ELSE PrintT(<<"REJECT", F.id, pi, R, NL(F), NU(F)>>)
SpecCheck == InitCheck /\ [][FALSE]_vars
===============================================================================
