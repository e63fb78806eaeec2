----------------------------- MODULE BulgeSteps -------------------------------
(* The steps of the reduction of an n-by-n band matrix with nb off-diagonals  *)
(* to bidiagonal form, their order in the sequential algorithm, and what each *)
(* of them touches.  Numbers are one-based.                                   *)
(*                                                                            *)
(* Sweep s annihilates the part of row s (upper band; column s for a lower    *)
(* band) beyond the bidiagonal and chases the bulge this makes down the band. *)
(* Its blocks of rows and columns are s+1 .. s+nb, s+nb+1 .. s+2nb, ...       *)
(* Step 1 (type 1) makes the row bidiagonal and removes the bulge in the      *)
(* first diagonal block; step 2j (type 2) applies the last transformation of  *)
(* block j to the block right of it and annihilates the first row of the      *)
(* bulge there; step 2j+1 (type 3) does the same for diagonal block j+1.      *)
EXTENDS Integers, Sequences, FiniteSets
BMin(a, b) == IF a < b THEN a ELSE b
BMax(a, b) == IF a > b THEN a ELSE b
BCeil(a, b) == (a + b - 1) \div b
Half(k) == IF k % 2 = 0 THEN k \div 2 ELSE (k + 1) \div 2          \* block number
BSt(nb, s, k) == (Half(k) - 1) * nb + s + 1
BEd(n, nb, s, k) == BMin(Half(k) * nb + s, n)
Kind(k) == IF k = 1 THEN 1 ELSE IF k % 2 = 0 THEN 2 ELSE 3
\* the last step of a sweep: nothing is left to chase after it
Ends(n, nb, s, k) ==
  IF k % 2 = 0 THEN Half(k) * nb + s >= n - 1
  ELSE BEd(n, nb, s, k) = n /\ BSt(nb, s, k) >= n - 1
RECURSIVE LastFrom(_, _, _, _)
LastFrom(n, nb, s, k) == IF Ends(n, nb, s, k) THEN k ELSE LastFrom(n, nb, s, k + 1)
LastStep(n, nb, s) == LastFrom(n, nb, s, 1)
Sweeps(n) == 1..n - 1
Code(s, k) == s * 1000 + k
SweepOf(c) == c \div 1000
StepOf(c) == c % 1000
StepsOf(n, nb) == UNION {{Code(s, k) : k \in 1..LastStep(n, nb, s)} : s \in Sweeps(n)}
\* a type 2 step without a block right of it does nothing
Idle(n, nb, c) == Kind(StepOf(c)) = 2 /\ BEd(n, nb, SweepOf(c), StepOf(c)) >= n
Required(n, nb) == {c \in StepsOf(n, nb) : ~Idle(n, nb, c)}
\* rectangles <<array, r1, r2, c1, c2>>: 0 the matrix; 1, 2 the left and the right reflectors, in two vectors which the
\* sweeps use alternately (no singular vectors wanted) or one for each sweep
Vec(w, s) == IF w THEN s ELSE s % 2
Region(n, nb, w, c) ==
  LET s == SweepOf(c)
      k == StepOf(c)
      st == BSt(nb, s, k)
      ed == BEd(n, nb, s, k)
      j2 == BMin(ed + nb, n)
      v == Vec(w, s)
  IN IF Idle(n, nb, c) THEN {}
     ELSE IF Kind(k) = 2 THEN {<<0, st, ed, ed + 1, j2>>, <<1, v, v, st, ed>>} \cup (IF j2 > ed + 1 THEN {<<2, v, v, ed + 1, j2>>} ELSE {})
     ELSE {<<0, st, ed, st, ed>>, <<1, v, v, st, ed>>, <<2, v, v, st, ed>>} \cup (IF k = 1 THEN {<<0, st - 1, st - 1, st, ed>>} ELSE {})
Meet(a, b) == a[1] = b[1] /\ a[2] <= b[3] /\ b[2] <= a[3] /\ a[4] <= b[5] /\ b[4] <= a[5]
Conflict(n, nb, w, c, d) == \E a \in Region(n, nb, w, c), b \in Region(n, nb, w, d) : Meet(a, b)
\* the codes are ordered as the sequential algorithm takes the steps
Before(n, nb, w, c) == {d \in StepsOf(n, nb) : d < c /\ Conflict(n, nb, w, d, c)}
=============================================================================
