------------------------------- MODULE Layout -------------------------------
(* The user's column-major array, the tiles of a matrix descriptor, and the  *)
(* translation between them.                                                 *)
(*                                                                           *)
(* State: user (the array), tile (the allocation behind the descriptor).     *)
(* Actions: CopyIn, CopyOut.  Both move every element of the described part  *)
(* of the window and leave everything else alone, except that                *)
(*   a triangular matrix moves its diagonal tiles whole,                     *)
(*   a band matrix may clear, or move, the rest of its band tiles.           *)
(*                                                                           *)
(* Mode "gen":   the documented placement (regions A11 A21 A12 A22, packed   *)
(*               triangles, band stored by tile rows) for every descriptor   *)
(*               within the bounds; checked: one place per element, inside   *)
(*               the allocation, views address their parent's elements, and  *)
(*               CopyIn . CopyOut is the identity on the user's array.       *)
(* Mode "check": recorded descriptors and translations of the library.       *)
(*               Any placement is accepted that is injective and inside the  *)
(*               allocation.                                                 *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
CONSTANTS Mode, MaxN, MaxB
Progs == IF Mode = "check" THEN ndJsonDeserialize(IOEnv.TRACE) ELSE <<>>
VARIABLES pi, l, d, user, tile
vars == <<pi, l, d, user, tile>>
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
CeilDiv(a, b) == (a + b - 1) \div b

\* ---- which elements (zero based i, j in the window) a descriptor describes
\* kinds: ge, lo, up (triangles), pg (band with room for fill), pu, pl (one-sided bands), fb (band kept as a full array by the user)
InPart(x, i, j) ==
  CASE x.kind = "ge" -> TRUE
    [] x.kind = "lo" -> i >= j
    [] x.kind = "up" -> i <= j
    [] x.kind = "pg" -> i - j <= x.kl /\ j - i <= x.ku + x.kl
    [] x.kind = "pu" -> i <= j /\ j - i <= x.ku
    [] x.kind = "pl" -> i >= j /\ i - j <= x.kl
    [] x.kind = "fb" -> i - j <= x.kl /\ j - i <= x.ku
Band(x) == x.kind \in {"pg", "pu", "pl", "fb"}
Packed(x) == x.kind \in {"pg", "pu", "pl"}
Elems(x) == {0 .. x.m - 1} \X {0 .. x.n - 1}
Part(x) == {e \in (0 .. x.m - 1) \X (0 .. x.n - 1) : InPart(x, e[1], e[2])}
\* elements that share a tile with the part and that a translation may move too
Slack(x, i, j) ==
  CASE x.kind \in {"lo", "up"} -> i \div x.mb = j \div x.nb
    [] x.kind = "pg" -> j - i <= x.ku + x.kl
    [] x.kind = "fb" -> TRUE
    [] OTHER -> FALSE
\* place of an element in the user's array (zero based)
Off(x) == CASE x.kind = "pu" -> x.ku [] x.kind = "pg" -> x.ku + x.kl [] OTHER -> 0
U(x, i, j) == IF Packed(x) THEN Off(x) + i - j + j * x.lda ELSE i + j * x.lda
UserSize(x) == IF x.n = 0 THEN 0 ELSE x.lda * x.n

\* ---- tiles
MT(x) == CeilDiv(x.m, x.mb)
NT(x) == CeilDiv(x.n, x.nb)
Height(x, r) == Min(x.mb, x.m - r * x.mb)        \* rows of the window in tile row r
Width(x, c) == Min(x.nb, x.n - c * x.nb)
\* tiles that hold a part of the matrix
Holds(x, r, c) ==
  CASE x.kind = "ge" -> TRUE
    [] x.kind = "lo" -> r >= c
    [] x.kind = "up" -> r <= c
    [] OTHER -> \E i \in r * x.mb .. r * x.mb + Height(x, r) - 1, j \in c * x.nb .. c * x.nb + Width(x, c) - 1 : InPart(x, i, j)
Kut(x) == CASE x.kind = "pl" -> 1 [] x.kind = "pu" -> 1 + CeilDiv(x.ku, x.nb) [] OTHER -> 1 + CeilDiv(x.ku + x.kl, x.nb)
Klt(x) == CASE x.kind = "pu" -> 1 [] OTHER -> 1 + CeilDiv(x.kl, x.mb)
\* tiles that are stored: for a band all the tiles of the tile band
Stored(x, r, c) == IF Band(x) THEN r - c < Klt(x) /\ c - r < Kut(x) ELSE Holds(x, r, c)
Grid(x) == (0 .. MT(x) - 1) \X (0 .. NT(x) - 1)
Live(x) == {t \in Grid(x) : Stored(x, t[1], t[2])}

\* ---- numbers beyond 2^31 as <<hi, lo>> with lo < 2^20
B20 == 1048576
Norm(p) == <<p[1] + p[2] \div B20, p[2] % B20>>
Plus(p, k) == Norm(<<p[1], p[2] + k>>)
Leq(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] <= q[2])
Zero == <<0, 0>>

-----------------------------------------------------------------------------
\* ---- documented placement
\* main matrix gm x gn, window at i0, j0 (multiples of the tile)
Lm1(x) == x.gm \div x.mb
Ln1(x) == x.gn \div x.nb
GeOff(x, r, c) ==
  LET m2 == x.gm % x.mb
      n2 == x.gn % x.nb
      A21 == (x.gm - m2) * (x.gn - n2)
      A12 == A21 + m2 * (x.gn - n2)
      A22 == A12 + (x.gm - m2) * n2
  IN IF r < Lm1(x) THEN IF c < Ln1(x) THEN x.mb * x.nb * (r + Lm1(x) * c) ELSE A12 + x.mb * n2 * r
                   ELSE IF c < Ln1(x) THEN A21 + x.nb * m2 * c ELSE A22
TrOff(x, r, c) ==
  LET k == Lm1(x)
      m2 == x.gm % x.mb
      base == x.mb * x.nb * ((k * (k + 1)) \div 2)
  IN IF r < k /\ c < k
     THEN x.mb * x.nb * (IF x.kind = "up" THEN r + (c * (c + 1)) \div 2 ELSE (r - c) + (c * (2 * k - (c - 1))) \div 2)
     ELSE IF r < k THEN base + x.mb * m2 * r
     ELSE IF c < k THEN base + x.nb * m2 * c
     ELSE base + (x.gm - m2) * m2
DocOff(x, r, c) ==
  LET rr == r + x.i0 \div x.mb
      cc == c + x.j0 \div x.nb
  IN IF x.kind = "ge" THEN GeOff(x, rr, cc)
     ELSE IF Band(x) THEN GeOff([x EXCEPT !.gm = (Kut(x) + Klt(x) - 1) * x.mb], Kut(x) - 1 + r - c, c)
     ELSE TrOff(x, rr, cc)
DocLd(x, r) == IF Band(x) THEN x.mb ELSE IF r + x.i0 \div x.mb < Lm1(x) THEN x.mb ELSE x.gm % x.mb
DocSize(x) ==
  CASE x.kind = "ge" -> x.gm * x.gn
    [] Band(x) -> (Kut(x) + Klt(x) - 1) * x.mb * x.gn
    [] OTHER -> x.mb * x.nb * ((Lm1(x) * (Lm1(x) + 1)) \div 2) + x.gm * (x.gm % x.mb)
DocAddr(x, i, j) == DocOff(x, i \div x.mb, j \div x.nb) + (i % x.mb) + (j % x.nb) * DocLd(x, i \div x.mb)

Kinds == {"ge", "lo", "up", "pg", "pu", "pl", "fb"}
GenOne ==
  \E k \in Kinds : \E mb \in 1 .. MaxB : \E nb \in IF k = "ge" THEN 1 .. MaxB ELSE {mb} :
  \E gm \in 1 .. MaxN : \E gn \in IF k \in {"lo", "up"} THEN {gm} ELSE 1 .. MaxN :
  \E i0 \in IF k \in {"ge", "lo", "up"} THEN {z \in 0 .. gm - 1 : z % mb = 0} ELSE {0} :
  \E j0 \in IF k = "ge" THEN {z \in 0 .. gn - 1 : z % nb = 0} ELSE {i0} :
  \E m \in IF k \in {"ge", "lo", "up"} THEN 1 .. gm - i0 ELSE {gm} :
  \E n \in IF k = "ge" THEN 1 .. gn - j0 ELSE IF k \in {"lo", "up"} THEN {m} ELSE {gn} :
  \E kl \in IF k \in {"pg", "pl", "fb"} THEN 0 .. Min(2, m - 1) ELSE {0} :
  \E ku \in IF k \in {"pg", "pu", "fb"} THEN 0 .. Min(2, n - 1) ELSE {0} :
    d = [kind |-> k, mb |-> mb, nb |-> nb, gm |-> gm, gn |-> gn, i0 |-> i0, j0 |-> j0, m |-> m, n |-> n, kl |-> kl, ku |-> ku,
         lda |-> IF k \in {"pg", "pu", "pl"} THEN 2 * kl + ku + 1 + mb ELSE m + 1]
GenInit == /\ pi = 0 /\ l = 0 /\ GenOne
           /\ user = [k \in 0 .. UserSize(d) - 1 |-> k]
           /\ tile = [k \in 0 .. DocSize(d) - 1 |-> -k - 1]
\* the library's translations move the part and, for triangles, the rest of the diagonal tiles; bands clear the rest of their tiles
MovedIn(x) == Part(x) \cup {e \in (0 .. x.m - 1) \X (0 .. x.n - 1) : x.kind \in {"lo", "up"} /\ Slack(x, e[1], e[2])}
GenCopyIn ==
  /\ l = 0 /\ l' = 1 /\ UNCHANGED <<pi, d, user>>
  /\ LET M == MovedIn(d)
         cells == {DocAddr(d, e[1], e[2]) : e \in M}
         inv == [k \in cells |-> CHOOSE e \in M : DocAddr(d, e[1], e[2]) = k]
     IN tile' = [k \in DOMAIN tile |-> IF k \in cells THEN user[U(d, inv[k][1], inv[k][2])] ELSE tile[k]]
GenCopyOut ==
  /\ l \in {1, 2} /\ l' = l + 1 /\ UNCHANGED <<pi, d, tile>>
  /\ LET M == MovedIn(d)
         cells == {U(d, e[1], e[2]) : e \in M}
         inv == [k \in cells |-> CHOOSE e \in M : U(d, e[1], e[2]) = k]
     IN user' = [k \in DOMAIN user |-> IF k \in cells THEN tile[DocAddr(d, inv[k][1], inv[k][2])] ELSE user[k]]
GenNext == GenCopyIn \/ GenCopyOut
\* invariants
OnePlace == l = 0 => /\ Cardinality({DocAddr(d, e[1], e[2]) : e \in MovedIn(d)}) = Cardinality(MovedIn(d))
                     /\ \A e \in MovedIn(d) : DocAddr(d, e[1], e[2]) \in 0 .. DocSize(d) - 1
                     /\ \A e \in MovedIn(d) : U(d, e[1], e[2]) \in 0 .. UserSize(d) - 1
                     /\ Cardinality({U(d, e[1], e[2]) : e \in MovedIn(d)}) = Cardinality(MovedIn(d))
ViewOk == (l = 0 /\ ~Band(d)) =>
            LET p == [d EXCEPT !.i0 = 0, !.j0 = 0, !.m = d.gm, !.n = d.gn]
            IN \A e \in MovedIn(d) : DocAddr(d, e[1], e[2]) = DocAddr(p, e[1] + d.i0, e[2] + d.j0)
Identity == \A k \in DOMAIN user : user[k] = k

-----------------------------------------------------------------------------
\* ---- recorded descriptors:  ev fields
\*  desc: mt, nt, size (allocated elements), tiles [[r, c, off hi, off lo, height, width, rows of the window, columns of the window]...], ord
\*  in / out: user, tile after the call
T == Progs[pi]
Ev == T.ev[l]
X == T.d
TilesOf(e) == [t \in 1 .. Len(e.tiles) |-> e.tiles[t]]
TileIx(e) == [rc \in {<<e.tiles[t][1], e.tiles[t][2]>> : t \in 1 .. Len(e.tiles)} |->
                CHOOSE t \in 1 .. Len(e.tiles) : e.tiles[t][1] = rc[1] /\ e.tiles[t][2] = rc[2]]
\* rectangular grids are not searched: the harness lists the tiles column by column
Where(e, r, c) == e.ix[c + 1][r + 1]
DescErrors(x, e) ==
  LET tl(r, c) == e.tiles[Where(e, r, c)]
      start(t) == <<t[3], t[4]>>
      area(t) == t[5] * t[6]
      live == IF x.kind \in {"ge", "lo", "up"} \/ x.m <= 64 THEN Live(x) ELSE {}
      n == Len(e.ord)
      sorted(k) == e.tiles[e.ord[k]]
  IN (IF e.mt = MT(x) /\ e.nt = NT(x) THEN {} ELSE {"grid"})
     \cup (IF \A rc \in live : Where(e, rc[1], rc[2]) > 0 /\ \E k \in 1 .. n : e.ord[k] = Where(e, rc[1], rc[2]) THEN {} ELSE {"harness"})
     \cup (IF \A rc \in live : tl(rc[1], rc[2])[1] = rc[1] /\ tl(rc[1], rc[2])[2] = rc[2] THEN {} ELSE {"harness"})
     \cup (IF \A rc \in live : LET t == tl(rc[1], rc[2]) IN
               /\ t[7] = Height(x, rc[1]) /\ t[8] = Width(x, rc[2])
               /\ t[7] <= t[5] /\ t[8] <= t[6]
           THEN {} ELSE {"extent"})
     \cup (IF \A k \in 1 .. n : Leq(Zero, start(sorted(k))) /\ Leq(Plus(start(sorted(k)), area(sorted(k))), e.size) THEN {} ELSE {"outside"})
     \cup (IF \A k \in 1 .. n - 1 : Leq(Plus(start(sorted(k)), area(sorted(k))), start(sorted(k + 1))) THEN {} ELSE {"overlap"})
\* the window of a view starts at tile (r0, c0) of its parent
ViewErrors(e) ==
  IF \A t \in 1 .. Len(e.tiles) : LET v == e.tiles[t] p == e.parent[t] IN v[3] = p[3] /\ v[4] = p[4] /\ v[5] = p[5] /\ v[6] = p[6]
  THEN {} ELSE {"view"}

\* place of an element, from the recorded tiles
DEv == T.ev[T.di]
Addr(i, j) == LET t == DEv.tiles[Where(DEv, i \div X.mb, j \div X.nb)] IN t[4] + (i % X.mb) + (j % X.nb) * t[5]
\* element of each cell of the tiles that hold a part: <<i, j>>
Covered == {e \in (0 .. X.m - 1) \X (0 .. X.n - 1) : Stored(X, e[1] \div X.mb, e[2] \div X.nb)}
InErrors(e) ==
  LET cov == Covered
      cell == [p \in cov |-> Addr(p[1], p[2])]
      back == [k \in {cell[p] : p \in cov} |-> CHOOSE p \in cov : cell[p] = k]
      rest == IF Band(X) THEN {0} ELSE {}
      ok(k) == IF k \in DOMAIN back
               THEN LET p == back[k] s == U(X, p[1], p[2]) IN
                    IF InPart(X, p[1], p[2]) THEN e.tile[k + 1] = user[s + 1]
                    ELSE e.tile[k + 1] \in {tile[k + 1]} \cup rest \/ (Slack(X, p[1], p[2]) /\ e.tile[k + 1] = user[s + 1])
               ELSE e.tile[k + 1] \in {tile[k + 1]} \cup rest
      bad == {k \in 0 .. Len(e.tile) - 1 : ~ok(k)}
  IN (IF e.user = user THEN {} ELSE {"changes the array it reads"})
     \cup (IF \E k \in bad : k \in DOMAIN back /\ InPart(X, back[k][1], back[k][2]) THEN {"does not bring an element"} ELSE {})
     \cup (IF \E k \in bad : ~(k \in DOMAIN back /\ InPart(X, back[k][1], back[k][2])) THEN {"writes another place"} ELSE {})
OutErrors(e) ==
  LET cov == {p \in Covered : InPart(X, p[1], p[2]) \/ Slack(X, p[1], p[2])}
      src == [p \in cov |-> Addr(p[1], p[2])]
      back == [k \in {U(X, p[1], p[2]) : p \in cov} |-> CHOOSE p \in cov : U(X, p[1], p[2]) = k]
      ok(k) == IF k \in DOMAIN back
               THEN LET p == back[k] IN \/ e.user[k + 1] = tile[src[p] + 1]
                                        \/ (~InPart(X, p[1], p[2]) /\ e.user[k + 1] = user[k + 1])
               ELSE e.user[k + 1] = user[k + 1]
      bad == {k \in 0 .. Len(e.user) - 1 : ~ok(k)}
  IN (IF e.tile = tile THEN {} ELSE {"changes the tiles it reads"})
     \cup (IF \E k \in bad : k \in DOMAIN back /\ InPart(X, back[k][1], back[k][2]) THEN {"does not bring an element"} ELSE {})
     \cup (IF \E k \in bad : ~(k \in DOMAIN back /\ InPart(X, back[k][1], back[k][2])) THEN {"writes another place"} ELSE {})
\* a program that copies the untouched matrix out again leaves the user with what he had
Errors(e) ==
  CASE e.op = "desc" -> DescErrors(X, e)
    [] e.op = "view" -> ViewErrors(e)
    [] e.op = "set"  -> {}
    [] e.op = "in"   -> InErrors(e)
    [] e.op = "out"  -> OutErrors(e)
    [] e.op = "back" -> OutErrors(e) \cup (IF e.user = user THEN {} ELSE {"round trip"})
CheckInit == pi \in 1 .. Len(Progs) /\ l = 1 /\ d = 0 /\ user = <<>> /\ tile = <<>>
CheckNext ==
  /\ l <= Len(T.ev) /\ l' = l + 1 /\ UNCHANGED <<pi, d>>
  /\ LET E == Errors(Ev) IN IF E = {} THEN TRUE ELSE PrintT(<<"REJECT", T.id, l, Ev.op, ToString(E)>>)
  /\ user' = IF "user" \in DOMAIN Ev THEN Ev.user ELSE user
  /\ tile' = IF "tile" \in DOMAIN Ev THEN Ev.tile ELSE tile
View == <<pi, l>>
Init == IF Mode = "check" THEN CheckInit ELSE GenInit
Next == IF Mode = "check" THEN CheckNext ELSE GenNext
Spec == Init /\ [][Next]_vars
=============================================================================
