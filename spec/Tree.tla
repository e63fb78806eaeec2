------------------------------- MODULE Tree ---------------------------------
(* Tile elimination of one QR factorisation (LQ: of the transposed grid).    *)
(*                                                                           *)
(* State: for every tile row m, prog[m] = number of panels in which row m    *)
(* has already been eliminated (its current panel is prog[m]), and tri[m] =  *)
(* its tile in the current panel has been triangularised.                    *)
(*                                                                           *)
(* Kernels:  Ge(j,k)    triangularises tile k of panel j                     *)
(*           Ts(j,m,k)  annihilates the square tile m against the triangle k *)
(*           Tt(j,m,k)  annihilates the triangle m against the triangle k    *)
(* A kernel applies its reflectors to all columns right of j, therefore a    *)
(* row may only enter panel j after it was annihilated in panel j-1.         *)
(*                                                                           *)
(* Uses: Mode = "check": the lists made by the real generators are read from *)
(*       TRACE and must be behaviours that end in Complete;                  *)
(*       Mode = "gen": all legal trees; simulation prints them (LIST lines)  *)
(*       for replay in the real factorisations, breadth-first search shows   *)
(*       that no legal prefix is a dead end.                                 *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
CONSTANTS Mode, MaxT
GE == 1  TT == 2  TS == 3
Progs == IF Mode = "check" THEN ndJsonDeserialize(IOEnv.TRACE) ELSE <<>>

VARIABLES pi, l, mt, nt, prog, tri, hist
vars == <<pi, l, mt, nt, prog, tri, hist>>
Min(a, b) == IF a < b THEN a ELSE b
Rows == 0..(mt-1)
Panels == Min(mt, nt)

\* ---- meaning of the kernels
CanGe(j, k) == j \in 0..(Panels-1) /\ k \in Rows /\ prog[k] = j /\ k >= j /\ ~tri[k]
CanTs(j, m, k) == j \in 0..(Panels-1) /\ m \in Rows /\ k \in Rows /\ m # k /\ m > j /\ k >= j
                  /\ prog[k] = j /\ tri[k] /\ prog[m] = j /\ ~tri[m]
CanTt(j, m, k) == j \in 0..(Panels-1) /\ m \in Rows /\ k \in Rows /\ m # k /\ m > j /\ k >= j
                  /\ prog[k] = j /\ tri[k] /\ prog[m] = j /\ tri[m]
Can(op) == CASE op[1] = GE -> CanGe(op[2], op[3])
             [] op[1] = TS -> CanTs(op[2], op[3], op[4])
             [] op[1] = TT -> CanTt(op[2], op[3], op[4])
             [] OTHER -> FALSE
Apply(op) == IF op[1] = GE THEN tri' = [tri EXCEPT ![op[3]] = TRUE] /\ prog' = prog
             ELSE prog' = [prog EXCEPT ![op[3]] = @ + 1] /\ tri' = [tri EXCEPT ![op[3]] = FALSE]
\* each panel has exactly its diagonal tile left, as a triangle
Complete == \A m \in Rows : prog[m] = Min(m, Panels) /\ (tri[m] <=> m < Panels)

Init == /\ IF Mode = "check" THEN pi \in 1..Len(Progs) /\ mt = Progs[pi].mt /\ nt = Progs[pi].nt
           ELSE pi = 0 /\ mt \in 1..MaxT /\ nt \in 1..MaxT
        /\ l = 0
        /\ prog = [m \in 0..(mt-1) |-> 0]
        /\ tri = [m \in 0..(mt-1) |-> FALSE]
        /\ hist = <<>>

\* ---- lists of the implementation
Ops == Progs[pi].ops
Step == /\ Mode = "check" /\ l < Len(Ops)
        /\ IF Can(Ops[l+1]) THEN Apply(Ops[l+1]) /\ l' = l + 1
           ELSE /\ PrintT(<<"REJECT", Progs[pi].id, l+1, "illegal", Ops[l+1]>>)
                /\ l' = Len(Ops) + 5 /\ UNCHANGED <<prog, tri>>
        /\ UNCHANGED <<pi, mt, nt, hist>>
Fin == /\ Mode = "check" /\ l = Len(Ops)
       /\ IF Complete THEN TRUE ELSE PrintT(<<"REJECT", Progs[pi].id, l, "incomplete">>)
       /\ l' = Len(Ops) + 1
       /\ UNCHANGED <<pi, mt, nt, prog, tri, hist>>

\* ---- all legal trees whose pivots lie above the tiles they annihilate
Cands == {<<GE, prog[k], k, -1>> : k \in {k \in Rows : CanGe(prog[k], k)}}
         \cup {<<TS, prog[m], m, k>> : <<m, k>> \in {x \in Rows \X Rows : x[2] < x[1] /\ CanTs(prog[x[1]], x[1], x[2])}}
         \cup {<<TT, prog[m], m, k>> : <<m, k>> \in {x \in Rows \X Rows : x[2] < x[1] /\ CanTt(prog[x[1]], x[1], x[2])}}
GenStep == /\ Mode # "check" /\ l = 0
           /\ \E op \in Cands : Apply(op) /\ hist' = IF Mode = "sim" THEN Append(hist, op) ELSE hist
           /\ UNCHANGED <<pi, l, mt, nt>>
GenFin == /\ Mode # "check" /\ l = 0 /\ Complete
          /\ IF Mode = "sim" THEN PrintT(<<"LIST", mt, nt, hist>>) ELSE TRUE
          /\ l' = 1 /\ UNCHANGED <<pi, mt, nt, prog, tri, hist>>
Next == Step \/ Fin \/ GenStep \/ GenFin
Spec == Init /\ [][Next]_vars

\* ---- properties of the model (Mode = "gen")
NoDeadEnd == Mode = "gen" => (Cands = {} <=> Complete)
\* a row never works on a panel before every earlier panel annihilated it, and the diagonal rows stay behind
Sound == \A m \in Rows : prog[m] <= Min(m, Panels)
View == <<pi, l, mt, nt, prog, tri, hist>>
=============================================================================
