----------------------------- MODULE BoundModel -----------------------------
(***************************************************************************)
(* A stepper that moves by whole steps towards a bound on either side and      *)
(* refuses to move once there; two of them used alternately.  Times are in     *)
(* units of a third of a step so that the bound falls on and between steps;     *)
(* BOUNDS is given shifted by 10.                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS BOUNDS, MAXCALLS, EMIT
VARIABLES objs, calls
bvars == <<objs, calls>>
Third == 3
New(b, sg) == [start |-> 0, t |-> 0, bound |-> b, sign |-> sg, dir |-> IF b >= 0 THEN 1 ELSE -1, warns |-> 0, moved |-> 0]
Init == /\ \E b1, b2 \in {b - 10 : b \in BOUNDS}, s1, s2 \in {-1, 1} : objs = << New(b1, s1), New(b2, s2) >>
        /\ calls = <<>>
AtEnd(o) == IF o.dir = 1 THEN o.t >= o.bound ELSE o.t <= o.bound
Moved(o) == IF AtEnd(o) THEN [o EXCEPT !.warns = @ + 1] ELSE [o EXCEPT !.t = @ + Third * o.dir, !.moved = @ + 1]
Call(i) == /\ Len(calls) < MAXCALLS
           /\ objs' = [objs EXCEPT ![i] = Moved(@)]
           /\ calls' = Append(calls, i)
Next == \E i \in 1..2 : Call(i)
BSpec == Init /\ [][Next]_bvars /\ WF_bvars(Next)
(* a step is only made short of the bound, so it overshoots by less than one    *)
NoFarther == \A i \in 1..2 : LET o == objs[i] IN IF o.dir = 1 THEN o.t < o.bound + Third \/ o.t = 0 ELSE o.t > o.bound - Third
OnlyThisWay == \A i \in 1..2 : objs[i].t * objs[i].dir >= 0 /\ objs[i].t = Third * objs[i].dir * objs[i].moved
WarnsAtEnd == \A i \in 1..2 : objs[i].warns > 0 => AtEnd(objs[i])
StaysPut == [][\A i \in 1..2 : AtEnd(objs[i]) => objs'[i].t = objs[i].t]_bvars
Runs == <>(Len(calls) = MAXCALLS)
Emitted == IF EMIT /\ Len(calls) = MAXCALLS THEN PrintT("BEH|" \o ToJson([bounds |-> [i \in 1..2 |-> objs[i].bound], signs |-> [i \in 1..2 |-> objs[i].sign], calls |-> calls])) ELSE TRUE
=============================================================================
