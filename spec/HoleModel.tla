------------------------------ MODULE HoleModel ------------------------------
(***************************************************************************)
(* Histories of several metric objects and movers used in any order.  The    *)
(* model carries what each object must answer: a metric object answers only  *)
(* in its own coordinate system; a velocity request needs mover and metric   *)
(* in the same system; nothing an object is asked changes what another (or   *)
(* itself) answers later.                                                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS MAXOBJ, MAXCALL, EMIT
VARIABLES made, calls, vcache
hvars == <<made, calls, vcache>>
Kinds == {"Schwarzschild", "Kerr", "KerrNewman"}
Syss == {"Cartesian", "Spherical", "BoyerLindquist"}
Need(k) == IF k = "Schwarzschild" THEN "Spherical" ELSE "BoyerLindquist"
Asks == {"metric", "gamma", "fvec", "roots"}
Movers == {"mover"}
HInit == made = <<>> /\ calls = <<>> /\ vcache = 0
(* the sequence of recorded calls; res is what the specification answers      *)
MakeHole == /\ Len(made) < MAXOBJ /\ calls = <<>>
            /\ \E k \in Kinds : \E s \in {Need(k), "Spherical", "Cartesian"} : made' = Append(made, [kind |-> k, sys |-> s])
            /\ UNCHANGED <<calls, vcache>>
MakeMover == /\ Len(made) < MAXOBJ /\ calls = <<>> /\ Len(made) > 0
             /\ \A i \in 1..Len(made) : made[i].kind # "mover"
             /\ \E s \in {"Spherical", "BoyerLindquist"} : made' = Append(made, [kind |-> "mover", sys |-> s])
             /\ UNCHANGED <<calls, vcache>>
Answer(o) == IF o.sys = Need(o.kind) THEN "ok" ELSE "refused"
Ask(i, op) == /\ made[i].kind # "mover"
              /\ calls' = Append(calls, [on |-> i, op |-> op, with |-> 0, res |-> Answer(made[i])])
              /\ UNCHANGED <<made, vcache>>
Velocity(i, j) == /\ made[i].kind = "mover" /\ made[j].kind # "mover"
                  /\ LET ok == made[i].sys = made[j].sys /\ Answer(made[j]) = "ok"
                     IN /\ calls' = Append(calls, [on |-> i, op |-> "velocity", with |-> j, res |-> IF ok THEN "ok" ELSE "refused"])
                        /\ vcache' = IF ok THEN j ELSE vcache
                  /\ UNCHANGED made
Emit == (EMIT /\ Len(calls') = MAXCALL /\ calls' # calls) => PrintT("BEH|" \o ToJson([made |-> made, calls |-> calls']))
HNext == /\ \/ MakeHole \/ MakeMover
            \/ /\ Len(made) = MAXOBJ /\ Len(calls) < MAXCALL
               /\ \/ \E i \in 1..Len(made), op \in Asks : Ask(i, op)
                  \/ \E i, j \in 1..Len(made) : Velocity(i, j)
         /\ Emit
HSpec == HInit /\ [][HNext]_hvars
(* two askings of the same thing have the same answer; the held time component *)
(* is that of the latest answered request                                      *)
Consistent == \A m, n \in 1..Len(calls) :
   (calls[m].on = calls[n].on /\ calls[m].op = calls[n].op /\ calls[m].with = calls[n].with) => calls[m].res = calls[n].res
Held == LET ok == {n \in 1..Len(calls) : calls[n].op = "velocity" /\ calls[n].res = "ok"}
        IN IF ok = {} THEN vcache = 0 ELSE vcache = calls[CHOOSE n \in ok : \A m \in ok : m <= n].with
=============================================================================
