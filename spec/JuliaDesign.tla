----------------------------- MODULE JuliaDesign -----------------------------
(***************************************************************************)
(* The pixel machine as a transition system over a grid of starting points      *)
(* and seeds: the counts it reports include the true one, a point and its       *)
(* negative escape together, and once outside max(2, |c|) it never returns.     *)
(***************************************************************************)
EXTENDS Julia
CONSTANTS GRID, ANGLES, LIMIT
VARIABLES z0, c, z, n, on
jvars == <<z0, c, z, n, on>>
Rad == QI(2)
Init == /\ z0 \in {<<Q(a - 8, 5), Q(b - 8, 5)>> : a, b \in GRID}
        /\ c \in {Seed(Q(a, 4)) : a \in ANGLES}
        /\ z = z0 /\ n = 0 /\ on = TRUE
In(x) == QLt(CAbs2(x), NSq(Rad))
Next == /\ on
        /\ IF In(z) /\ n < LIMIT THEN z' = CStep(z, c) /\ n' = n + 1 /\ on' = TRUE ELSE UNCHANGED <<z, n>> /\ on' = FALSE
        /\ UNCHANGED <<z0, c>>
JSpec == Init /\ [][Next]_jvars /\ WF_jvars(Next)
CountIsPossible == ~on => n \in Counts(z0, Q0, c, Rad, LIMIT, 0)
Mirror == (on /\ n = 0 /\ In(z0)) => Counts(z0, Q0, c, Rad, LIMIT, 0) = Counts(<<QNeg(z0[1]), QNeg(z0[2])>>, Q0, c, Rad, LIMIT, 0)
Bounded == n <= LIMIT
NoReturn == [][~In(z) => ~In(z') /\ ~on']_jvars
Stops == <>(~on)
=============================================================================
