----------------------------- MODULE IndexModel -----------------------------
(***************************************************************************)
(* Histories of index-configuration changes of one tensor of rank RANK over  *)
(* two metrics (the parent, 1, and another one, 2, passed explicitly).       *)
(* The state carries exact components, so that path independence is checked  *)
(* here, and every history is printed for replay on the real classes.        *)
(***************************************************************************)
EXTENDS Geometry, Json
CONSTANTS RANK, MAXLEN, METRICS
(* configurations that are not configurations of a tensor of this rank       *)
BADS == CASE RANK = 1 -> {<<"x">>, <<"u", "u">>, <<>>} [] RANK = 2 -> {<<"u", "x">>, <<"u">>, <<"l", "l", "l">>}
          [] RANK = 3 -> {<<"u", "l">>} [] OTHER -> {<<"u", "l", "l", "L">>}
VARIABLES home, parent0, cfg, parent, val, path
ivars == <<home, parent0, cfg, parent, val, path>>
n == 2
Met(k) == IF k = 1 THEN <<QI(-2), Q(1, 3), Q(1, 3), QI(5)>> ELSE <<QI(3), QI(1), QI(1), QI(-1)>>
Primes == <<2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53>>
V0 == [i \in 1..IPow(n, RANK) |-> QI(Primes[i])]
Valid(c) == Len(c) = Len(cfg) /\ \A i \in 1..Len(c) : c[i] \in {"u", "l"}
IInit == /\ home \in Cfgs(RANK) /\ cfg = home /\ parent0 \in {0, 1} /\ parent = parent0 /\ val = V0 /\ path = <<>>
Emit(p) == PrintT("BEH|" \o ToJson([home |-> home, parent |-> parent0, path |-> p]))
Change(c, m) ==
  LET mm == IF m = 0 THEN parent ELSE m
      p == Append(path, [to |-> c, metric |-> m])
  IN /\ path' = p /\ Emit(p) /\ UNCHANGED <<home, parent0>>
     /\ IF Valid(c) /\ mm # 0
        THEN /\ cfg' = c /\ parent' = mm
             /\ val' = Reconf(n, Met(mm), NumInv(n, Met(mm)), cfg, c, val)
        ELSE UNCHANGED <<cfg, parent, val>>        \* an error leaves the tensor as it was
INext == Len(path) < MAXLEN /\ \E c \in Cfgs(RANK) \cup BADS : \E m \in METRICS : Change(c, m)
ISpec == IInit /\ [][INext]_ivars
OneMetric == \A i \in 1..Len(path) : path[i].metric \in {0, 1}
PathIndependent == OneMetric /\ parent # 0 =>
   LET d == Reconf(n, Met(1), NumInv(n, Met(1)), home, cfg, V0) IN \A i \in 1..Len(val) : IsZero(NSub(val[i], d[i]))
Restores == OneMetric /\ cfg = home => \A i \in 1..Len(val) : IsZero(NSub(val[i], V0[i]))
ConfigValid == cfg \in Cfgs(RANK)
=============================================================================
