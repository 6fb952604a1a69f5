------------------------------- MODULE Routes -------------------------------
(***************************************************************************)
(* The derivation routes of the curvature pipeline: from a metric the        *)
(* library derives objects directly, from one another, in any index          *)
(* configuration, with or without a parent metric attached.  The state is    *)
(* the object at hand; every behaviour is a route to it.  TLC enumerates all  *)
(* routes of at most MAXLEN steps; the driver follows them in the real code. *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS MAXLEN, KINDS, MAXRECONF, PARENTLESS
VARIABLES kind, cfg, parent, path

Rank == [christoffel |-> 3, riemann |-> 4, ricci |-> 2, scalar |-> 0, einstein |-> 2, schouten |-> 2, weyl |-> 4, stress |-> 2]
Home == [christoffel |-> "ull", riemann |-> "ulll", ricci |-> "ll", scalar |-> "", einstein |-> "ll", schouten |-> "ll", weyl |-> "llll", stress |-> "ll"]
RECURSIVE Cfgs(_)
Cfgs(r) == IF r = 0 THEN {""} ELSE {a \o b : a \in {"u", "l"}, b \in Cfgs(r-1)}
Below == [christoffel |-> {"riemann", "ricci", "scalar"}, riemann |-> {"ricci", "scalar"}, ricci |-> {"scalar"},
          scalar |-> {}, einstein |-> {}, schouten |-> {}, weyl |-> {}, stress |-> {}]
NRe == Len(SelectSeq(path, LAMBDA a : a[1] = "reconf"))
Init == kind = "metric" /\ cfg = "" /\ parent = TRUE /\ path = <<>>
FromMetric(k) == /\ kind = "metric" /\ kind' = k /\ cfg' = Home[k] /\ parent' = TRUE
                 /\ path' = <<<<"from_metric", k>>>>
Down(k) == /\ kind # "metric" /\ k \in Below[kind] /\ k \in KINDS
           /\ kind' = k /\ cfg' = Home[k] /\ parent' = TRUE
           /\ path' = Append(path, <<"down", k>>)
Reconf(c) == /\ kind \in DOMAIN Rank /\ kind # "scalar" /\ NRe < MAXRECONF
             /\ c \in Cfgs(Rank[kind]) /\ c # cfg
             /\ cfg' = c /\ kind' = kind /\ parent' = TRUE
             /\ path' = Append(path, <<"reconf", c>>)
Orphan == /\ PARENTLESS /\ kind \in {"christoffel", "riemann", "ricci"} /\ parent
          /\ parent' = FALSE /\ UNCHANGED <<kind, cfg>>
          /\ path' = Append(path, <<"orphan", "">>)
Next == /\ Len(path) < MAXLEN
        /\ \/ \E k \in KINDS : FromMetric(k) \/ Down(k)
           \/ (kind # "metric" /\ \E c \in Cfgs(Rank[kind]) : Reconf(c))
           \/ Orphan
        /\ PrintT("BEH|" \o ToJson([path |-> path', kind |-> kind', cfg |-> cfg']))
Spec == Init /\ [][Next]_<<kind, cfg, parent, path>>
(* a route always ends in a proper object in a configuration of its rank     *)
WellFormed == kind = "metric" \/ (kind \in KINDS /\ cfg \in Cfgs(Rank[kind]))
OneParentlessAtATime == parent \/ kind \in {"christoffel", "riemann", "ricci"}
=============================================================================
