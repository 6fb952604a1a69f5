--------------------------- MODULE ConstructModel ---------------------------
(***************************************************************************)
(* Construction requests: starting from a valid request, up to DEPTH of its  *)
(* fields are replaced by arbitrary values of that field.  Every request     *)
(* reached is printed with the verdict.                                      *)
(***************************************************************************)
EXTENDS Construct, TLC, Json, FiniteSets
CONSTANTS DEPTH, DIMS
VARIABLES req, changed
cvars == <<req, changed>>
Kinds == Scalars \cup Containers \cup NotData
Cube(n, r) == [i \in 1..r |-> n]
Shapes(n) == {Cube(n, r) : r \in 0..4} \cup {<<n, n+1>>, <<n+1, n>>, <<n, n+1, n>>, <<n+1>>}
CfgStrs == {<<>>, <<"u">>, <<"l">>, <<"u","l">>, <<"l","l">>, <<"u","u">>, <<"u","l","l">>, <<"l","l","l">>, <<"u","l","l","l">>,
            <<"l","u","u","l">>, <<"U">>, <<"l","x">>, <<"u","L","l">>, <<"u"," ","l">>, <<"d","l","l","l">>, <<"u","l","l","l","l">>}
Valid0(c, n) ==
  {[cls |-> c, n |-> n, kind |-> k, shape |-> Cube(n, Len(cf)), cfgkind |-> "str", cfg |-> cf, nsyms |-> n, symskind |-> "list", varskind |-> "absent", funcskind |-> "absent"] :
     k \in {"list"}, cf \in {x \in CfgStrs : (\A i \in 1..Len(x) : x[i] \in {"u", "l"}) /\ Len(x) \in 1..4 /\ (c \notin AnyRank => Len(x) = RankOf(c))}}
Scalar0(c, n) == {[cls |-> c, n |-> n, kind |-> "expr", shape |-> <<>>, cfgkind |-> "str", cfg |-> <<>>, nsyms |-> n, symskind |-> "list", varskind |-> "absent", funcskind |-> "absent"]}
CInit == /\ \E c \in Classes : \E n \in DIMS : req \in (IF c \in AnyRank THEN Valid0(c, n) \cup Scalar0(c, n)
                                                        ELSE IF c = "RicciScalar" THEN Scalar0(c, n) ELSE Valid0(c, n))
         /\ changed = {}
         /\ PrintT("BEH|" \o ToJson([req |-> req, ok |-> Accept(req)]))
Sane(r) == /\ (r.kind \in Scalars \cup NotData => r.shape = <<>>)
           /\ (r.kind \in Containers => Len(r.shape) > 0)
           /\ (r.cls = "RicciScalar" => r.cfgkind = "str" /\ r.cfg = <<>>)     \* takes no configuration
           /\ (r.cls # "BaseRelativityTensor" => r.varskind = "absent" /\ r.funcskind = "absent")  \* takes no lists
           /\ (r.cls = "Tensor" => r.symskind = "list" /\ r.nsyms = r.n)        \* takes no symbols
           /\ (r.cfgkind # "str" => r.cfg = <<>>)
Put(f, r) == /\ f \notin changed /\ r # req /\ Sane(r)
             /\ req' = r /\ changed' = changed \cup {f}
             /\ PrintT("BEH|" \o ToJson([req |-> r, ok |-> Accept(r)]))
CNext == /\ Cardinality(changed) < DEPTH
         /\ \/ \E k \in Kinds : Put("data", [req EXCEPT !.kind = k, !.shape = IF k \in Containers THEN @ ELSE <<>>])
            \/ \E k \in Containers : \E s \in Shapes(req.n) : Put("data", [req EXCEPT !.kind = k, !.shape = s])
            \/ \E s \in CfgStrs : Put("cfg", [req EXCEPT !.cfgkind = "str", !.cfg = s])
            \/ \E k \in {"default", "int", "tuple", "list", "none"} : Put("cfg", [req EXCEPT !.cfgkind = k, !.cfg = <<>>])
            \/ \E m \in 0..(req.n+1) : Put("nsyms", [req EXCEPT !.nsyms = m])
            \/ \E k \in {"tuple", "set", "str", "none", "dict"} : Put("symskind", [req EXCEPT !.symskind = k])
            \/ \E k \in {"list", "tuple", "set", "str", "int", "none", "dict"} : Put("varskind", [req EXCEPT !.varskind = k])
            \/ \E k \in {"list", "tuple", "set", "str", "int", "none", "dict"} : Put("funcskind", [req EXCEPT !.funcskind = k])
CSpec == CInit /\ [][CNext]_cvars
(* the statement read backwards: what was refused has a reason, and a reason is not curable by another field *)
Reasons == Accept(req) <=> (DataOK(req) /\ CfgOK(req) /\ RankOK(req) /\ SymsOK(req) /\ VarsOK(req))
StartsValid == changed = {} => Accept(req)
NoSymbolsNeeded == req.cls = "Tensor" => SymsOK(req)
=============================================================================
