------------------------------ MODULE Construct ------------------------------
(***************************************************************************)
(* C08: what a construction request is and when it is accepted.  A request   *)
(* has a class, the kind and shape of the data, a configuration (a sequence  *)
(* of characters when it is a string), coordinate symbols and optional lists *)
(* of variables and functions.                                                           *)
(***************************************************************************)
EXTENDS Naturals, Sequences
Rank2 == {"MetricTensor", "RicciTensor", "EinsteinTensor", "SchoutenTensor", "StressEnergyMomentumTensor"}
Rank4 == {"RiemannCurvatureTensor", "WeylTensor"}
AnyRank == {"Tensor", "BaseRelativityTensor"}
Classes == AnyRank \cup Rank2 \cup Rank4 \cup {"ChristoffelSymbols", "GenericVector", "RicciScalar"}
RankOf(c) == CASE c \in Rank2 -> 2 [] c \in Rank4 -> 4 [] c = "ChristoffelSymbols" -> 3 [] c = "GenericVector" -> 1 [] OTHER -> 0
DefaultCfg(c) == CASE c \in Rank2 \cup AnyRank -> <<"l", "l">> [] c \in Rank4 -> <<"u", "l", "l", "l">>
                   [] c = "ChristoffelSymbols" -> <<"u", "l", "l">> [] c = "GenericVector" -> <<"u">> [] OTHER -> <<>>
DefaultName(c) == CASE c = "Tensor" -> "" [] c = "BaseRelativityTensor" -> "GenericTensor" [] c = "MetricTensor" -> "GenericMetricTensor" [] OTHER -> c
Scalars == {"int", "float", "expr", "npnum"}
Containers == {"list", "tuple", "ndarray", "sympy"}
NotData == {"str", "dict", "none", "set", "function"}
CfgOf(r) == IF r.cfgkind = "default" THEN DefaultCfg(r.cls) ELSE r.cfg
DataOK(r) == r.kind \in Scalars \cup Containers
CfgOK(r) == /\ r.cfgkind \in {"str", "default"}
            /\ \A i \in 1..Len(CfgOf(r)) : CfgOf(r)[i] \in {"u", "l"}
RankOK(r) == /\ Len(CfgOf(r)) = Len(r.shape)
             /\ (r.cls \notin AnyRank => Len(r.shape) = RankOf(r.cls))
SymsOK(r) == r.cls = "Tensor" \/ (/\ r.symskind \in {"list", "tuple"}
                                  /\ (Len(r.shape) > 0 => r.shape[1] = r.nsyms))
VarsOK(r) == r.varskind \in {"absent", "list", "tuple", "set"} /\ r.funcskind \in {"absent", "list", "tuple", "set"}
Accept(r) == DataOK(r) /\ CfgOK(r) /\ RankOK(r) /\ SymsOK(r) /\ VarsOK(r)
=============================================================================
