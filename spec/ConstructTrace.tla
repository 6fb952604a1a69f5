---------------------------- MODULE ConstructTrace ----------------------------
(***************************************************************************)
(* C08: recorded constructions judged by Construct.  Components are trees;    *)
(* parameters 1..e.npar are free symbols of the data, the following ones      *)
(* stand for applied undefined functions.                                    *)
(***************************************************************************)
EXTENDS TraceBase, Geometry, Construct, FiniteSets
RECURSIVE Params(_)
Params(t) == IF t[1] = "p" THEN {t[2]} ELSE IF t[1] \in {"c", "v"} THEN {}
             ELSE IF t[1] \in {"^", "powq"} THEN Params(t[2])
             ELSE UNION {Params(t[i]) : i \in 2..Len(t)}
Used(e) == UNION {Params(e.comps[i]) : i \in 1..Len(e.comps)}
EvalAll(n, ts, pt, pr) == [i \in 1..Len(ts) |-> JEval(n, 0, ts[i], pt, pr)[1]]
(* names sorted: prank gives the alphabetical rank of every parameter         *)
SortedVars(e) == LET u == {k \in Used(e) : k <= e.npar}
                 IN [i \in 1..Cardinality(u) |-> CHOOSE k \in u : Cardinality({j \in u : e.prank[j] < e.prank[k]}) = i - 1]
Set(s) == {s[i] : i \in 1..Len(s)}
Prod(s) == IF Len(s) = 0 THEN 1 ELSE IF Len(s) = 1 THEN s[1] ELSE IF Len(s) = 2 THEN s[1]*s[2]
           ELSE IF Len(s) = 3 THEN s[1]*s[2]*s[3] ELSE s[1]*s[2]*s[3]*s[4]
ConstructOp(s, e) ==
  LET r == e.req
      ok == Accept(r)
      c == CfgOf(r)
      m == e.meta
      g == ok /\ e.exc = ""
      v == TLCEval(EvalAll(e.nx, e.comps, e.pt, e.pr))
      b == r.cls # "Tensor"
  IN R(s, << <<"a valid tensor is accepted", ok => e.exc = "">>,
             <<"an invalid tensor raises TypeError or ValueError", ~ok => e.exc \in {"TypeError", "ValueError"}>>,
             <<"order", g => m.order = Len(c)>>,
             <<"configuration", g => m.config = CfgStr(c)>>,
             <<"name", g => m.name = IF e.name = "default" THEN DefaultName(r.cls) ELSE e.name>>,
             <<"shape of the components", g => m.shape = r.shape>>,
             <<"components", g => (Len(m.val) = Prod(r.shape) /\ EqvSeq(m.val, v, P10(-12), Q1))>>,
             <<"indexing gives the component", g => \A i \in 1..Len(m.items) : Eqv(m.items[i].val, v[m.items[i].at], P10(-12), Q1)>>,
             <<"symbols as given", g /\ b => m.syms_same>>,
             <<"dimension", g /\ b => m.dims = r.nsyms>>,
             <<"variables as given", g /\ b /\ e.vars_given # <<>> => Set(m.variables) = Set(e.vars_given) /\ Len(m.variables) = Len(e.vars_given)>>,
             <<"free variables sorted, without coordinates", g /\ b /\ e.vars_given = <<>> => m.variables = SortedVars(e)>>,
             <<"functions as given", g /\ b /\ e.funcs_given # <<>> => Set(m.functions) = Set(e.funcs_given) /\ Len(m.functions) = Len(e.funcs_given)>>,
             <<"undefined functions", g /\ b /\ e.funcs_given = <<>> => Set(m.functions) = {k \in Used(e) : k > e.npar} /\ Len(m.functions) = Cardinality(Set(m.functions))>>,
             <<"parent metric as given", g /\ b => m.parent_ok>> >>)
TStep(s, e) == CASE e.op = "construct" -> ConstructOp(s, e)
                 [] OTHER -> R(s, << <<"unknown event " \o e.op, FALSE>> >>)
=============================================================================
