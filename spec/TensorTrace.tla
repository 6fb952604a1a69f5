----------------------------- MODULE TensorTrace -----------------------------
(***************************************************************************)
(* C04-C09: the store of tensor objects a user builds, and the operations on *)
(* it.  The specification's state is the list of objects with their class,   *)
(* index configuration, name, parent metric and components at a point; every *)
(* operation appends what it must return.                                    *)
(***************************************************************************)
EXTENDS TraceBase, Geometry
TolS == P10(-11)
None == [none |-> TRUE]
Eval1(n, t, pt, pr) == JEval(n, 0, t, pt, pr)[1]
EvalAll(n, ts, pt, pr) == TLCEval([i \in 1..Len(ts) |-> Eval1(n, ts[i], pt, pr)])
SameVal(a, b) == Len(a) = Len(b) /\ EqvSeq(a, b, TolS, Q1)
ValidCfg(c) == \A i \in 1..Len(c) : c[i] \in {"u", "l"}

OpenSpace(e) ==
  LET g(k) == EvalAll(e.n, e.mets[k].comps, e.pt, e.pr)
  IN TLCEval([n |-> e.n, pt |-> e.pt, pr |-> e.pr, objs |-> <<>>,
      mets |-> TLCEval([k \in 1..Len(e.mets) |->
          LET m == TLCEval(g(k))  i == NumInv(e.n, m)
          IN IF e.mets[k].variance = "ll" THEN [g |-> m, gi |-> i] ELSE [g |-> i, gi |-> m]])])
AddObj(s, o) == [s EXCEPT !.objs = Append(@, o)]

(* what the operation returned (e.res) against what it must return (o)       *)
Returned(e, o, what) ==
  << <<what \o " succeeds", e.exc = "">>,
     <<what \o ": class", e.exc = "" => e.res.cls = o.cls>>,
     <<what \o ": index configuration", e.exc = "" => e.res.config = CfgStr(o.cfg)>>,
     <<what \o ": name", e.exc = "" => e.res.name = o.name>>,
     <<what \o ": parent metric", e.exc = "" => e.res.parent = o.parent>>,
     <<what \o ": components", e.exc = "" => SameVal(e.res.val, o.val)>> >>
Untouched(e, s, i, what) ==
  << <<what \o " leaves the original as it was",
       e.src_config = CfgStr(s.objs[i].cfg) /\ e.src_name = s.objs[i].name /\ SameVal(e.src_val, s.objs[i].val)>> >>
Tag(name, t) == IF name = "" THEN "" ELSE name \o "__" \o t

-----------------------------------------------------------------------------
TensorOp(s, e) ==
  LET o == [cls |-> e.cls, cfg |-> e.cfg, name |-> e.name, parent |-> e.parent, val |-> EvalAll(s.n, e.comps, s.pt, s.pr),
            comps |-> e.comps, sb |-> <<>>]
  IN R(AddObj(s, o), Returned(e, o, "construction"))

ChangeOp(s, e) ==
  LET src == s.objs[e.src]
      m == IF e.metric = 0 THEN src.parent ELSE e.metric
      legal == Len(e.to) = Len(src.cfg) /\ ValidCfg(e.to) /\ m # 0
      o == [src EXCEPT !.cfg = e.to, !.parent = m, !.name = Tag(src.name, CfgStr(e.to)),
                       !.val = Reconf(s.n, s.mets[m].g, s.mets[m].gi, src.cfg, e.to, src.val)]
  IN IF legal THEN R(AddObj(s, o), Returned(e, o, "change of configuration") \o Untouched(e, s, e.src, "change of configuration"))
     ELSE R(AddObj(s, src), << <<"a missing metric or an invalid configuration is an error", e.exc # "">> >>
                            \o Untouched(e, s, e.src, "a refused change of configuration"))

-----------------------------------------------------------------------------
(* metric tensors; an object of class MetricTensor carries which metric it is*)
Opp(c) == IF c = <<"l", "l">> THEN <<"u", "u">> ELSE <<"l", "l">>
MetVal(m, c) == IF c[1] = "l" THEN m.g ELSE m.gi
Both(n, c, v) == IF c[1] = "l" THEN [g |-> v, gi |-> NumInv(n, v)] ELSE [g |-> NumInv(n, v), gi |-> v]
MetricObjOp(s, e) ==
  LET k == e.metric  c == e.cfg
      o == [cls |-> "MetricTensor", cfg |-> c, name |-> e.name, parent |-> 0, val |-> MetVal(s.mets[k], c), met |-> s.mets[k]]
  IN R(AddObj(s, o), << <<"a metric is its own parent metric", e.res.self_parent>>, <<"metric components", SameVal(e.res.val, o.val)>> >>)
JudgeMetric(s, e, o, what) ==
  << <<what \o " succeeds", e.exc = "">>,
     <<what \o ": class", e.exc = "" => e.res.cls = "MetricTensor">>,
     <<what \o ": index configuration", e.exc = "" => e.res.config = CfgStr(o.cfg)>>,
     <<what \o ": components", e.exc = "" => SameVal(e.res.val, o.val)>>,
     <<what \o ": its own parent metric", e.exc = "" => e.res.self_parent>> >> \o Untouched(e, s, e.src, what)
InvOp(s, e) ==
  LET src == s.objs[e.src]  o == [src EXCEPT !.cfg = Opp(src.cfg), !.val = MetVal(src.met, Opp(src.cfg)), !.name = e.res.name]
  IN R(AddObj(s, o), JudgeMetric(s, e, o, "inverse"))
LowerOp(s, e) ==
  LET src == s.objs[e.src]  o == [src EXCEPT !.cfg = LL, !.val = src.met.g, !.name = e.res.name]
  IN R(AddObj(s, o), JudgeMetric(s, e, o, "lowering"))
MChangeOp(s, e) ==
  LET src == s.objs[e.src]
      legal == e.to \in {<<"l", "l">>, <<"u", "u">>}
      o == [src EXCEPT !.cfg = e.to, !.val = MetVal(src.met, e.to), !.name = e.res.name]
  IN IF legal THEN R(AddObj(s, o), JudgeMetric(s, e, o, "change to " \o CfgStr(e.to)))
     ELSE R(AddObj(s, src), << <<"any other configuration raises ValueError", e.exc = "ValueError">> >>
                             \o Untouched(e, s, e.src, "a refused change"))

-----------------------------------------------------------------------------
RemoveAt(c, k) == SubSeq(c, 1, k-1) \o SubSeq(c, k+1, Len(c))
InsertAt(ix, k, v) == SubSeq(ix, 1, k-1) \o <<v>> \o SubSeq(ix, k, Len(ix))
(* sum over position i of a with position j of b (1-based), or outer product *)
Outer(n, a, b) == TLCEval([p \in 1..Len(a.val)*Len(b.val) |->
                     NMul(a.val[((p-1) \div Len(b.val)) + 1], b.val[((p-1) % Len(b.val)) + 1])])
Contract(n, a, b, i, j) ==
  LET ra == Len(a.cfg)  rb == Len(b.cfg)  r == ra + rb - 2
  IN TLCEval([p \in 1..IPow(n, r) |->
       LET ix == Idx(n, r, p)
           ia == SubSeq(ix, 1, ra-1)  ib == SubSeq(ix, ra, r)
       IN NSum([m \in 1..n |-> NMul(a.val[Flat(n, InsertAt(ia, i, m-1))], b.val[Flat(n, InsertAt(ib, j, m-1))])])])
ProductOp(s, e) ==
  LET a == s.objs[e.a]  b == s.objs[e.b]
      plain == e.i < 0
      legal == plain \/ a.cfg[e.i+1] # b.cfg[e.j+1]
      c == IF plain THEN a.cfg \o b.cfg ELSE RemoveAt(a.cfg, e.i+1) \o RemoveAt(b.cfg, e.j+1)
      v == IF plain THEN Outer(s.n, a, b) ELSE Contract(s.n, a, b, e.i+1, e.j+1)
      o == [cls |-> "BaseRelativityTensor", cfg |-> c, name |-> "", parent |-> 0, val |-> v]
  IN IF ~legal THEN R(AddObj(s, None), << <<"contracting two indices of one type raises ValueError", e.exc = "ValueError">> >>)
     ELSE R(AddObj(s, o), << <<"product succeeds", e.exc = "">>,
              <<"product: index configuration", e.exc = "" => e.res.config = CfgStr(c)>>,
              <<"product: components", e.exc = "" => SameVal(e.res.val, v)>>,
              <<"product can be evaluated in all its symbols", e.exc = "" => SameVal(e.lam, v)>> >>)

-----------------------------------------------------------------------------
Transp(n, m) == [q \in 1..n*n |-> m[((q-1) % n)*n + ((q-1) \div n) + 1]]
RECURSIVE TransformFrom(_,_,_,_,_,_,_)
TransformFrom(n, r, L, Lit, c, t, k) ==
  IF k > r THEN t ELSE TransformFrom(n, r, L, Lit, c, NApplyAt(n, r, IF c[k] = "u" THEN L ELSE Lit, k, t), k+1)
(* upper: T'^a = L^a_b T^b;  lower: T'_a = (L^-1)^b_a T_b                      *)
Transform(n, L, c, t) == TransformFrom(n, Len(c), L, TLCEval(Transp(n, NumInv(n, L))), c, t, 1)
TransformOp(s, e) ==
  LET src == s.objs[e.src]
      L == EvalAll(s.n, e.mat, s.pt, s.pr)
      met == src.cls = "MetricTensor"
      v == TLCEval(Transform(s.n, L, src.cfg, src.val))
      o == LET t == [src EXCEPT !.parent = e.res.parent, !.name = e.res.name, !.val = v]
           IN IF met /\ "met" \in DOMAIN src THEN [t EXCEPT !.met = TLCEval(Both(s.n, src.cfg, v))] ELSE t
  IN R(AddObj(s, o), << <<"transformation succeeds", e.exc = "">>,
        <<"transformation: class", e.exc = "" => e.res.cls = src.cls>>,
        <<"transformation: index configuration", e.exc = "" => e.res.config = CfgStr(src.cfg)>>,
        <<"transformation: symbols", e.exc = "" => e.res.syms_same>>,
        <<"transformation: no parent metric", e.exc = "" => (e.res.parent = 0 \/ (met /\ e.res.self_parent))>>,
        <<"transformation: name records it", e.exc = "" /\ src.name # "" => e.name_tagged>>,
        <<"transformation: components", e.exc = "" => SameVal(e.res.val, o.val)>> >> \o Untouched(e, s, e.src, "transformation"))

-----------------------------------------------------------------------------
(* substitutions are made one after the other; the value afterwards is that of *)
(* the original components where the last substitution is applied to the point *)
(* first, then the one before, and so on                                      *)
RECURSIVE EnvBy(_,_,_,_)
EnvBy(n, bs, pt, pr) ==
  IF bs = <<>> THEN [pt |-> pt, pr |-> pr]
  ELSE LET f == EnvBy(n, Tail(bs), pt, pr)  v == Eval1(n, bs[1].e, f.pt, f.pr)
       IN IF bs[1].k = "x" THEN [f EXCEPT !.pt[bs[1].i] = v] ELSE [f EXCEPT !.pr[bs[1].i] = v]
SubsOp(s, e) ==
  LET src == s.objs[e.src]
      sb == src.sb \o e.by
      env == TLCEval(EnvBy(s.n, sb, s.pt, s.pr))
      v == EvalAll(s.n, src.comps, env.pt, env.pr)
      o == [src EXCEPT !.cls = "Tensor", !.sb = sb, !.val = v, !.parent = 0]
  IN R(AddObj(s, o), << <<"substitution succeeds", e.exc = "">>,
             <<"substitution keeps rank and configuration", e.exc = "" => e.res.config = CfgStr(src.cfg) /\ e.res.order = Len(src.cfg)>>,
             <<"substitution keeps the name", e.exc = "" => e.res.name = src.name>>,
             <<"substitution evaluates in the given order at the given values", e.exc = "" => SameVal(e.res.val, v)>> >> \o Untouched(e, s, e.src, "substitution"))
SimplifyOp(s, e) ==
  LET src == s.objs[e.src]
  IN R(s, << <<"simplification succeeds", e.exc = "">>,
             <<"simplification keeps every value", e.exc = "" => (e.shape_ok /\ SameVal(e.res_val, src.val))>>,
             <<"simplification keeps the tensor", SameVal(e.src_val, src.val) /\ e.src_config = CfgStr(src.cfg)>> >>)
LambdifyOp(s, e) ==
  LET src == s.objs[e.src]
  IN R(s, << <<"lambdification succeeds", e.exc = "">>,
             <<"generated function has the layout of the tensor", e.exc = "" => e.shape = [i \in 1..Len(src.cfg) |-> s.n]>>,
             <<"generated function takes the listed arguments", e.exc = "" => e.args_ok>>,
             <<"generated function gives the components", e.exc = "" => Len(e.val) = Len(src.val) /\ EqvSeq(e.val, src.val, P10(-9), Q1)>> >>)

TStep(s, e) ==
  CASE e.op = "space" -> OK(OpenSpace(e))
    [] e.op = "tensor" -> TensorOp(s, e)
    [] e.op = "change" -> ChangeOp(s, e)
    [] e.op = "metric" -> MetricObjOp(s, e)
    [] e.op = "inv" -> InvOp(s, e)
    [] e.op = "lower" -> LowerOp(s, e)
    [] e.op = "mchange" -> MChangeOp(s, e)
    [] e.op = "product" -> ProductOp(s, e)
    [] e.op = "transform" -> TransformOp(s, e)
    [] e.op = "subs" -> SubsOp(s, e)
    [] e.op = "simplify" -> SimplifyOp(s, e)
    [] e.op = "lambdify" -> LambdifyOp(s, e)
    [] OTHER -> R(s, << <<"unknown event " \o e.op, FALSE>> >>)
=============================================================================
