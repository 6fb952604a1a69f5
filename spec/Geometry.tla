------------------------------ MODULE Geometry ------------------------------
(***************************************************************************)
(* The tensor objects of the library's symbolic part as specification       *)
(* values: each object has an index configuration (sequence of "u"/"l") and  *)
(* its components at a point.  Reconf is the only way configurations change.*)
(***************************************************************************)
EXTENDS Tensor

NDotSeq(a, b) == NDot(a, b)
(* numeric contraction of matrix m into index position k                     *)
NApplyAt(n, r, m, k, t) ==
  TLCEval([q \in 1..IPow(n, r) |->
    LET ix == Idx(n, r, q)
    IN NDot([a \in 1..n |-> MatAt(n, m, ix[k]+1, a)], [a \in 1..n |-> t[Flat(n, [ix EXCEPT ![k] = a-1])]])])

RECURSIVE ReconfFrom(_,_,_,_,_,_,_,_)
ReconfFrom(n, r, g, gi, from, to, t, k) ==
  IF k > r THEN t
  ELSE ReconfFrom(n, r, g, gi, from, to,
         IF from[k] = to[k] THEN t ELSE NApplyAt(n, r, IF to[k] = "u" THEN gi ELSE g, k, t), k+1)
Reconf(n, g, gi, from, to, t) == ReconfFrom(n, Len(from), g, gi, from, to, t, 1)

RECURSIVE CfgStrI(_,_)
CfgStrI(s, i) == IF i > Len(s) THEN "" ELSE s[i] \o CfgStrI(s, i+1)
CfgStr(s) == CfgStrI(s, 1)
Cfgs(r) == [1..r -> {"u", "l"}]

Obj(cfg, t) == [cfg |-> cfg, val |-> t]
LL == <<"l", "l">>
LLLL == <<"l", "l", "l", "l">>
(* every curvature object of the metric of jets g (covariant), order K >= 2  *)
Objects(n, K, g) ==
  LET c == Curvature(n, K, g)
      gv == Values(g)  giv == Values(c.gi)
      rl == LowerFirst(n, 4, g, c.riemann)
      sch == IF n >= 3 THEN Schouten(n, g, c.ricci, c.scalar) ELSE c.ricci
      base == [metric |-> Obj(LL, gv), inv |-> giv,
               christoffel |-> Obj(<<"u", "l", "l">>, Values(c.gamma)),
               riemann |-> Obj(<<"u", "l", "l", "l">>, Values(c.riemann)),
               ricci |-> Obj(LL, Values(c.ricci)), scalar |-> Obj(<<>>, <<c.scalar[1]>>),
               einstein |-> Obj(LL, Values(c.einstein)),
               schouten |-> Obj(LL, Values(sch)),
               weyl |-> Obj(LLLL, IF n < 3 THEN <<>> ELSE Values(Weyl(n, g, rl, sch)))]
  IN TLCEval(base)
(* covariant divergence g^ac nabla_c T_ab of a symmetric (0,2) tensor of jets *)
(* of order >= 1, as numbers                                                 *)
DivOf(n, gi, gm, t) ==
  LET dt == [w \in 1..n |-> [q \in 1..n*n |-> JD(n, w, t[q])[1]]]
      tv == Values(t)  gmv == Values(gm)  giv == Values(gi)
      nab(c, a, b) == NSub(dt[c][(a-1)*n + b],
          NAdd(NDot([m \in 1..n |-> gmv[Flat(n, <<m-1, c-1, a-1>>)]], [m \in 1..n |-> tv[(m-1)*n + b]]),
               NDot([m \in 1..n |-> gmv[Flat(n, <<m-1, c-1, b-1>>)]], [m \in 1..n |-> tv[(a-1)*n + m]])))
  IN TLCEval([b \in 1..n |-> NSum([ac \in 1..n*n |->
        NMul(giv[ac], nab(((ac-1) % n) + 1, ((ac-1) \div n) + 1, b))])])
=============================================================================
