--------------------------- MODULE CurvatureTrace ---------------------------
(* C01, C02, C03: recorded curvature tensors of a symbolic metric, at a      *)
(* point, against the curvature of that metric.                              *)
EXTENDS TraceBase, Geometry

TolS == P10(-11)
RankOf(kind) == CASE kind = "metric" -> 2 [] kind = "christoffel" -> 3 [] kind = "riemann" -> 4
                  [] kind = "weyl" -> 4 [] kind = "scalar" -> 0 [] OTHER -> 2

(* c^4/(8 pi G) (G_ab - Lambda g_ab);  k = <<c, G, Lambda>>                  *)
StressOf(k, ein, g) ==
  LET f == NDiv(NPowN(k[1], 4), NMul(NMul(QI(8), QPi), k[2]))
  IN TLCEval([i \in 1..Len(ein) |-> NMul(f, NSub(ein[i], NMul(k[3], g[i])))])

AtPoint(s, e) ==
  LET j == MetricJets(s.n, s.K, s.comps, e.pt, e.pr)
      g == IF s.variance = "ll" THEN j ELSE JMatInv(s.n, s.K, j)
      o == Objects(s.n, s.K, g)
  IN TLCEval([n |-> s.n, K |-> s.K, comps |-> s.comps, variance |-> s.variance,
      dg |-> TLCEval([w \in 1..s.n |-> TLCEval([q \in 1..s.n*s.n |-> JD(s.n, w, g[q])[1]])]),
      stress |-> IF Len(e.consts) = 3 THEN Obj(LL, StressOf(e.consts, o.einstein.val, o.metric.val)) ELSE Obj(LL, <<>>),
      o |-> o])

(* floor for comparisons: the curvature at hand sets the scale               *)
ScaleOf(s) == QMax(Q1, QMaxAbs(s.o.riemann.val))

JudgeObj(s, e) ==
  LET ref == IF e.kind = "stress" THEN s.stress ELSE s.o[e.kind]
      r == RankOf(e.kind)
      want == Reconf(s.n, s.o.metric.val, s.o.inv, ref.cfg, e.want, ref.val)
      shape == Len(e.val) = IPow(s.n, r) /\ Len(e.want) = r
  IN << <<"index configuration of " \o e.kind, e.config = CfgStr(e.want)>>,
        <<e.kind \o " has the right shape", shape>>,
        <<e.kind \o " has the components of its definition",
          Implies(shape, EqvSeq(e.val, want, TolS, ScaleOf(s)))>> >>

-----------------------------------------------------------------------------
(* C03: identities that the recorded tensors themselves must satisfy         *)
Vanish(s, xs) == \A i \in 1..Len(xs) : Near(xs[i], Q0, ScaleOf(s), P10(-10))
T2(n, t, i, j) == t[i*n + j + 1]
T4(n, t, i, j, k, l) == t[((i*n + j)*n + k)*n + l + 1]
SetSeq4(n, F(_,_,_,_)) == TLCEval([q \in 1..n*n*n*n |-> LET x == Idx(n, 4, q) IN F(x[1], x[2], x[3], x[4])])
Torsion(n, gm) == [q \in 1..n*n*n |-> LET x == Idx(n, 3, q) IN NSub(gm[q], gm[Flat(n, <<x[1], x[3], x[2]>>)])]
NonMetricity(n, g, dg, gm) ==
  [q \in 1..n*n*n |-> LET x == Idx(n, 3, q)  i == x[1]  j == x[2]  k == x[3] IN
     NSub(T2(n, dg[k+1], i, j),
          NSum([m \in 1..n |-> NAdd(NMul(gm[Flat(n, <<m-1, k, i>>)], T2(n, g, m-1, j)), NMul(gm[Flat(n, <<m-1, k, j>>)], T2(n, g, i, m-1)))]))]
Asym(n, t) == [q \in 1..n*n |-> LET x == Idx(n, 2, q) IN NSub(t[q], T2(n, t, x[2], x[1]))]
Divergence(n, gi, gm, t, dt) ==
  [b \in 1..n |-> NSum([ac \in 1..n*n |->
     LET a == (ac-1) \div n  c == (ac-1) % n IN
     NMul(gi[ac], NSub(dt[c*n*n + a*n + b],
        NAdd(NSum([m \in 1..n |-> NMul(gm[Flat(n, <<m-1, c, a>>)], T2(n, t, m-1, b-1))]),
             NSum([m \in 1..n |-> NMul(gm[Flat(n, <<m-1, c, b-1>>)], T2(n, t, a, m-1))]))))])]
Traces(n, gi, w, p1, p2) ==       \* contraction of positions p1 < p2 of a rank 4 tensor
  [q \in 1..n*n |-> LET y == Idx(n, 2, q)
                        rest == SelectSeq(<<1, 2, 3, 4>>, LAMBDA z : z # p1 /\ z # p2) IN
     NSum([ab \in 1..n*n |-> NMul(gi[ab], w[Flat(n, [z \in 1..4 |-> IF z = p1 THEN (ab-1) \div n ELSE IF z = p2 THEN (ab-1) % n
                                                        ELSE IF z = rest[1] THEN y[1] ELSE y[2]])])])]
JudgeIdent(s, e) ==
  LET n == s.n  g == s.o.metric.val  gi == s.o.inv  rl == e.riemann_llll  r == e.riemann
      shapes == /\ Len(e.christoffel) = n*n*n /\ Len(r) = IPow(n, 4) /\ Len(rl) = IPow(n, 4)
                /\ Len(e.ricci) = n*n /\ Len(e.einstein) = n*n /\ Len(e.deinstein) = n*n*n
                /\ IsNumSeq(e.christoffel) /\ IsNumSeq(r) /\ IsNumSeq(rl) /\ IsNumSeq(e.ricci) /\ IsNumSeq(e.einstein)
                /\ IsNumSeq(e.deinstein) /\ IsNumSeq(e.schouten) /\ IsNumSeq(e.weyl) /\ IsNumSeq(e.stress)
      opt(t, k) == Len(t) = 0 \/ Len(t) = k
  IN << <<"shapes", shapes /\ opt(e.schouten, n*n) /\ opt(e.weyl, IPow(n, 4)) /\ opt(e.stress, n*n)>>,
        <<"connection is torsion free", shapes => Vanish(s, Torsion(n, e.christoffel))>>,
        <<"connection is metric compatible", shapes => Vanish(s, NonMetricity(n, g, s.dg, e.christoffel))>>,
        <<"Riemann antisymmetric in the last pair", shapes => Vanish(s, SetSeq4(n, LAMBDA i, j, k, l : NAdd(T4(n, r, i, j, k, l), T4(n, r, i, j, l, k))))>>,
        <<"Riemann antisymmetric in the first pair", shapes => Vanish(s, SetSeq4(n, LAMBDA i, j, k, l : NAdd(T4(n, rl, i, j, k, l), T4(n, rl, j, i, k, l))))>>,
        <<"Riemann pair symmetry", shapes => Vanish(s, SetSeq4(n, LAMBDA i, j, k, l : NSub(T4(n, rl, i, j, k, l), T4(n, rl, k, l, i, j))))>>,
        <<"first Bianchi identity", shapes => Vanish(s, SetSeq4(n, LAMBDA i, j, k, l : NSum(<<T4(n, r, i, j, k, l), T4(n, r, i, k, l, j), T4(n, r, i, l, j, k)>>)))>>,
        <<"Ricci is symmetric", shapes => Vanish(s, Asym(n, e.ricci))>>,
        <<"Einstein is symmetric", shapes => Vanish(s, Asym(n, e.einstein))>>,
        <<"Schouten is symmetric", Len(e.schouten) = n*n /\ shapes => Vanish(s, Asym(n, e.schouten))>>,
        <<"stress-energy is symmetric", Len(e.stress) = n*n /\ shapes => Vanish(s, Asym(n, e.stress))>>,
        <<"Einstein is divergence free", shapes => Vanish(s, Divergence(n, gi, e.christoffel, e.einstein, e.deinstein))>>,
        <<"Weyl is trace free", Len(e.weyl) = IPow(n, 4) /\ shapes =>
             \A p \in {<<1,2>>, <<1,3>>, <<1,4>>, <<2,3>>, <<2,4>>, <<3,4>>} : Vanish(s, Traces(n, gi, e.weyl, p[1], p[2]))>>,
        <<"Weyl has the symmetries of Riemann", Len(e.weyl) = IPow(n, 4) /\ shapes =>
             /\ Vanish(s, SetSeq4(n, LAMBDA i, j, k, l : NAdd(T4(n, e.weyl, i, j, k, l), T4(n, e.weyl, j, i, k, l))))
             /\ Vanish(s, SetSeq4(n, LAMBDA i, j, k, l : NSub(T4(n, e.weyl, i, j, k, l), T4(n, e.weyl, k, l, i, j))))>> >>

TStep(s, e) ==
  CASE e.op = "metric" -> OK([n |-> e.n, K |-> e.K, comps |-> e.comps, variance |-> e.variance])
    [] e.op = "point" -> OK(AtPoint(s, e))
    [] e.op = "object" -> R(s, JudgeObj(s, e))
    [] e.op = "identities" -> R(s, JudgeIdent(s, e))
    [] e.op = "refused" -> R(s, << <<"dimension below 3 raises ValueError for " \o e.kind,
                                     e.exc = (IF s.n < 3 /\ e.kind \in {"weyl", "schouten"} THEN "ValueError" ELSE "")>> >>)
    [] OTHER -> R(s, << <<"unknown event " \o e.op, FALSE>> >>)
=============================================================================
