--------------------------- MODULE CurvatureDesign ---------------------------
(***************************************************************************)
(* The pipeline of Tensor.tla on its own, in exact arithmetic (PREC = 0),    *)
(* over a finite family of rational metrics in dimensions 2 to 4 and points: *)
(* every state is one object in one index configuration, reached by a        *)
(* history of derivations and configuration changes.                        *)
(***************************************************************************)
EXTENDS Geometry
CONSTANT NFAM, MAXCH
VARIABLES fam, pt, base, kind, cfg, val, hist
dvars == <<fam, pt, base, kind, cfg, val, hist>>

C(k) == <<"c", QI(k)>>
X(i) == <<"v", i>>
Plus(a, b) == <<"+", a, b>>
Times(a, b) == <<"*", a, b>>
Sqr(a) == <<"^", a, 2>>
Zr == C(0)
Family == <<
  [n |-> 2, g |-> <<C(1), Zr, Zr, Sqr(X(1))>>],                                             \* plane, polar
  [n |-> 2, g |-> <<Plus(C(1), Sqr(X(2))), X(1), X(1), Plus(C(3), X(1))>>],
  [n |-> 3, g |-> <<<<"neg", Plus(C(1), Sqr(X(2)))>>, C(1), Zr, C(1), Plus(C(2), X(1)), X(3), Zr, X(3), C(4)>>],
  [n |-> 3, g |-> <<C(1), Zr, Zr, Zr, Sqr(X(1)), Zr, Zr, Zr, Times(Sqr(X(1)), Plus(C(1), <<"neg", Sqr(X(2))>>))>>],
  [n |-> 4, g |-> <<<<"neg", <<"-", C(1), <<"/", C(2), X(2)>>>>>>, Zr, Zr, Zr,                    \* Schwarzschild, u = cos theta
                    Zr, <<"/", C(1), <<"-", C(1), <<"/", C(2), X(2)>>>>>>, Zr, Zr,
                    Zr, Zr, <<"/", Sqr(X(2)), <<"-", C(1), Sqr(X(3))>>>>, Zr,
                    Zr, Zr, Zr, Times(Sqr(X(2)), <<"-", C(1), Sqr(X(3))>>)>>],
  [n |-> 4, g |-> <<Times(Sqr(X(2)), X(3)), Zr, Zr, C(1), Zr, Plus(C(1), X(1)), Zr, Zr,       \* no diagonal time
                    Zr, Zr, C(2), X(2), C(1), Zr, X(2), Zr>>],
  [n |-> 2, g |-> <<Zr, Plus(C(2), Times(X(1), X(2))), Plus(C(2), Times(X(1), X(2))), C(1)>>],
  [n |-> 3, g |-> <<Zr, C(1), X(3), C(1), Zr, Zr, X(3), Zr, Plus(C(1), Sqr(X(1)))>>],
  [n |-> 4, g |-> <<<<"neg", C(1)>>, Zr, Zr, Zr, Zr, Sqr(X(1)), Zr, Zr, Zr, Zr, Times(Sqr(X(1)), Sqr(X(2))), Zr,
                    Zr, Zr, Zr, Times(X(1), X(3))>>],
  [n |-> 4, g |-> <<Plus(C(2), X(4)), C(1), Zr, Zr, C(1), C(-3), Zr, Zr, Zr, Zr, Plus(C(5), Times(X(1), X(2))), X(3), Zr, Zr, X(3), C(1)>>],
  [n |-> 5, g |-> [i \in 1..25 |-> IF (i-1) % 6 = 0 THEN (IF i = 1 THEN <<"neg", Plus(C(1), Sqr(X(2)))>> ELSE IF i = 25 THEN Sqr(X(1)) ELSE C(2)) ELSE Zr]],
  [n |-> 3, g |-> <<Plus(C(1), Times(X(1), X(2))), C(1), C(1), C(1), C(-2), X(1), C(1), X(1), Plus(C(6), X(2))>>] >>
Points(n) == { [i \in 1..n |-> Q(2*i + 3, 13)], [i \in 1..n |-> Q(17 - 3*i, 5)] }
K == 3
NoVal == <<>>
At(f, p) == MetricJets(Family[f].n, K, Family[f].g, p, <<>>)
Cur(f, p) == Curvature(Family[f].n, K, At(f, p))

DInit == /\ fam \in 1..NFAM /\ pt \in Points(Family[fam].n)
         /\ kind = "none" /\ cfg = <<>> /\ val = NoVal /\ hist = <<>> /\ base = <<>>
Kinds(n) == {"christoffel", "riemann", "ricci", "einstein"} \cup (IF n >= 3 THEN {"weyl", "schouten"} ELSE {})
Compute == /\ kind = "none" /\ base' = Objects(Family[fam].n, K, At(fam, pt)) /\ kind' = "ready"
           /\ UNCHANGED <<fam, pt, cfg, val, hist>>
Derive == /\ kind = "ready"
          /\ \E k \in Kinds(Family[fam].n) : kind' = k /\ cfg' = base[k].cfg /\ val' = base[k].val
          /\ hist' = <<"derive">> /\ UNCHANGED <<fam, pt, base>>
(* one configuration change; the set of reachable configurations is small    *)
Targets(r) == {c \in Cfgs(r) : r <= 2 \/ Cardinality({i \in 1..r : c[i] = "u"}) \in {1, r}}
Change == /\ kind \notin {"none", "ready"} /\ Len(hist) <= MAXCH
          /\ \E c \in Targets(Len(cfg)) :
               /\ c # cfg
               /\ val' = Reconf(Family[fam].n, base.metric.val, base.inv, cfg, c, val)
               /\ cfg' = c /\ hist' = Append(hist, "change")
          /\ UNCHANGED <<fam, pt, kind, base>>
DSpec == DInit /\ [][Compute \/ Derive \/ Change]_dvars

-----------------------------------------------------------------------------
(* identities of the curvature at (fam, pt), checked once per point          *)
Here == Cur(fam, pt)
N == Family[fam].n
AtPt == kind = "none"
EqZero(t) == \A i \in 1..Len(t) : IsZero(t[i][1])
TorsionFree == AtPt => LET c == Here IN
   \A i, j, k \in 0..N-1 : c.gamma[Flat(N, <<i, j, k>>)] = c.gamma[Flat(N, <<i, k, j>>)]
(* d_k g_ij = G^m_ki g_mj + G^m_kj g_im                                      *)
MetricCompatible == AtPt => LET c == Here  g == c.g IN
   \A i, j, k \in 1..N :
      IsZero(NSub(JD(N, k, MatAt(N, g, i, j))[1],
      NSum([m \in 1..N |-> NAdd(NMul(G3(N, c.gamma, m-1, k-1, i-1)[1], MatAt(N, g, m, j)[1]),
                                     NMul(G3(N, c.gamma, m-1, k-1, j-1)[1], MatAt(N, g, i, m)[1]))])))
RL == LET c == Here IN Values(LowerFirst(N, 4, c.g, c.riemann))
RiemannAntisym == AtPt => LET r == RL IN
   \A i, j, k, l \in 0..N-1 : /\ IsZero(NAdd(r[Flat(N, <<i, j, k, l>>)], r[Flat(N, <<j, i, k, l>>)]))
                              /\ IsZero(NAdd(r[Flat(N, <<i, j, k, l>>)], r[Flat(N, <<i, j, l, k>>)]))
RiemannPair == AtPt => LET r == RL IN
   \A i, j, k, l \in 0..N-1 : IsZero(NSub(r[Flat(N, <<i, j, k, l>>)], r[Flat(N, <<k, l, i, j>>)]))
FirstBianchi == AtPt => LET r == RL IN
   \A i, j, k, l \in 0..N-1 : IsZero(NSum(<<r[Flat(N, <<i, j, k, l>>)], r[Flat(N, <<i, k, l, j>>)], r[Flat(N, <<i, l, j, k>>)]>>))
RicciSymmetric == AtPt => LET c == Here IN
   \A i, j \in 0..N-1 : IsZero(NSub(c.ricci[Flat(N, <<i, j>>)][1], c.ricci[Flat(N, <<j, i>>)][1]))
(* g^ij G_ij = R (1 - n/2)                                                   *)
EinsteinTrace == AtPt => LET c == Here IN
   IsZero(NSub(NDot(Values(c.gi), Values(c.einstein)), NMul(c.scalar[1], NSub(Q1, Q(N, 2)))))
(* contracted second Bianchi identity                                        *)
EinsteinDivergenceFree == AtPt => LET c == Here IN
   \A b \in 0..N-1 : IsZero(DivOf(N, c.gi, c.gamma, c.einstein)[b+1])
(* every trace of Weyl vanishes; it is zero in three dimensions               *)
WeylTraceFree == AtPt /\ N >= 3 => LET o == Objects(N, K, At(fam, pt))  w == o.weyl.val IN
   /\ \A j, l \in 0..N-1 : IsZero(NSum([ab \in 1..N*N |->
         NMul(o.inv[ab], w[Flat(N, <<(ab-1) \div N, j, (ab-1) % N, l>>)])]))
   /\ N = 3 => \A i \in 1..Len(w) : IsZero(w[i])
(* whatever the history of configuration changes, the object is the direct    *)
(* change of the derived one                                                  *)
RoutesAgree == kind \notin {"none", "ready"} =>
   LET direct == Reconf(Family[fam].n, base.metric.val, base.inv, base[kind].cfg, cfg, base[kind].val)
   IN \A i \in 1..Len(val) : IsZero(NSub(val[i], direct[i]))
=============================================================================
