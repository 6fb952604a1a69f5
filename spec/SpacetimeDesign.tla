--------------------------- MODULE SpacetimeDesign ---------------------------
(***************************************************************************)
(* Every catalogued spacetime, walked over regular points and parameter       *)
(* values: the documented line elements obey their field equations, and the  *)
(* members of the black-hole family reduce to one another.                    *)
(***************************************************************************)
EXTENDS Spacetimes
CONSTANT NPTS
VARIABLES sp, ptno
svars == <<sp, ptno>>
Cub(c0, x) == <<"+", C(c0), M2(C(1), x), M2(C(-3), Sq2(x)), M2(C(2), Pw(x, 3))>>
(* the trees used: the C-metric closed with a cubic                           *)
Tree(i, kk) == LET e == Catalogue[i] IN
  IF e.law = "cmetric" THEN ConfC(Cub(kk, V(2)), Ng(Cub(kk, Ng(V(3))))) ELSE e.g
Law(i) == IF Catalogue[i].law = "cmetric" THEN "vacuum" ELSE Catalogue[i].law
(* regular points: beyond the horizon, off the axis                           *)
Pt(i, kk) == CASE kk = 1 -> <<Q(1, 3), Q(47, 7), Q(9, 11), Q(2, 5)>> [] kk = 2 -> <<Q(8, 13), Q(31, 4), Q(17, 10), Q(-3, 7)>>
               [] kk = 3 -> <<Q(5, 4), Q(23, 3), Q(26, 9), Q(1, 2)>> [] OTHER -> <<Q(2, 7), Q(53, 6), Q(5, 12), QI(2)>>
Small(p) == <<p[1], QMul(p[2], Q(1, 5)), p[3], p[4]>>
PtOf(i, kk) == IF Catalogue[i].law \in {"vacuum", "ads", "flatslices", "godel", "radiation"} /\ Catalogue[i].name \notin {"Schwarzschild", "Kerr"} THEN Small(Pt(i, kk)) ELSE Pt(i, kk)
ParVal(nm, kk) == CASE nm = "c" -> Q(kk + 2, 3) [] nm = "G" -> Q(kk + 1, 2) [] nm = "eps_0" -> Q(5, kk + 3) [] nm = "r_s" -> Q(kk + 4, 5)
                    [] nm = "a" -> Q(kk, 3) [] nm = "Q" -> Q(2*kk + 1, 7) [] nm = "M" -> Q(1, kk + 3) [] nm = "gam" -> Q(kk + 3, 5)
                    [] nm = "alpha" -> Q(kk + 5, 4) [] nm = "omega" -> Q(kk, 4) [] nm = "k" -> Q(kk + 1, 3) [] nm = "l" -> Q(kk, 5)
                    [] nm = "B" -> Q(kk, 9) [] nm = "C" -> Q(kk, 6) [] nm = "x_s" -> Q(kk, 8) [] nm = "sigma" -> Q(3, kk + 1)
                    [] nm = "R" -> Q(kk + 1, 4) [] nm = "v" -> Q(kk, 2) [] OTHER -> Q1
Par(i, kk) == [j \in 1..Len(Catalogue[i].pars) |-> ParVal(Catalogue[i].pars[j], kk)]
G(i, kk) == LET t == TLCEval(Tree(i, kk))  x == TLCEval(PtOf(i, kk))  p == TLCEval(Par(i, kk)) IN MetricJets(4, 2, t, x, p)
SInit == sp \in 1..Len(Catalogue) /\ ptno = 1
SNext == ptno < NPTS /\ ptno' = ptno + 1 /\ UNCHANGED sp
SSpec == SInit /\ [][SNext]_svars
FieldEquations == LET g == TLCEval(G(sp, ptno))  cv == TLCEval(Curvature(4, 2, g))  pr == TLCEval(Par(sp, ptno)) IN Obeys(Law(sp), cv, g, pr)
(* the same, with every law named, so that a vacuous CASE cannot hide         *)
LawKnown == Law(sp) \in {"vacuum", "flat", "ads", "ds", "lambda", "electrovacuum", "radiation", "godel", "monopole", "scalarfield", "flatslices"}
SameAt(t1, p1, t2, p2) == LET a == MetricJets(4, 1, t1, Pt(1, ptno), p1)  b == MetricJets(4, 1, t2, Pt(1, ptno), p2)
                          IN \A i \in 1..16 : NearZero(NSub(a[i][1], b[i][1]), Q1)
Reductions ==
  LET kn == Catalogue[3].g  p == Par(3, ptno) IN
  /\ SameAt(kn, [p EXCEPT ![6] = Q0], Catalogue[2].g, <<p[1], p[4], p[5]>>)
  /\ SameAt(kn, [p EXCEPT ![5] = Q0], Catalogue[4].g, <<p[1], p[2], p[3], p[4], p[6]>>)
  /\ SameAt(Catalogue[2].g, <<p[1], p[4], Q0>>, Catalogue[1].g, <<p[1], p[4]>>)
  \* gam = 1: Janis-Newman-Winicour is Schwarzschild with the other sign convention
  /\ LET j == ByName("JanisNewmanWinicour")  rs == NDiv(NMul(Q2, NMul(p[2], QHalf)), NSq(p[1]))
     IN SameAt(Catalogue[j].g, <<p[1], p[2], Q1, QHalf>>, [i \in 1..16 |-> Ng(Catalogue[1].g[i])], <<p[1], rs>>)
=============================================================================
