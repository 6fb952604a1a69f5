----------------------------- MODULE Spacetimes -----------------------------
(***************************************************************************)
(* C10: the catalogue of predefined spacetimes: for each, its coordinates,   *)
(* its parameters (names of the default symbols), the documented line        *)
(* element as expression trees, and the field equations it obeys.            *)
(***************************************************************************)
EXTENDS Geometry
C(k) == <<"c", QI(k)>>
V(i) == <<"v", i>>
P(i) == <<"p", i>>
A2(a, b) == <<"+", a, b>>
S2(a, b) == <<"-", a, b>>
M2(a, b) == <<"*", a, b>>
M3(a, b, c) == <<"*", a, b, c>>
D2(a, b) == <<"/", a, b>>
Ng(a) == <<"neg", a>>
Pw(a, k) == <<"^", a, k>>
Sq2(a) == Pw(a, 2)
Fn(f, a) == <<f, a>>
PwE(a, y) == Fn("exp", M2(y, Fn("ln", a)))         \* a^y, a > 0
PwR(a, q) == <<"powq", a, q>>
Pi4 == <<"c", QMul(QI(4), QPi)>>
ZZ == C(0)
Diag(a, b, c, d) == <<a, ZZ, ZZ, ZZ, ZZ, b, ZZ, ZZ, ZZ, ZZ, c, ZZ, ZZ, ZZ, ZZ, d>>
WithTPhi(m, x) == [m EXCEPT ![4] = x, ![13] = x]
sin2 == Sq2(Fn("sin", V(3)))
cos2 == Sq2(Fn("cos", V(3)))
r2 == Sq2(V(2))

Sph == <<"t", "r", "theta", "phi">>
Car == <<"t", "x", "y", "z">>

(* Schwarzschild / Reissner-Nordstrom / Kerr / Kerr-Newman: signature (+,-,-,-), ds^2/c^2 *)
StaticSph(A, c2) == Diag(A, Ng(D2(C(1), M2(A, c2))), Ng(D2(r2, c2)), Ng(D2(M2(r2, sin2), c2)))
RQ2(c, G, e, qq) == D2(M2(Sq2(qq), G), M3(Pi4, e, Pw(c, 4)))
Rotating(c, rs, a, rq2) ==
  LET Sg == A2(r2, M2(Sq2(a), cos2))
      De == <<"+", r2, Ng(M2(rs, V(2))), Sq2(a), rq2>>
      w == S2(M2(rs, V(2)), rq2)
  IN WithTPhi(Diag(S2(C(1), D2(w, Sg)), Ng(D2(Sg, M2(De, Sq2(c)))), Ng(D2(Sg, Sq2(c))),
                   Ng(D2(M2(sin2, <<"+", r2, Sq2(a), D2(M3(w, Sq2(a), sin2), Sg)>>), Sq2(c)))),
              D2(M3(w, a, sin2), M2(Sg, c)))
Bes(k) == Fn(IF k = 0 THEN "besj0" ELSE "besj1", V(2))
JnwAl == S2(C(1), D2(M2(C(2), M2(P(2), P(4))), M3(Sq2(P(1)), P(3), V(2))))
(* Alcubierre: P = x_s, sigma, R, v                                          *)
AlcR == Fn("sqrt", <<"+", Sq2(S2(V(2), P(1))), Sq2(V(3)), Sq2(V(4))>>)
AlcF == D2(S2(Fn("tanh", M2(P(2), A2(AlcR, P(3)))), Fn("tanh", M2(P(2), S2(AlcR, P(3))))), M2(C(2), Fn("tanh", M2(P(2), P(3)))))
ErnL == A2(C(1), Sq2(M3(P(1), V(2), Fn("sin", V(3)))))
DavE == PwR(A2(C(1), r2), Q(2, 5))
GodE == Fn("exp", M3(Fn("sqrt", C(2)), P(1), V(2)))
ConfC(f, h) == LET w == Sq2(A2(V(2), V(3))) IN Diag(Ng(D2(h, w)), D2(C(1), M2(w, f)), D2(C(1), M2(w, h)), D2(f, w))

S(name, mname, coords, pars, g, law) == [name |-> name, mname |-> mname, coords |-> coords, pars |-> pars, g |-> g, law |-> law]
Catalogue == <<
  S("Schwarzschild", "SchwarzschildMetric", Sph, <<"c", "r_s">>, StaticSph(S2(C(1), D2(P(2), V(2))), Sq2(P(1))), "vacuum"),
  S("Kerr", "KerrMetric", Sph, <<"c", "r_s", "a">>, Rotating(P(1), P(2), P(3), ZZ), "vacuum"),
  S("KerrNewman", "KerrNewmanMetric", Sph, <<"c", "G", "eps_0", "r_s", "a", "Q">>,
      Rotating(P(1), P(4), P(5), RQ2(P(1), P(2), P(3), P(6))), "electrovacuum"),
  S("ReissnerNordstorm", "ReissnerNordstormMetric", Sph, <<"c", "G", "eps_0", "r_s", "Q">>,
      StaticSph(<<"+", C(1), Ng(D2(P(4), V(2))), D2(RQ2(P(1), P(2), P(3), P(5)), r2)>>, Sq2(P(1))), "electrovacuum"),
  S("AntiDeSitter", "AntiDeSitterMetric", <<"t", "chi", "theta", "phi">>, <<>>,
      LET w == Sq2(Fn("cos", V(1)))  s == Sq2(Fn("sinh", V(2))) IN Diag(C(-1), w, M2(w, s), M3(w, s, sin2)), "ads"),
  S("AntiDeSitterStatic", "AntiDeSitterStaticMetric", Sph, <<>>,
      LET s == Sq2(Fn("sinh", V(2))) IN Diag(Ng(Sq2(Fn("cosh", V(2)))), C(1), s, M2(s, sin2)), "ads"),
  S("DeSitter", "DeSitterMetric", Car, <<"alpha">>, LET w == Fn("exp", D2(M2(C(2), V(1)), P(1))) IN Diag(C(-1), w, w, w), "ds"),
  S("AlcubierreWarp", "AlcubierreWarpMetric", Car, <<"x_s", "sigma", "R", "v">>,
      LET d == Diag(S2(Sq2(M2(P(4), AlcF)), C(1)), C(1), C(1), C(1))  o == Ng(M2(P(4), AlcF)) IN [d EXCEPT ![2] = o, ![5] = o], "flatslices"),
  S("BesselGravitationalWave", "BesselGravitationalWaveMetric", <<"t", "rho", "phi", "z">>, <<"C">>,
      LET U == M3(P(1), Bes(0), Fn("cos", V(1)))
          K == D2(M3(Sq2(P(1)), V(2), S2(M2(V(2), A2(Sq2(Bes(0)), Sq2(Bes(1)))),
                       M2(C(2), M3(Bes(0), Bes(1), Sq2(Fn("cos", V(1))))))), C(2))
          w == Fn("exp", S2(M2(C(2), K), M2(C(2), U)))
      IN Diag(Ng(w), w, M2(Fn("exp", M2(C(-2), U)), r2), Fn("exp", M2(C(2), U))), "vacuum"),
  S("MinkowskiCartesian", "MinkowskiMetric", Car, <<"c">>, LET w == D2(C(1), Sq2(P(1))) IN Diag(C(-1), w, w, w), "flat"),
  S("Minkowski", "MinkowskiMetric", Car, <<"c">>, LET w == D2(C(1), Sq2(P(1))) IN Diag(C(-1), w, w, w), "flat"),
  S("MinkowskiPolar", "MinkowskiMetricPolar", Sph, <<"c">>,
      LET w == Sq2(P(1)) IN Diag(C(-1), D2(C(1), w), D2(r2, w), D2(M2(r2, sin2), w)), "flat"),
  \* the functions f(x), h(y) of the C-metric are the parameters of the line element; on its own: h(y) = -f(-y), f cubic
  S("CMetric", "CMetric", <<"t", "x", "y", "phi">>, <<"f", "h">>, ConfC(P(1), P(2)), "cmetric"),
  S("Davidson", "DavidsonMetric", <<"t", "r", "z", "phi">>, <<>>,
      Diag(Ng(Pw(DavE, 3)), M2(PwR(V(1), Q(4, 3)), DavE), D2(PwR(V(1), Q(-2, 3)), DavE), D2(M2(PwR(V(1), Q(4, 3)), r2), DavE)), "radiation"),
  S("Ernst", "ErnstMetric", Sph, <<"B", "M">>,
      LET w == S2(C(1), D2(M2(C(2), P(2)), V(2))) IN
      Diag(Ng(M2(Sq2(ErnL), w)), D2(Sq2(ErnL), w), Sq2(M2(V(2), ErnL)), Sq2(D2(M2(V(2), Fn("sin", V(3))), ErnL))), "electrovacuum"),
  S("Godel", "GodelMetric", Car, <<"omega">>,
      LET d == Diag(C(-1), C(1), Ng(D2(Sq2(GodE), C(2))), C(1)) IN [d EXCEPT ![3] = Ng(GodE), ![9] = Ng(GodE)], "godel"),
  S("BertottiKasner", "BertottiKasnerMetric", <<"t", "r", "theta", "phi">>, <<"c", "l">>,
      LET c2 == Sq2(P(1)) IN Diag(C(-1), D2(Fn("exp", M3(C(2), Fn("sqrt", P(2)), M2(P(1), V(1)))), c2), D2(C(1), M2(P(2), c2)), D2(sin2, M2(P(2), c2))), "lambda"),
  S("BarriolaVilekin", "BarriolaVilekinMetric", Sph, <<"c", "k">>,
      LET c2 == Sq2(P(1)) IN Diag(C(-1), D2(C(1), c2), D2(Sq2(M2(P(2), V(2))), c2), D2(M2(Sq2(M2(P(2), V(2))), sin2), c2)), "monopole"),
  S("JanisNewmanWinicour", "JanisNewmanWinicourMetric", Sph, <<"c", "G", "gam", "M">>,
      LET c2 == Sq2(P(1))  b == D2(M2(r2, PwE(JnwAl, S2(C(1), P(3)))), c2) IN
      Diag(Ng(PwE(JnwAl, P(3))), D2(PwE(JnwAl, Ng(P(3))), c2), b, M2(b, sin2)), "scalarfield") >>

ByName(nm) == CHOOSE i \in 1..Len(Catalogue) : Catalogue[i].name = nm
Names == {Catalogue[i].name : i \in 1..Len(Catalogue)}
-----------------------------------------------------------------------------
(* field equations at a point.  cv = Curvature(4, 2, g) ; T tolerance         *)
TolF == P10(-28)
NearZero(x, scale) == QLe(QAbs(x), QMul(TolF, QMax(scale, Q1)))
Scale(cv) == QMaxAbs([i \in 1..Len(cv.riemann) |-> cv.riemann[i][1]])
AllZero(t, sc) == \A i \in 1..Len(t) : NearZero(t[i][1], sc)
MixedRicci(cv) == TLCEval([ij \in 1..16 |-> NDot([k \in 1..4 |-> MatAt(4, cv.gi, ((ij-1) \div 4)+1, k)[1]],
                                             [k \in 1..4 |-> MatAt(4, cv.ricci, k, ((ij-1) % 4)+1)[1]])])
RicciIs(cv, g, lam) == \A i \in 1..16 : NearZero(NSub(cv.ricci[i][1], NMul(lam, g[i][1])), Scale(cv))
Obeys(law, cv, g, pr) ==
  LET sc == TLCEval(Scale(cv))
      mx == TLCEval(MixedRicci(cv))
      off == \A i \in 1..16 : (i-1) % 5 # 0 => NearZero(mx[i], sc)
      d(i) == mx[5*i - 4]
  IN CASE law = "vacuum" -> AllZero(cv.ricci, sc)
       [] law = "flat" -> AllZero(cv.riemann, Q1)
       [] law = "ads" -> RicciIs(cv, g, QI(-3))
       [] law = "ds" -> RicciIs(cv, g, NDiv(QI(3), NSq(pr[1])))
       [] law = "lambda" -> RicciIs(cv, g, NMul(pr[2], NSq(pr[1])))
       \* R = 0 and R^a_c R^c_b proportional to the identity (Rainich)
       [] law = "electrovacuum" -> /\ NearZero(cv.scalar[1], sc)
             /\ LET sq == TLCEval([ij \in 1..16 |-> NDot([k \in 1..4 |-> MatAt(4, mx, ((ij-1) \div 4)+1, k)], [k \in 1..4 |-> MatAt(4, mx, k, ((ij-1) % 4)+1)])])
                IN /\ \A i \in 1..16 : (i-1) % 5 # 0 => NearZero(sq[i], NSq(sc))
                   /\ \A i \in 2..4 : NearZero(NSub(sq[5*i - 4], sq[1]), NSq(sc))
       \* radiation: R = 0, isotropic pressure, rho = 3p
       [] law = "radiation" -> NearZero(cv.scalar[1], sc) /\ off /\ NearZero(NSub(d(2), d(3)), sc) /\ NearZero(NSub(d(3), d(4)), sc)
       [] law = "godel" -> \A i \in 1..16 : NearZero(NSub(cv.ricci[i][1],
             NMul(NMul(Q2, NSq(pr[1])), NMul(g[((i-1) \div 4) + 1][1], g[((i-1) % 4) + 1][1]))), sc)
       [] law = "monopole" -> off /\ NearZero(d(1), sc) /\ NearZero(d(2), sc) /\ NearZero(NSub(d(3), d(4)), sc)
       [] law = "scalarfield" -> off /\ NearZero(d(1), sc) /\ NearZero(d(3), sc) /\ NearZero(d(4), sc)
       \* unit lapse and flat spatial slices: determinant -1
       [] law = "flatslices" -> \A i, j \in 2..4 : NearZero(NSub(g[(i-1)*4 + j][1], IF i = j THEN Q1 ELSE Q0), Q1)
       [] OTHER -> TRUE
=============================================================================
