--------------------------- MODULE BlackHoleDesign ---------------------------
(***************************************************************************)
(* The black-hole specification on its own: a state is a hole (spin, charge) *)
(* and an event; a step moves one of them along the grid.  Invariants are    *)
(* the relations between the three line elements, the field equations, the   *)
(* roots and the kinematics the properties state.  Geometric units:          *)
(* c = 1, G M = 1 (r_s = 2).                                                 *)
(***************************************************************************)
EXTENDS BlackHole
CONSTANT FINE
VARIABLES kspin, kcharge, krad, kang, kdir
dvars == <<kspin, kcharge, krad, kang, kdir>>
SpinSet == <<Q0, Q(1, 2), Q(4, 5), Q1>>
ChargeSet == <<Q0, Q(3, 10), Q(3, 5)>>
RadSet == IF FINE THEN <<Q(1, 3), Q(17, 20), Q(3, 2), Q(9, 4), QI(4), QI(30), QI(1000)>> ELSE <<Q(1, 3), Q(3, 2), QI(4), QI(30)>>
AngSet == <<Q(3, 10), Q(7, 5), NMul(QHalf, QPi), Q(5, 2)>>
DirSet == << <<Q(1, 10), Q(-1, 50), Q(1, 40)>>, <<Q(-2, 5), Q0, Q(-1, 100)>>, <<Q0, Q0, Q0>> >>
Physical == QLe(NAdd(NSq(SpinSet[kspin]), NSq(ChargeSet[kcharge])), Q1)
DInit == kspin = 1 /\ kcharge = 1 /\ krad = 1 /\ kang = 1 /\ kdir = 1
DNext == \/ \E i \in 1..Len(SpinSet) : kspin' = i /\ UNCHANGED <<kcharge, krad, kang, kdir>>
         \/ \E i \in 1..Len(ChargeSet) : kcharge' = i /\ UNCHANGED <<kspin, krad, kang, kdir>>
         \/ \E i \in 1..Len(RadSet) : krad' = i /\ UNCHANGED <<kspin, kcharge, kang, kdir>>
         \/ \E i \in 1..Len(AngSet) : kang' = i /\ UNCHANGED <<kspin, kcharge, krad, kdir>>
         \/ \E i \in 1..Len(DirSet) : kdir' = i /\ UNCHANGED <<kspin, kcharge, krad, kang>>
DSpec == DInit /\ [][DNext]_dvars
Par == TLCEval(<<Q1, Q2, SpinSet[kspin], NSq(ChargeSet[kcharge]), ChargeSet[kcharge]>>)
Pt == <<Q0, RadSet[krad], AngSet[kang], Q0>>
G2 == MetricAt("KerrNewman", 2, Par, Pt)
Tiny == P10(-22)
SameM(a, b) == \A i \in 1..16 : QLe(QAbs(QSub(a[i][1], b[i][1])), QMul(Tiny, QMax(Q1, QAbs(b[i][1]))))
(* Reductions: no charge is Kerr, no spin is Schwarzschild (no charge)        *)
ChargelessIsKerr == IsZero(Par[4]) => SameM(MetricAt("Kerr", 0, Par, Pt), G2)
SpinlessIsSchwarzschild == IsZero(Par[4]) /\ IsZero(Par[3]) => SameM(MetricAt("Schwarzschild", 0, Par, Pt), G2)
(* det g = -c^2 Sigma^2 sin^2: via the t-phi block and the diagonal           *)
Determinant ==
  LET g == NMat(G2)
      b == NSub(NMul(g[1], g[16]), NSq(g[4]))
      dt == NMul(b, NMul(g[6], g[11]))
  IN QLe(QAbs(QAdd(dt, NMul(NSq(NSigma(Pt[2], Pt[3], Par)), NSq(RSin(Pt[3]))))), QMul(Tiny, QMax(Q1, QAbs(dt))))
(* Field equations: vacuum without charge; electrovacuum (scalar zero and      *)
(* R_ab = 2 (F_a^c F_cb ...) ) with charge, F = dA up to its overall factor     *)
FieldEquations ==
  kdir = 1 =>
  LET cv == TLCEval(Curvature(4, 2, G2))
      gi == NMat(cv.gi)
      F == TLCEval(FieldOf(PotAt(1, Par, Pt)))
      FF == NMatMul(NMatMul(F, gi), F)               \* F_ac g^cd F_db
      sq == NSum([q \in 1..16 |-> NMul(FF[q], gi[q])])  \* F_ac F^c_b g^ab = -F_ab F^ab
      g == NMat(G2)
      \* signature (+,-,-,-): R_ab = 2 (g^cd F_ac F_db) - g_ab/2 (...) for A in geometric units
      T == [q \in 1..16 |-> NSub(NMul(Q2, FF[q]), NMul(QHalf, NMul(g[q], sq)))]
      sz == QMax(Q1, QMaxAbs([q \in 1..16 |-> cv.ricci[q][1]]))
  IN /\ QLe(QAbs(cv.scalar[1]), P10(-18))
     /\ \A q \in 1..16 : QLe(QAbs(QSub(cv.ricci[q][1], NMul(QI(1), T[q]))), QMul(P10(-18), sz))
(* Roots and their order                                                      *)
Roots ==
  Physical =>
  LET cc == NSq(RCos(Pt[3]))
      ih == InnerRoot(Par, Q1)  oh == OuterRoot(Par, Q1)  ie == InnerRoot(Par, cc)  oe == OuterRoot(Par, cc)
      z(r) == IF IsZero(r) \/ QLt(NSigma(r, Pt[3], Par), P10(-6)) THEN Q0
              ELSE NMul(MetricAt("KerrNewman", 0, Par, <<Q0, r, Pt[3], Q0>>)[1][1], NSigma(r, Pt[3], Par))
      \* off the horizon so that g_11 is finite
      ok(r) == QLt(P10(-6), QAbs(Delta(r, Par))) => QLe(QAbs(z(r)), P10(-20))
  IN /\ QLe(QAbs(Delta(ih, Par)), P10(-20)) /\ QLe(QAbs(Delta(oh, Par)), P10(-20))
     /\ ok(ie) /\ ok(oe)
     /\ QLe(ie, QAdd(ih, Tiny)) /\ QLe(ih, oh) /\ QLe(oh, QAdd(oe, Tiny)) /\ QLe(Q0, QAdd(ie, Tiny))
(* Four-velocity outside the ergosphere: normalised, future directed           *)
Normalised ==
  LET g == NMat(G2)  v == [i \in 1..3 |-> NMul(DirSet[kdir][i], IF i = 1 THEN Q1 ELSE NDiv(Q1, Pt[2]))]
      w == TimeComp(g, Q1, v)
      u == <<w[3], v[1], v[2], v[3]>>
  IN (g[1][1] > 0 /\ w[1][1] >= 0 /\ QLt(Delta(Pt[2], Par), NSq(QMul(Q2, Pt[2]))) /\ Delta(Pt[2], Par)[1] > 0) =>
       /\ QLe(QAbs(QSub(NForm(g, u, u), Q1)), P10(-20)) /\ w[3][1] > 0
(* acceleration keeps the norm and the momenta conjugate to t and phi:         *)
(* d/dl (g_ab u^b) for a = t, phi vanishes, charged or not up to q F_ab u^b     *)
Killing ==
  LET gm2 == TLCEval(G2)
      cv0 == NMat(gm2)
      gj == TLCEval([q \in 1..16 |-> JTrunc(gm2[q], 5)])
      gi == TLCEval(JMatInv(4, 1, gj))
      gm == TLCEval(Gamma(4, gj, gi))
      Gm == TLCEval([q \in 1..64 |-> gm[q][1]])
      v == [i \in 1..3 |-> NMul(DirSet[kdir][i], IF i = 1 THEN Q1 ELSE NDiv(Q1, Pt[2]))]
      u == <<Q(11, 10), v[1], v[2], v[3]>>
      acc == Geo(Gm, u)
      dg(a, b) == NSum([k \in 1..2 |-> NMul(u[k+1], JD(4, k+1, NAt(gj, a, b))[1])])
      rate(a) == NSum([b \in 1..4 |-> NAdd(NMul(NAt(cv0, a, b), acc[b]), NMul(dg(a, b), u[b]))])
      big == QMax(Q1, QMaxAbs(acc))
  IN /\ QLe(QAbs(rate(1)), QMul(P10(-18), big)) /\ QLe(QAbs(rate(4)), QMul(P10(-16), NMul(big, NSq(Pt[2]))))
=============================================================================
