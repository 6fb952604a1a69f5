------------------------------ MODULE Symplectic ------------------------------
(***************************************************************************)
(* Geodesics as a Hamiltonian system H = g^{ab}(q) p_a p_b / 2 on a doubled   *)
(* phase space (q1, p1, q2, p2), with                                         *)
(*   H_A = H(q1, p2),  H_B = H(q2, p1),  H_C = ((q1-q2)^2 + (p1-p2)^2)/2       *)
(* and the integrator made of the exact flows of the three parts.             *)
(* A metric is [kind |-> "tree" | a black hole, comps |-> 16 trees, prm].      *)
(***************************************************************************)
EXTENDS Dual

(* contravariant Kerr-Newman in closed form: p1 = spin, p2 = charge            *)
aT == <<"p", 1>>
a2T == <<"^", aT, 2>>
SgT == <<"+", R2, <<"*", a2T, Cos2>>>>
Q2T == <<"^", <<"p", 2>>, 2>>
DlT == <<"+", <<"-", R2, <<"*", C_(Q2), V(2)>>>>, a2T, Q2T>>
SdT == <<"*", SgT, DlT>>
RaT == <<"+", R2, a2T>>
ContraTree == GeneralT(
   <<"neg", <<"/", <<"-", <<"^", RaT, 2>>, <<"*", a2T, DlT, Sin2>>>>, SdT>>>>,
   <<"/", DlT, SgT>>, <<"/", OneT, SgT>>,
   <<"/", <<"-", DlT, <<"*", a2T, Sin2>>>>, <<"*", SdT, Sin2>>>>,
   <<"neg", <<"/", <<"*", aT, <<"-", <<"*", C_(Q2), V(2)>>, Q2T>>>>, SdT>>>>)
Prm2(m) == CASE m.kind = "Schwarzschild" -> <<Q0, Q0>> [] m.kind = "Kerr" -> <<m.prm[1], Q0>> [] OTHER -> <<m.prm[1], m.prm[2]>>
Comps(m) == IF m.kind = "tree" THEN m.comps ELSE ContraTree
Pars(m) == IF m.kind = "tree" THEN m.prm ELSE Prm2(m)
UpperJ(m, K, q) == MetricJets(4, K, Comps(m), q, Pars(m))
Contra(m, q) == LET j == UpperJ(m, 0, q) IN TLCEval([k \in 1..16 |-> j[k][1]])

VAxpy(a, x, y) == TLCEval([i \in 1..4 |-> NAdd(y[i], NMul(a, x[i]))])
VLin(a, x, b, y) == TLCEval([i \in 1..4 |-> NAdd(NMul(a, x[i]), NMul(b, y[i]))])
(* g(q) p and the four halves of d_i g^{ab} p_a p_b                            *)
Kick(m, q, p) ==
  LET j == TLCEval(UpperJ(m, 1, q))
      g == [k \in 1..16 |-> j[k][1]]
      D(i) == TLCEval([k \in 1..16 |-> j[k][PosOf[4][[w \in 1..4 |-> IF w = i THEN 1 ELSE 0]]]])
  IN <<NMatVec(g, p), TLCEval([i \in 1..4 |-> NMul(QHalf, NForm(D(i), p, p))])>>
FlowA(m, s, d) == LET k == TLCEval(Kick(m, s[1], s[4])) IN <<s[1], VAxpy(QNeg(d), k[2], s[2]), VAxpy(d, k[1], s[3]), s[4]>>
FlowB(m, s, d) == LET k == TLCEval(Kick(m, s[3], s[2])) IN <<VAxpy(d, k[1], s[1]), s[2], s[3], VAxpy(QNeg(d), k[2], s[4])>>
FlowC(s, d, om) ==
  LET ang == NMul(Q2, NMul(om, d))  c == RCos(ang)  n == RSin(ang)
      qs == VLin(Q1, s[1], Q1, s[3])  qd == VLin(Q1, s[1], QI(-1), s[3])
      ps == VLin(Q1, s[2], Q1, s[4])  pd == VLin(Q1, s[2], QI(-1), s[4])
      qr == VLin(c, qd, n, pd)  pr == VLin(c, pd, QNeg(n), qd)
  IN <<VLin(QHalf, qs, QHalf, qr), VLin(QHalf, ps, QHalf, pr), VLin(QHalf, qs, QNeg(QHalf), qr), VLin(QHalf, ps, QNeg(QHalf), pr)>>
Step2(m, s, d, om) ==
  LET h == NMul(QHalf, d)
      a == TLCEval(FlowA(m, s, h))
      b == TLCEval(FlowB(m, a, h))
      c == TLCEval(FlowC(b, d, om))
      e == TLCEval(FlowB(m, c, h))
  IN TLCEval(FlowA(m, e, h))
(* triple jump from order k-2 to order k                                       *)
Cbrt2(k) == RPow(Q2, Q(1, k - 1))
ZOuter(k) == NDiv(Q1, NSub(Q2, Cbrt2(k)))
ZInner(k) == QNeg(NDiv(Cbrt2(k), NSub(Q2, Cbrt2(k))))
RECURSIVE StepN(_,_,_,_,_)
StepN(ord, m, s, d, om) ==
  IF ord = 2 THEN Step2(m, s, d, om)
  ELSE LET z1 == TLCEval(NMul(d, ZOuter(ord)))  z0 == TLCEval(NMul(d, ZInner(ord)))
           a == TLCEval(StepN(ord - 2, m, s, z1, om))
           b == TLCEval(StepN(ord - 2, m, a, z0, om))
       IN StepN(ord - 2, m, b, z1, om)
Orders == {2, 4, 6, 8}

(* completed 4-momentum of spatial momentum p (mass shell const = -1 or 0)      *)
Completed(g, p, tl) ==
  LET A == g[1]
      B == NMul(Q2, NSum([i \in 1..3 |-> NMul(g[i+1], p[i])]))
      S == [k \in 1..9 |-> LET i == ((k-1) \div 3) + 1  j == ((k-1) % 3) + 1 IN NMul(NAt(g, i+1, j+1), NMul(p[i], p[j]))]
      C == NAdd(NSum(S), IF tl THEN Q1 ELSE Q0)
      disc == NSub(NSq(B), NMul(QI(4), NMul(A, C)))
  IN [A |-> A, B |-> B, C |-> C, disc |-> disc,
      root |-> IF IsZero(A) \/ disc[1] < 0 THEN Q0 ELSE NDiv(NAdd(QNeg(B), RSqrt(disc)), NMul(Q2, A))]
Shell(g, P4) == NForm(g, P4, P4)
Cartesian4(x) == <<x[1], NMul(x[2], NMul(RSin(x[3]), RCos(x[4]))), NMul(x[2], NMul(RSin(x[3]), RSin(x[4]))), NMul(x[2], RCos(x[3]))>>
=============================================================================
