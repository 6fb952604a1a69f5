------------------------------ MODULE BlackHole ------------------------------
(***************************************************************************)
(* The Schwarzschild, Kerr and Kerr-Newman black holes, as line elements in  *)
(* SI units with signature (+,-,-,-), x^0 = t (so g_00 carries c^2).         *)
(* Parameters of the expression trees:                                       *)
(*   p1 = c,  p2 = r_s,  p3 = alpha,  p4 = r_Q^2,  p5 = r_Q                   *)
(* coordinates: v2 = r, v3 = theta (v1 = t and v4 = phi are ignorable).      *)
(***************************************************************************)
EXTENDS Tensor

(* SI values (CODATA 2022) *)
CLight == QI(299792458)
GNewton == QMul(QI(667430), P10(-16))
Eps0 == QMul(QAdd(QMul(QI(88541), P10(6)), QI(878188)), P10(-22))
KCoulomb == NDiv(Q1, NMul(NMul(QI(4), QPi), Eps0))
HalfRsOf(M) == NDiv(NMul(GNewton, M), NSq(CLight))
RsOf(M) == NMul(Q2, HalfRsOf(M))
AlphaOf(M, a) == NMul(a, HalfRsOf(M))
RQ2Of(Qc) == NDiv(NMul(NMul(NSq(Qc), GNewton), KCoulomb), NPowN(CLight, 4))
RQOf(Qc) == RSqrt(RQ2Of(Qc))
ParOf(M, a, Qc) == TLCEval(<<CLight, RsOf(M), AlphaOf(M, a), RQ2Of(Qc), RQOf(Qc)>>)

C_(x) == <<"c", x>>
V(i) == <<"v", i>>
P(i) == <<"p", i>>
Sin2 == <<"^", <<"sin", V(3)>>, 2>>
Cos2 == <<"^", <<"cos", V(3)>>, 2>>
R2 == <<"^", V(2), 2>>
A2 == <<"^", P(3), 2>>
SigmaT == <<"+", R2, <<"*", A2, Cos2>>>>
DeltaT == <<"+", <<"-", R2, <<"*", P(2), V(2)>>>>, A2, P(4)>>
PullT == <<"/", <<"-", <<"*", P(2), V(2)>>, P(4)>>, SigmaT>>          \* (r_s r - r_Q^2)/Sigma
C2 == <<"^", P(1), 2>>
ZeroT == C_(Q0)
OneT == C_(Q1)
GeneralT(g00, g11, g22, g33, g03) ==
  << g00, ZeroT, ZeroT, g03,  ZeroT, g11, ZeroT, ZeroT,  ZeroT, ZeroT, g22, ZeroT,  g03, ZeroT, ZeroT, g33 >>
KNTree == GeneralT(
   <<"*", C2, <<"-", OneT, PullT>>>>,
   <<"neg", <<"/", SigmaT, DeltaT>>>>,
   <<"neg", SigmaT>>,
   <<"neg", <<"*", Sin2, <<"+", R2, A2, <<"*", A2, Sin2, PullT>>>>>>>>,
   <<"*", P(1), P(3), Sin2, PullT>>)
(* the other two line elements, written on their own                         *)
SchTree == GeneralT(
   <<"*", C2, <<"-", OneT, <<"/", P(2), V(2)>>>>>>,
   <<"neg", <<"/", V(2), <<"-", V(2), P(2)>>>>>>,
   <<"neg", R2>>, <<"neg", <<"*", R2, Sin2>>>>, ZeroT)
KerrPull == <<"/", <<"*", P(2), V(2)>>, SigmaT>>
KerrTree == GeneralT(
   <<"*", C2, <<"-", OneT, KerrPull>>>>,
   <<"neg", <<"/", SigmaT, <<"+", <<"-", R2, <<"*", P(2), V(2)>>>>, A2>>>>>>,
   <<"neg", SigmaT>>,
   <<"neg", <<"*", Sin2, <<"+", R2, A2, <<"*", KerrPull, A2, Sin2>>>>>>>>,
   <<"*", P(1), P(3), Sin2, KerrPull>>)
TreeOf(name) == CASE name = "Schwarzschild" -> SchTree [] name = "Kerr" -> KerrTree [] OTHER -> KNTree
(* electromagnetic potential as stated: r_Q r / rho^2 (1, 0, 0, -alpha sin^2) *)
PotTree == << <<"/", <<"*", P(5), V(2)>>, SigmaT>>, ZeroT, ZeroT,
              <<"neg", <<"/", <<"*", P(5), V(2), P(3), Sin2>>, SigmaT>>>> >>

MetricAt(name, K, par, pt) == MetricJets(4, K, TreeOf(name), pt, par)
PotAt(K, par, pt) == TLCEval([i \in 1..4 |-> JEval(4, K, PotTree[i], pt, par)])
(* F_ab = d_a A_b - d_b A_a at the point, from first order jets of A          *)
FieldOf(A) ==
  LET D(i, j) == JD(4, i, A[j])[1]
  IN TLCEval([q \in 1..16 |-> LET i == ((q-1) \div 4) + 1  j == ((q-1) % 4) + 1 IN NSub(D(i, j), D(j, i))])

(* numbers *)
NMat(m) == [q \in 1..16 |-> m[q][1]]
NAt(m, i, j) == m[(i-1)*4 + j]
NMatMul(a, b) == TLCEval([q \in 1..16 |-> LET i == ((q-1) \div 4) + 1  j == ((q-1) % 4) + 1
                  IN NSum([k \in 1..4 |-> NMul(NAt(a, i, k), NAt(b, k, j))])])
NMatVec(a, v) == TLCEval([i \in 1..4 |-> NSum([k \in 1..4 |-> NMul(NAt(a, i, k), v[k])])])
NForm(g, u, v) == NSum([q \in 1..16 |-> NMul(g[q], NMul(u[((q-1) \div 4) + 1], v[((q-1) % 4) + 1]))])
AbsSeq(s) == [i \in 1..Len(s) |-> QAbs(s[i])]
Delta(r, par) == QAdd(QSub(QMul(r, r), QMul(par[2], r)), QAdd(QMul(par[3], par[3]), par[4]))
NSigma(r, th, par) == NAdd(NSq(r), NSq(NMul(par[3], RCos(th))))

(* horizons and stationary limits *)
Disc(par, k) == NSub(NSub(NSq(par[2]), NMul(QI(4), NMul(NSq(par[3]), k))), NMul(QI(4), par[4]))   \* k = 1 or cos^2 theta
OuterRoot(par, k) == NMul(QHalf, NAdd(par[2], RSqrt(Disc(par, k))))
InnerRoot(par, k) == NMul(QHalf, NSub(par[2], RSqrt(Disc(par, k))))

(* time component of the 4-velocity with spatial part v:                     *)
(* g_00 w^2 + 2 b w + k = c^2, root (-b + sqrt(b^2 - g_00 (k - c^2)))/g_00     *)
TimeComp(g, c, v) ==
  LET b == NSum([i \in 1..3 |-> NMul(NAt(g, 1, i+1), v[i])])
      k == NSum([q \in 1..9 |-> LET i == ((q-1) \div 3) + 1  j == ((q-1) % 3) + 1 IN NMul(NAt(g, i+1, j+1), NMul(v[i], v[j]))])
      dsc == NSub(NSq(b), NMul(g[1], NSub(k, NSq(c))))
  IN <<dsc, b, NDiv(NAdd(QNeg(b), RSqrt(QMax(dsc, Q0))), g[1])>>
(* acceleration -Gamma u u + q F^a_b u^b                                      *)
Geo(Gm, u) == TLCEval([i \in 1..4 |-> QNeg(NSum([q \in 1..16 |->
      NMul(Gm[(i-1)*16 + q], NMul(u[((q-1) \div 4) + 1], u[((q-1) % 4) + 1]))]))])

-----------------------------------------------------------------------------
(* natural size of each metric component: the sum of the absolute values of   *)
(* the terms of its formula (what rounding errors are relative to)            *)
Sizes(par, pt) ==
  LET r == pt[2]  s2 == NSq(RSin(pt[3]))  sg == NSigma(r, pt[3], par)  dl == QAbs(Delta(r, par))
      W == NAdd(NAdd(NSq(r), NMul(par[2], r)), NAdd(NSq(par[3]), par[4]))
      w2 == NDiv(W, sg)
      z == Q0
      s00 == NMul(NSq(par[1]), w2)
      s11 == NDiv(NMul(sg, W), NSq(dl))
      s33 == NMul(s2, NMul(W, w2))
      s03 == NMul(NMul(par[1], par[3]), NMul(s2, w2))
  IN TLCEval(<<s00, z, z, s03, z, s11, z, z, z, z, sg, z, s03, z, z, s33>>)
(* sizes of the derivatives with respect to r and theta                        *)
DSizes(par, pt, sz) ==
  LET r == pt[2]  sg == NSigma(r, pt[3], par)  dl == QAbs(Delta(r, par))
      W == NAdd(NAdd(NSq(r), NMul(par[2], r)), NAdd(NSq(par[3]), par[4]))
      fr == NMul(NDiv(QI(4), r), NMul(NDiv(W, sg), NDiv(W, dl)))
      ct == RCos(pt[3])  sn == RSin(pt[3])
      ft == NAdd(NDiv(NMul(QI(4), W), sg), NDiv(NMul(QI(4), QAbs(ct)), QAbs(sn)))
      zero == [q \in 1..16 |-> Q0]
  IN TLCEval(<<zero, [q \in 1..16 |-> NMul(fr, sz[q])], [q \in 1..16 |-> NMul(ft, sz[q])], zero>>)
(* sizes for the inverse: rounding of g, plus the cancellation of Gaussian      *)
(* elimination in the t-phi block, whose error is relative to 1/|g_03|          *)
InvSizes(g, gi, sz) ==
  LET b == NMatMul(NMatMul(AbsSeq(gi), sz), AbsSeq(gi))
  IN IF IsZero(g[4]) THEN b ELSE TLCEval([q \in 1..16 |-> IF q \in {4, 13} THEN NAdd(b[q], NDiv(Q1, QAbs(g[4]))) ELSE b[q]])
GammaSizes(gi, isz, ds) ==
  LET w == [q \in 1..16 |-> NAdd(QAbs(gi[q]), isz[q])]
  IN TLCEval([q \in 1..64 |-> LET ix == Idx(4, 3, q)  i == ix[1]+1  j == ix[2]+1  k == ix[3]+1
       IN NSum([m \in 1..4 |-> NMul(NAt(w, i, m), NAdd(NAdd(NAt(ds[k], m, j), NAt(ds[j], m, k)), NAt(ds[m], j, k)))])])

IsFin(a) == \A i \in 1..Len(a) : a[i][1] <= 1
NearBy(a, b, sz, tol) == Len(a) = Len(b) /\ IsFin(a) /\ \A i \in 1..Len(b) : Near(a[i], b[i], sz[i], tol)
=============================================================================
