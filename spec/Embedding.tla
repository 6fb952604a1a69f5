------------------------------ MODULE Embedding ------------------------------
(***************************************************************************)
(* The embedding surface of a Schwarzschild body of mass M (in units of 1e23    *)
(* kg) as it is walked: circumference radius R(r), the gradient as stated, and   *)
(* the outward and inward walks by steps of M/alpha from r0 = 3 M + 0.0001.      *)
(* Numbers carry rounding bounds (Dual).                                       *)
(***************************************************************************)
EXTENDS Dual, SequencesExt
MUnit == P10(23)
C(n) == EPlain(QI(n))
Lapse2(M, r) == ESub(C(1), EDiv(EMul(C(2), M), r))
Circum(M, r) == EDiv(r, ESqrt(Lapse2(M, r)))
Slope(M, r) ==
  LET l == TLCEval(ESqrt(Lapse2(M, r)))
      one == ESub(C(1), EDiv(EMul(C(3), M), r))
      d == ESub(r, EMul(C(3), M))
      in == ESub(EMul(EMul(C(4), M), r), EMul(EMul(C(9), M), M))
      two == ESqrt(EDiv(EMul(in, EDiv(r, l)), EMul(d, d)))
  IN TLCEval(EDiv(EMul(one, two), EMul(EMul(l, l), l)))
Start(M) == EAdd(EMul(C(3), M), EPlain(P10(-4)))
(* the walk: n points <<r, R, z>> in direction sg                              *)
WalkStep(M, h, sg, a) ==                     \* a: <<r, z, points>>
  TLCEval(<<EAdd(a[1], IF sg = 1 THEN h ELSE ENeg(h)), EAdd(a[2], EMul(Slope(M, a[1]), h)),
            Append(a[3], <<a[1], Circum(M, a[1]), a[2]>>)>>)
Walk(M, alpha, sg, n) ==
  LET h == TLCEval(EDiv(M, EPlain(alpha)))  m == TLCEval(M)
  IN FoldLeft(LAMBDA a, i : WalkStep(m, h, sg, a), <<Start(m), C(0), <<>>>>, [i \in 1..n |-> i])[3]
(* is n a number of points the walk may have: all before the end, the next not   *)
Inside(M, r, sg, end) == IF sg = 1 THEN QLt(r[1], QAdd(NMul(end, M[1]), NAdd(r[3], NMul(UR, r[1]))))
                         ELSE QLt(QSub(NMul(end, M[1]), NAdd(r[3], NMul(UR, r[1]))), r[1])
Outside(M, r, sg, end) == IF sg = 1 THEN QLe(QSub(NMul(end, M[1]), NAdd(r[3], NMul(UR, r[1]))), r[1])
                          ELSE QLe(r[1], QAdd(NMul(end, M[1]), NAdd(r[3], NMul(UR, r[1]))))
RightLength(M, alpha, sg, end, w) ==
  LET h == EDiv(M, EPlain(alpha))  n == Len(w)
      lastr == w[n][1]
      nxt == IF sg = 1 THEN EAdd(lastr, h) ELSE ESub(lastr, h)
  IN Inside(M, lastr, sg, end) /\ Outside(M, nxt, sg, end)
OutEnd == QI(9)
InEnd == Q(9, 4)
SurfEnd == QI(20)
=============================================================================
