-------------------------------- MODULE Shadow --------------------------------
(***************************************************************************)
(* Rays seen by a distant observer of a Schwarzschild hole of mass M (G = c = 1) *)
(* inside a thin emitting cloud: turning points, red- and blue-shifted           *)
(* emissivities, five-point Gauss-Legendre integrals, and the not-a-knot cubic   *)
(* spline that smooths a curve.  Numbers carry rounding bounds (Dual).          *)
(***************************************************************************)
EXTENDS Dual
C(n) == EPlain(QI(n))
BCrit(M) == NMul(NMul(QI(3), RSqrt(QI(3))), M)
(* outermost solution of r / sqrt(1 - 2M/r) = b, b > b_crit                      *)
Apparent(M, r) == NDiv(r, RSqrt(NSub(Q1, NDiv(NMul(Q2, M), r))))
RECURSIVE NewtonI(_,_,_,_)
NewtonI(M, b, r, n) == IF n = 0 THEN r
   ELSE LET f == NSub(NSub(NPowN(r, 3), NMul(NSq(b), r)), NMul(NMul(QI(-2), M), NSq(b)))
        IN NewtonI(M, b, TLCEval(NSub(r, NDiv(f, NSub(NMul(QI(3), NSq(r)), NSq(b))))), n-1)
Turning(M, b) == NewtonI(M, b, b, 40)         \* r^3 - b^2 r + 2 M b^2 = 0 from the right
(* f = 1 - 2M/r, s = sqrt(1 - b^2 f / r^2); shift g = f / (1 +- s sqrt(2M/r))      *)
(* emissivity g^3 / (r^2 s), blue with the lower sign and traversed inwards       *)
Emiss(M, b, r, red) ==
  LET f == ESub(C(1), EDiv(EMul(C(2), M), r))
      s == TLCEval(ESqrt(ESub(C(1), EDiv(EMul(EMul(b, b), f), EMul(r, r)))))
      k == EMul(s, ESqrt(EDiv(EMul(C(2), M), r)))
      g == TLCEval(EDiv(f, IF red THEN EAdd(C(1), k) ELSE ESub(C(1), k)))
      i == EDiv(EMul(g, EMul(g, g)), EMul(EMul(r, r), s))
  IN TLCEval(IF red THEN i ELSE ENeg(i))
(* five nodes and weights on [-1, 1]                                            *)
R107 == RSqrt(Q(10, 7))
NodeA == TLCEval(NDiv(RSqrt(NSub(QI(5), NMul(Q2, R107))), QI(3)))
NodeB == TLCEval(NDiv(RSqrt(NAdd(QI(5), NMul(Q2, R107))), QI(3)))
WA == TLCEval(NDiv(NAdd(QI(322), NMul(QI(13), RSqrt(QI(70)))), QI(900)))
WB == TLCEval(NDiv(NSub(QI(322), NMul(QI(13), RSqrt(QI(70)))), QI(900)))
Nodes5 == << <<Q0, Q(128, 225)>>, <<NodeA, WA>>, <<QNeg(NodeA), WA>>, <<NodeB, WB>>, <<QNeg(NodeB), WB>> >>
RECURSIVE GL(_,_,_,_,_,_)
GL(M, b, a, z, red, i) ==
  IF i = 0 THEN C(0)
  ELSE LET half == EMul(ESub(z, a), EPlain(QHalf))
           r == EAdd(EMul(half, EPlain(NAdd(Nodes5[i][1], Q1))), a)
       IN EAdd(GL(M, b, a, z, red, i-1), EMul(EMul(half, EPlain(Nodes5[i][2])), Emiss(M, b, r, red)))
Integral(M, b, a, z, red) == TLCEval(GL(EPlain(M), EPlain(b), EPlain(a), EPlain(z), red, 5))
(* a ray outside turns at rt: inwards blue, outwards red; inside it ends at 2M    *)
OuterRay(M, fov, b, rt) == EAdd(Integral(M, b, fov, rt, FALSE), Integral(M, b, rt, fov, TRUE))
InnerRay(M, fov, b) == Integral(M, b, NMul(Q2, M), fov, TRUE)
Linspace(a, z, n) == TLCEval([i \in 1..n |-> IF n = 1 THEN a ELSE NAdd(a, NMul(Q(i-1, n-1), NSub(z, a)))])

-----------------------------------------------------------------------------
(* not-a-knot cubic spline through (x_i, y_i), N >= 5                           *)
RECURSIVE Fwd(_,_,_,_,_,_)
(* rows i = 2 .. N-1 of the tridiagonal system <<lower, diag, upper, rhs>>        *)
Row(h, dl, N, i) ==
  LET lo == h[i-1]  dg == NMul(Q2, NAdd(h[i-1], h[i]))  up == h[i]  rh == NMul(QI(6), NSub(dl[i], dl[i-1]))
  IN IF i = 2 THEN <<Q0, NAdd(dg, NDiv(NMul(h[1], NAdd(h[1], h[2])), h[2])), NSub(h[2], NDiv(NSq(h[1]), h[2])), rh>>
     ELSE IF i = N-1 THEN <<NSub(h[N-2], NDiv(NSq(h[N-1]), h[N-2])), NAdd(dg, NDiv(NMul(h[N-1], NAdd(h[N-1], h[N-2])), h[N-2])), Q0, rh>>
     ELSE <<lo, dg, up, rh>>
Fwd(h, dl, N, i, cp, dp) ==
  IF i > N-1 THEN <<cp, dp>>
  ELSE LET r == Row(h, dl, N, i)
           k == Len(cp)
           den == IF k = 0 THEN r[2] ELSE NSub(r[2], NMul(r[1], cp[k]))
           num == IF k = 0 THEN r[4] ELSE NSub(r[4], NMul(r[1], dp[k]))
       IN Fwd(h, dl, N, i+1, Append(cp, TLCEval(NDiv(r[3], den))), Append(dp, TLCEval(NDiv(num, den))))
RECURSIVE Back(_,_,_,_)
Back(cp, dp, k, acc) == IF k = 0 THEN acc ELSE Back(cp, dp, k-1, << IF acc = <<>> THEN dp[k] ELSE TLCEval(NSub(dp[k], NMul(cp[k], acc[1]))) >> \o acc)
Moments(x, y) ==
  LET N == Len(x)
      h == TLCEval([i \in 1..N-1 |-> NSub(x[i+1], x[i])])
      dl == TLCEval([i \in 1..N-1 |-> NDiv(NSub(y[i+1], y[i]), h[i])])
      fb == TLCEval(Fwd(h, dl, N, 2, <<>>, <<>>))
      m == TLCEval(Back(fb[1], fb[2], N-2, <<>>))           \* m[k] belongs to point k+1
      m1 == NDiv(NSub(NMul(NAdd(h[1], h[2]), m[1]), NMul(h[1], m[2])), h[2])
      mN == NDiv(NSub(NMul(NAdd(h[N-1], h[N-2]), m[N-2]), NMul(h[N-1], m[N-3])), h[N-2])
  IN TLCEval(<<m1>> \o m \o <<mN>>)
RECURSIVE Piece(_,_,_)
Piece(x, t, k) == IF k >= Len(x) - 1 \/ QLe(t, x[k+1]) THEN k ELSE Piece(x, t, k+1)
SplineAt(x, y, m, t) ==
  LET k == Piece(x, t, 1)
      h == NSub(x[k+1], x[k])  u == NSub(x[k+1], t)  v == NSub(t, x[k])
      h6 == NMul(QI(6), h)
  IN NAdd(NAdd(NDiv(NMul(m[k], NPowN(u, 3)), h6), NDiv(NMul(m[k+1], NPowN(v, 3)), h6)),
          NAdd(NMul(NSub(NDiv(y[k], h), NDiv(NMul(m[k], h), QI(6))), u), NMul(NSub(NDiv(y[k+1], h), NDiv(NMul(m[k+1], h), QI(6))), v)))
=============================================================================
