-------------------------------- MODULE Julia --------------------------------
(***************************************************************************)
(* The pixel machine: iterate z := z^2 + c while |z| < R and n < N.             *)
(* A state carries a bound err on how far double precision may be off, so that  *)
(* a test of |z| against R may go either way; MayStop is the set of counts a    *)
(* rounded computation may report.                                            *)
(***************************************************************************)
EXTENDS Dual
(* numbers <<re, im>>                                                          *)
CStep(z, c) == <<NAdd(NSub(NSq(z[1]), NSq(z[2])), c[1]), NAdd(NMul(Q2, NMul(z[1], z[2])), c[2])>>
CAbs2(z) == NAdd(NSq(z[1]), NSq(z[2]))
Mag(z) == NAdd(QAbs(z[1]), QAbs(z[2]))
NextErr(z, err) == NAdd(NAdd(NMul(NMul(Q2, Mag(z)), err), NSq(err)), NMul(UR, NAdd(NSq(Mag(z)), Q1)))
SurelyIn(z, err, R) == LET r == NSub(R, err) IN r[1] > 0 /\ QLt(CAbs2(z), NMul(NSq(r), NSub(Q1, UR)))
SurelyOut(z, err, R) == QLt(NMul(NSq(NAdd(R, err)), NAdd(Q1, UR)), CAbs2(z))
Lost(err) == QLt(Q(1, 100), err)
RECURSIVE Counts(_,_,_,_,_,_)
(* possible counts from here on                                                *)
Counts(z, err, c, R, N, n) ==
  IF n = N THEN {N}
  ELSE IF Lost(err) THEN n..N
  ELSE IF SurelyOut(z, err, R) THEN {n}
  ELSE LET more == Counts(TLCEval(CStep(z, c)), TLCEval(NextErr(z, err)), c, R, N, n+1)
       IN IF SurelyIn(z, err, R) THEN more ELSE more \cup {n}
Seed(angle) == <<NMul(Q(4, 5), RCos(angle)), NMul(Q(4, 5), RSin(angle))>>
(* pixel (i, j) of a w x h image over [x1, x2] x [y1, y2]                       *)
Pixel(i, j, w, h, xr, yr) == <<NAdd(NMul(Q(i, w), NSub(xr[2], xr[1])), xr[1]), NAdd(NMul(Q(j, h), NSub(yr[2], yr[1])), yr[1])>>
PixErr(xr, yr) == NMul(UR, NAdd(NAdd(QAbs(xr[1]), QAbs(xr[2])), NAdd(QAbs(yr[1]), QAbs(yr[2]))))
PixelCounts(i, j, e) == Counts(Pixel(i, j, e.w, e.h, e.xr, e.yr), PixErr(e.xr, e.yr), Seed(e.angle), e.R, e.N, 0)
Bright(n, N) == IF n = 0 THEN Q0 ELSE RPow(Q(n, N), Q(1, 5))
=============================================================================
