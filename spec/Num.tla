-------------------------------- MODULE Num --------------------------------
(* Rational arithmetic at a working precision of PREC significant decimal   *)
(* digits (PREC = 0: exact), elementary real functions, and tolerant        *)
(* comparison of a recorded value with a specified one.                     *)
EXTENDS BigRat, TLC
CONSTANT PREC

NAdd(a, b) == QAddP(a, b, PREC)
NSub(a, b) == QSubP(a, b, PREC)
NMul(a, b) == QMulP(a, b, PREC)
NDiv(a, b) == QDivP(a, b, PREC)
NSq(a)     == NMul(a, a)
NDot(a, b) == QDotP(a, b, PREC)
Q2 == QI(2)
QHalf == Q(1, 2)
IsZero(a) == a[1] = 0

RECURSIVE NSumI(_,_,_)
NSumI(s, i, acc) == IF i > Len(s) THEN acc ELSE NSumI(s, i+1, NAdd(acc, s[i]))
NSum(s) == NSumI(s, 1, Q0)
NPowN(a, n) == QRound(QPowN(a, n), PREC)

(* 10^k                                                                     *)
P10(k) == QPowN(QI(10), k)

-----------------------------------------------------------------------------
(* Elementary functions, accurate to about WP digits.                       *)
WP == IF PREC = 0 THEN 40 ELSE PREC + 8
WEPS == P10(-WP)
WR(a) == QRound(a, WP + 8)
WMul(a, b) == QMulP(a, b, WP + 8)
WDiv(a, b) == QDivP(a, b, WP + 8)
WAdd(a, b) == QAddP(a, b, WP + 8)
WSub(a, b) == QSubP(a, b, WP + 8)

(* sum over k>=0 of t_k with t_0 = t and t_(k+1) = t_k * z / (c1(k)*c2(k))   *)
RECURSIVE SinSer(_,_,_,_)          \* term, minus x^2, k, acc
SinSer(t, z, k, acc) ==
  IF QLt(QAbs(t), WEPS) THEN acc
  ELSE SinSer(WDiv(WMul(t, z), QI((k+1)*(k+2))), z, k+2, WAdd(acc, t))
RECURSIVE AtanSer(_,_,_,_)
AtanSer(t, z, k, acc) ==
  IF QLt(QAbs(t), WEPS) THEN acc
  ELSE AtanSer(WMul(t, z), z, k+2, WAdd(acc, WDiv(t, QI(k))))
AtanSmall(x) == AtanSer(x, QNeg(WMul(x, x)), 1, Q0)
QPi == TLCEval(WSub(WMul(QI(16), AtanSmall(Q(1, 5))), WMul(QI(4), AtanSmall(Q(1, 239)))))
QTwoPi == WMul(Q2, QPi)

RedAngle(x) == LET k == QFloor(QAdd(WDiv(x, QTwoPi), QHalf)) IN WR(QSub(x, QMul(k, QTwoPi)))
RSin(x) == LET y == RedAngle(x) IN SinSer(y, QNeg(WMul(y, y)), 1, Q0)
RCos(x) == LET y == RedAngle(x) IN SinSer(Q1, QNeg(WMul(y, y)), 0, Q0)
RTan(x) == WDiv(RSin(x), RCos(x))

RECURSIVE SqrtIt(_,_,_)
SqrtIt(x, y, n) == LET z == WMul(QHalf, WAdd(y, WDiv(x, y)))
                   IN IF n = 0 \/ QLe(QAbs(QSub(z, y)), QMul(z, WEPS)) THEN z ELSE SqrtIt(x, z, n-1)
(* x >= 0 *)
RSqrt(x) == IF x[1] = 0 THEN Q0
            ELSE LET e == (NatDigits(x[2]) - NatDigits(x[3])) \div 2
                 IN SqrtIt(WR(x), P10(e), 60)

RECURSIVE ExpSer(_,_,_,_)
ExpSer(t, x, k, acc) == IF QLt(QAbs(t), QMul(WEPS, P10(-6))) THEN acc
                        ELSE ExpSer(QDivP(QMulP(t, x, WP+16), QI(k), WP+16), x, k+1, QAddP(acc, t, WP+16))
RECURSIVE Sq(_,_)
Sq(y, k) == IF k = 0 THEN y ELSE Sq(QMulP(y, y, WP + 16), k-1)
RECURSIVE HalvingsI(_,_)
HalvingsI(x, k) == IF QLt(QAbs(x), QHalf) THEN k ELSE HalvingsI(QMul(x, QHalf), k+1)
RExp(x) == LET k == HalvingsI(x, 0)
           IN WR(Sq(ExpSer(Q1, QMulP(x, QPowN(QHalf, k), WP+16), 1, Q0), k))

RECURSIVE LnIt(_,_,_)
LnIt(x, y, n) == LET e == RExp(y)
                     d == WMul(Q2, WDiv(WSub(x, e), WAdd(x, e)))
                 IN IF n = 0 \/ QLt(QAbs(d), QMul(WEPS, Q(10,1))) THEN WAdd(y, d) ELSE LnIt(x, WAdd(y, d), n-1)
RLn(x) == LnIt(x, QMul(Q(2302585, 1000000), QI(NatDigits(x[2]) - NatDigits(x[3]))), 12)
(* x^y, x > 0 *)
RPow(x, y) == IF IsZero(y) THEN Q1 ELSE RExp(WMul(y, RLn(x)))

RECURSIVE AtanRed(_,_)
AtanRed(x, k) == IF k = 0 THEN AtanSmall(x)
                 ELSE WMul(Q2, AtanRed(WDiv(x, WAdd(Q1, RSqrt(WAdd(Q1, WMul(x, x))))), k-1))
RAtan(x) == AtanRed(x, 4)
RAtan2(y, x) ==
  IF x[1] > 0 THEN RAtan(WDiv(y, x))
  ELSE IF x[1] < 0 THEN (IF y[1] >= 0 THEN WAdd(RAtan(WDiv(y, x)), QPi) ELSE WSub(RAtan(WDiv(y, x)), QPi))
  ELSE IF y[1] > 0 THEN WMul(QHalf, QPi) ELSE IF y[1] < 0 THEN QNeg(WMul(QHalf, QPi)) ELSE Q0
RAcos(x) == RAtan2(RSqrt(WMul(WSub(Q1, x), WAdd(Q1, x))), x)
RCosh(x) == LET e == RExp(x) IN WMul(QHalf, WAdd(e, QInv(e)))
RSinh(x) == LET e == RExp(x) IN WMul(QHalf, WSub(e, QInv(e)))
RECURSIVE BesSer(_,_,_,_,_)     \* term, minus x^2/4, k, order, acc
BesSer(t, z, k, m, acc) == IF QLt(QAbs(t), WEPS) THEN acc
                           ELSE BesSer(WDiv(WMul(t, z), QI((k+1)*(k+1+m))), z, k+1, m, WAdd(acc, t))
RBesJ0(x) == BesSer(Q1, QNeg(WMul(QMul(x, QHalf), QMul(x, QHalf))), 0, 0, Q0)
RBesJ1(x) == BesSer(QMul(x, QHalf), QNeg(WMul(QMul(x, QHalf), QMul(x, QHalf))), 0, 1, Q0)

-----------------------------------------------------------------------------
(* |a - b| <= tol * scale                                                   *)
Near(a, b, scale, tol) == QLe(QAbs(QSub(a, b)), QMul(tol, scale))
(* relative comparison with an absolute floor                               *)
RelNear(a, b, tol, floor) == Near(a, b, QMax(QAbs(b), floor), tol)
(* two sequences, compared relative to the largest entry of the second (or floor) *)
SeqNear(a, b, tol, floor) ==
  /\ Len(a) = Len(b)
  /\ LET s == QMax(QMaxAbs(b), floor) IN \A i \in 1..Len(b) : Near(a[i], b[i], s, tol)
SeqRelNear(a, b, tol, floor) ==
  /\ Len(a) = Len(b)
  /\ \A i \in 1..Len(b) : RelNear(a[i], b[i], tol, floor)
=============================================================================
