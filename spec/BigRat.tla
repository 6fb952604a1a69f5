------------------------------- MODULE BigRat -------------------------------
(***************************************************************************)
(* Exact arbitrary-precision rational arithmetic.                          *)
(*                                                                         *)
(* A natural number is a sequence of limbs in base 10^4, least significant *)
(* first, without leading (i.e. trailing in the sequence) zero limbs; zero *)
(* is << >>.  A rational is <<sign, numerator, denominator>> in lowest     *)
(* terms, sign in {-1,0,1}; zero is <<0, << >>, <<1>> >>.                   *)
(*                                                                         *)
(* Every operator is defined here in plain TLA+.  When TLC finds the class *)
(* tlc2.module.BigRat on its class path it evaluates the operators marked  *)
(* (J) with java.math.BigInteger instead; BigRatSelf.tla makes TLC compare *)
(* the two implementations.                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences

BASE == 10000

RECURSIVE Trim(_)
Trim(s) == IF s = <<>> THEN s
           ELSE IF s[Len(s)] = 0 THEN Trim(SubSeq(s, 1, Len(s)-1)) ELSE s

Limb(s, i) == IF i <= Len(s) THEN s[i] ELSE 0

RECURSIVE NatAddC(_,_,_,_)
NatAddC(a, b, i, c) ==
  IF i > Len(a) /\ i > Len(b) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET t == Limb(a,i) + Limb(b,i) + c
       IN  <<t % BASE>> \o NatAddC(a, b, i+1, t \div BASE)
NatAdd(a, b) == NatAddC(a, b, 1, 0)

RECURSIVE NatSubC(_,_,_,_)         \* assumes a >= b
NatSubC(a, b, i, c) ==
  IF i > Len(a) THEN <<>>
  ELSE LET t == Limb(a,i) - Limb(b,i) - c
       IN  IF t < 0 THEN <<t + BASE>> \o NatSubC(a, b, i+1, 1)
                    ELSE <<t>> \o NatSubC(a, b, i+1, 0)
NatSub(a, b) == Trim(NatSubC(a, b, 1, 0))

RECURSIVE NatCmpI(_,_,_)
NatCmpI(a, b, i) == IF i = 0 THEN 0
                    ELSE IF a[i] < b[i] THEN -1
                    ELSE IF a[i] > b[i] THEN 1 ELSE NatCmpI(a, b, i-1)
NatCmp(a, b) == IF Len(a) < Len(b) THEN -1
                ELSE IF Len(a) > Len(b) THEN 1 ELSE NatCmpI(a, b, Len(a))

RECURSIVE NatMul1C(_,_,_,_)        \* a * (0 <= d < BASE)
NatMul1C(a, d, i, c) ==
  IF i > Len(a) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET t == a[i] * d + c IN <<t % BASE>> \o NatMul1C(a, d, i+1, t \div BASE)
NatMul1(a, d) == IF d = 0 THEN <<>> ELSE NatMul1C(a, d, 1, 0)

Shl(a) == IF a = <<>> THEN a ELSE <<0>> \o a

RECURSIVE NatMul(_,_)
NatMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>>
                ELSE NatAdd(NatMul1(a, b[1]), Shl(NatMul(a, Tail(b))))

RECURSIVE QDigit(_,_,_,_)          \* largest d in lo..hi with d*b <= r
QDigit(r, b, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET m == (lo + hi + 1) \div 2
       IN IF NatCmp(NatMul1(b, m), r) <= 0 THEN QDigit(r, b, m, hi)
                                           ELSE QDigit(r, b, lo, m-1)

RECURSIVE NatDivModI(_,_,_,_,_)    \* <<quotient, remainder>>
NatDivModI(a, b, i, q, r) ==
  IF i = 0 THEN <<Trim(q), r>>
  ELSE LET r1 == Trim(<<a[i]>> \o r)
           d  == QDigit(r1, b, 0, BASE-1)
       IN  NatDivModI(a, b, i-1, <<d>> \o q, NatSub(r1, NatMul1(b, d)))
NatDivMod(a, b) == NatDivModI(a, b, Len(a), <<>>, <<>>)

RECURSIVE NatGcd(_,_)
NatGcd(a, b) == IF b = <<>> THEN a ELSE NatGcd(b, NatDivMod(a, b)[2])

RECURSIVE NatOf(_)                 \* of a TLC integer >= 0
NatOf(n) == IF n = 0 THEN <<>> ELSE <<n % BASE>> \o NatOf(n \div BASE)

RECURSIVE NatPow10(_)
NatPow10(k) == IF k >= 4 THEN Shl(NatPow10(k-4))
               ELSE IF k = 0 THEN <<1>> ELSE IF k = 1 THEN <<10>>
               ELSE IF k = 2 THEN <<100>> ELSE <<1000>>

NatDigits(a) == IF a = <<>> THEN 0
                ELSE 4*(Len(a)-1) + (LET h == a[Len(a)] IN
                     IF h >= 1000 THEN 4 ELSE IF h >= 100 THEN 3
                     ELSE IF h >= 10 THEN 2 ELSE 1)
-----------------------------------------------------------------------------
Q0 == <<0, <<>>, <<1>>>>
Q1 == <<1, <<1>>, <<1>>>>

QMake(s, n, d) ==                                                     \* (J)
  IF n = <<>> \/ s = 0 THEN Q0
  ELSE LET g == NatGcd(n, d)
       IN <<s, NatDivMod(n, g)[1], NatDivMod(d, g)[1]>>

Q(n, d) ==                                                            \* (J)
  IF (n < 0) = (d < 0) THEN QMake(1, NatOf(IF n < 0 THEN -n ELSE n), NatOf(IF d < 0 THEN -d ELSE d))
  ELSE QMake(-1, NatOf(IF n < 0 THEN -n ELSE n), NatOf(IF d < 0 THEN -d ELSE d))
QI(n) == Q(n, 1)                                                      \* (J)

QNeg(a) == <<-a[1], a[2], a[3]>>                                      \* (J)
QAbs(a) == <<a[1]*a[1], a[2], a[3]>>                                  \* (J)
QSgn(a) == a[1]

QAdd(a, b) ==                                                         \* (J)
  IF a[1] = 0 THEN b ELSE IF b[1] = 0 THEN a
  ELSE LET x == NatMul(a[2], b[3])
           y == NatMul(b[2], a[3])
           d == NatMul(a[3], b[3])
       IN  IF a[1] = b[1] THEN QMake(a[1], NatAdd(x, y), d)
           ELSE LET c == NatCmp(x, y)
                IN IF c = 0 THEN Q0
                   ELSE IF c > 0 THEN QMake(a[1], NatSub(x, y), d)
                   ELSE QMake(b[1], NatSub(y, x), d)
QSub(a, b) == QAdd(a, QNeg(b))                                        \* (J)
QMul(a, b) == QMake(a[1]*b[1], NatMul(a[2], b[2]), NatMul(a[3], b[3])) \* (J)
QInv(a) == <<a[1], a[3], a[2]>>                                       \* (J) a # 0
QDiv(a, b) == QMul(a, QInv(b))                                        \* (J) b # 0
QCmp(a, b) == QSub(a, b)[1]                                           \* (J)
QLt(a, b) == QCmp(a, b) < 0
QLe(a, b) == QCmp(a, b) <= 0
QMax(a, b) == IF QLe(a, b) THEN b ELSE a
QMin(a, b) == IF QLe(a, b) THEN a ELSE b

(* nearest integer multiple of 10^(-k) towards zero, as <<sign, natural>>  *)
QFix(a, k) ==                                                         \* (J)
  IF a[1] = 0 THEN Q0
  ELSE IF k >= 0
       THEN QMake(a[1], NatDivMod(NatMul(a[2], NatPow10(k)), a[3])[1], NatPow10(k))
       ELSE QMake(a[1], NatMul(NatDivMod(a[2], NatMul(a[3], NatPow10(-k)))[1], NatPow10(-k)), <<1>>)

(* Rounding (truncation) to about p significant decimal digits; p = 0      *)
(* means exact.  Values already short enough are unchanged.                *)
QRound(a, p) ==                                                       \* (J)
  IF p = 0 \/ a[1] = 0 THEN a
  ELSE IF NatDigits(a[2]) + NatDigits(a[3]) <= p THEN a
  ELSE QFix(a, p - (NatDigits(a[2]) - NatDigits(a[3])))

RECURSIVE QPowN(_,_)
QPowN(a, n) == IF n = 0 THEN Q1                                       \* (J)
               ELSE IF n < 0 THEN QInv(QPowN(a, -n))
               ELSE IF n % 2 = 0 THEN LET h == QPowN(a, n \div 2) IN QMul(h, h)
               ELSE QMul(a, QPowN(a, n-1))

(* Largest integer <= a as a rational                                       *)
QFloor(a) ==                                                          \* (J)
  LET f == QFix(a, 0) IN IF a[1] < 0 /\ f # a THEN QSub(f, Q1) ELSE f
(* Floor of a as a TLC integer; defined for |a| < 2^31                      *)
RECURSIVE NatToInt(_)
NatToInt(n) == IF n = <<>> THEN 0 ELSE n[1] + BASE * NatToInt(Tail(n))
QToInt(a) == LET f == QFloor(a) IN f[1] * NatToInt(f[2])              \* (J)

(* rounded variants used by the numeric modules                             *)
QAddP(a, b, p) == QRound(QAdd(a, b), p)                               \* (J)
QSubP(a, b, p) == QRound(QSub(a, b), p)                               \* (J)
QMulP(a, b, p) == QRound(QMul(a, b), p)                               \* (J)
QDivP(a, b, p) == QRound(QDiv(a, b), p)                               \* (J)

(* sum over i of a[i]*b[i] for two sequences of equal length                *)
RECURSIVE QDotI(_,_,_,_,_)
QDotI(a, b, i, acc, p) == IF i > Len(a) THEN acc
                          ELSE QDotI(a, b, i+1, QAddP(acc, QMulP(a[i], b[i], p), p), p)
QDotP(a, b, p) == QDotI(a, b, 1, Q0, p)                               \* (J)

(* bilinear combination by a table: result[k] = sum of a[i]*b[j] over the  *)
(* pairs <<i,j>> listed in tab[k].  Products of truncated power series,    *)
(* matrix products and tensor contractions are all instances.              *)
RECURSIVE QBilI(_,_,_,_,_,_)
QBilI(t, a, b, i, acc, p) ==
  IF i > Len(t) THEN acc
  ELSE QBilI(t, a, b, i+1, QAddP(acc, QMulP(a[t[i][1]], b[t[i][2]], p), p), p)
QBil(tab, m, a, b, p) ==                                              \* (J)
  [k \in 1..m |-> QBilI(tab[k], a, b, 1, Q0, p)]

(* componentwise linear combination x*a + y*b of two sequences             *)
QLin(x, a, y, b, m, p) ==                                             \* (J)
  [k \in 1..m |-> QAddP(QMulP(x, a[k], p), QMulP(y, b[k], p), p)]

(* largest absolute value in a sequence of rationals                       *)
RECURSIVE QMaxAbsI(_,_,_)
QMaxAbsI(a, i, m) == IF i > Len(a) THEN m ELSE QMaxAbsI(a, i+1, QMax(m, QAbs(a[i])))
QMaxAbs(a) == QMaxAbsI(a, 1, Q0)                                      \* (J)
=============================================================================
