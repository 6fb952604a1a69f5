-------------------------------- MODULE Dual --------------------------------
(***************************************************************************)
(* Dual numbers a + b eps, eps^2 = 0, with a running bound of the rounding   *)
(* errors that evaluation in double precision makes:                         *)
(*    <<value, derivative, bound on value error, bound on derivative error>>  *)
(***************************************************************************)
EXTENDS BlackHole

UR == P10(-15)                \* about nine half-ulps
AbM(a, b) == QAbs(NMul(a, b))
DNum(v, d) == <<v, d, Q0, Q0>>
EPlain(v) == <<v, Q0, Q0, Q0>>
EAdd(a, b) == LET v == NAdd(a[1], b[1])  d == NAdd(a[2], b[2])
              IN TLCEval(<<v, d, NAdd(NAdd(a[3], b[3]), NMul(UR, QAbs(v))), NAdd(NAdd(a[4], b[4]), NMul(UR, QAbs(d)))>>)
ENeg(a) == <<QNeg(a[1]), QNeg(a[2]), a[3], a[4]>>
ESub(a, b) == EAdd(a, ENeg(b))
EMul(a, b) ==
  LET v == NMul(a[1], b[1])  p == NMul(a[2], b[1])  q == NMul(a[1], b[2])
      av == NAdd(QAbs(a[1]), a[3])  bv == NAdd(QAbs(b[1]), b[3])
  IN TLCEval(<<v, NAdd(p, q),
       NAdd(NAdd(NMul(av, b[3]), NMul(bv, a[3])), NMul(UR, QAbs(v))),
       NAdd(NAdd(NAdd(NMul(QAbs(a[2]), b[3]), NMul(bv, a[4])), NAdd(NMul(av, b[4]), NMul(QAbs(b[2]), a[3]))),
            NMul(NMul(Q2, UR), NAdd(QAbs(p), QAbs(q))))>>)
(* a function with value f0 and derivatives f1, f2 at a[1]                    *)
EFun(a, f0, f1, f2) ==
  LET d == NMul(f1, a[2])
  IN TLCEval(<<f0, d, NAdd(NMul(NMul(Q2, QAbs(f1)), a[3]), NMul(UR, QAbs(f0))),
        NAdd(NAdd(NMul(QAbs(f1), a[4]), NMul(Q2, NMul(AbM(f2, a[2]), a[3]))), NMul(NMul(Q2, UR), QAbs(d)))>>)
EInv(a) == LET i == NDiv(Q1, a[1]) IN EFun(a, i, QNeg(NSq(i)), NMul(Q2, NPowN(i, 3)))
EDiv(a, b) == EMul(a, EInv(b))
(* sqrt(x + e) is off by at most sqrt(e), and by e/sqrt(x) well away from zero   *)
ESqrt(a) ==
  IF a[1][1] <= 0 THEN <<Q0, Q0, RSqrt(NAdd(QAbs(a[1]), a[3])), Q0>>
  ELSE LET s == RSqrt(a[1])
           f1 == NDiv(QHalf, s)
           g == EFun(a, s, f1, QNeg(NDiv(f1, NMul(Q2, a[1]))))
       IN IF QLt(NMul(QI(4), a[3]), a[1]) THEN g ELSE <<g[1], g[2], NAdd(RSqrt(a[3]), NMul(UR, s)), g[4]>>
ESin(a) == LET s == RSin(a[1])  c == RCos(a[1]) IN EFun(a, s, c, s)
ECos(a) == LET s == RSin(a[1])  c == RCos(a[1]) IN EFun(a, c, QNeg(s), c)
ETan(a) == EDiv(ESin(a), ECos(a))
EExp(a) == LET e == RExp(a[1]) IN EFun(a, e, e, e)
ELn(a) == LET i == NDiv(Q1, a[1]) IN EFun(a, RLn(a[1]), i, NSq(i))
QIsInt(y) == y[3] = <<1>>
QInt(y) == y[1] * (IF y[2] = <<>> THEN 0 ELSE y[2][1])         \* small integers
ZeroPow(k, m) == IF k = m THEN QI(Fact(m)) ELSE Q0
EPow(a, y) ==
  IF IsZero(y) THEN <<Q1, Q0, Q0, Q0>>
  ELSE IF IsZero(a[1]) THEN EFun(a, Q0, ZeroPow(QInt(y), 1), ZeroPow(QInt(y), 2))
  ELSE LET x0 == IF QIsInt(y) THEN NPowN(a[1], QInt(y)) ELSE RPow(a[1], y)
           i == NDiv(Q1, a[1])
       IN EFun(a, x0, NMul(y, NMul(x0, i)), NMul(NMul(y, NSub(y, Q1)), NMul(x0, NSq(i))))
DBin(f, a, b) == CASE f = "+" -> EAdd(a, b) [] f = "-" -> ESub(a, b) [] f = "*" -> EMul(a, b) [] OTHER -> EDiv(a, b)
DUn(f, a) == CASE f = "neg" -> ENeg(a) [] f = "sin" -> ESin(a) [] f = "cos" -> ECos(a) [] f = "tan" -> ETan(a)
               [] f = "exp" -> EExp(a) [] OTHER -> ELn(a)
(* where an operation is defined (as far as this specification claims)        *)
BinDefined(f, b) == f # "/" \/ ~IsZero(b[1])
UnDefined(f, a) == CASE f = "ln" -> a[1][1] = 1 [] f = "tan" -> QLt(P10(-6), QAbs(RCos(a[1]))) [] f = "exp" -> QLt(QAbs(a[1]), QI(40)) [] OTHER -> TRUE
PowDefined(a, y) == IF QIsInt(y) THEN y[1] >= 0 \/ ~IsZero(a[1]) ELSE a[1][1] = 1

-----------------------------------------------------------------------------
(* expression trees of Jet.tla; coordinate w carries the unit derivative       *)
RECURSIVE EEvalG(_,_,_)
RECURSIVE EFold(_,_,_,_,_,_)
EFold(f, e, i, acc, xs, pr) == IF i > Len(e) THEN acc ELSE EFold(f, e, i+1, DBin(f, acc, EEvalG(e[i], xs, pr)), xs, pr)
(* on any operands xs, which carry their own derivatives and errors            *)
EEvalG(e, xs, pr) ==
  LET A == TLCEval(EEvalG(e[2], xs, pr))
      B == EEvalG(e[3], xs, pr)
      h == e[1]
  IN CASE h = "c" -> <<e[2], Q0, NMul(UR, QAbs(e[2])), Q0>>
       [] h = "v" -> xs[e[2]]
       [] h = "p" -> EPlain(pr[e[2]])
       [] h = "+" -> EFold("+", e, 3, A, xs, pr)
       [] h = "*" -> EFold("*", e, 3, A, xs, pr)
       [] h = "-" -> ESub(A, B)
       [] h = "/" -> EDiv(A, B)
       [] h = "^" -> EPow(A, QI(e[3]))
       [] h = "powq" -> EPow(A, e[3])
       [] h = "sqrt" -> ESqrt(A)
       [] OTHER -> DUn(h, A)
EEval(e, pt, pr, w) == EEvalG(e, [i \in DOMAIN pt |-> DNum(pt[i], IF i = w THEN Q1 ELSE Q0)], pr)

-----------------------------------------------------------------------------
(* contravariant metrics in M-units (c = G = M = 1), signature (-,+,+,+), as    *)
(* the inverses of the line elements; jets of order K                          *)
MPar(name, prm) == CASE name = "Schwarzschild" -> <<Q1, Q2, Q0, Q0, Q0>>
                     [] name = "Kerr" -> <<Q1, Q2, prm[1], Q0, Q0>>
                     [] OTHER -> <<Q1, Q2, prm[1], NSq(prm[2]), prm[2]>>
ContraM(name, K, prm, pt) == LET g == TLCEval(MetricAt(name, K, MPar(name, prm), pt))
                                 gi == TLCEval(JMatInv(4, K, g))
                             IN TLCEval([q \in 1..16 |-> JNeg(gi[q])])
=============================================================================
