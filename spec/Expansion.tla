------------------------------ MODULE Expansion ------------------------------
(***************************************************************************)
(* Scale factor of the flat expanding universe: a(t) in the three eras and     *)
(* its time derivative, as dual numbers (value, derivative, rounding bounds).  *)
(***************************************************************************)
EXTENDS Dual
Eras == {"md", "rd", "ded"}
Lambda == QMul(QI(2036), P10(-38))              \* 1/s^2
HLambda == TLCEval(RSqrt(NDiv(Lambda, QI(3))))
(* the laws, with derivatives from the rules of calculus (Dual)                 *)
FactorAt(era, T) ==
  LET x == DNum(T, Q1) IN
  CASE era = "md" -> EPow(x, Q(2, 3)) [] era = "rd" -> ESqrt(x)
    [] OTHER -> EExp(EMul(EPlain(HLambda), x))
(* the derivatives as stated                                                   *)
StatedRate(era, T) ==
  CASE era = "md" -> NDiv(Q(2, 3), RPow(T, Q(1, 3))) [] era = "rd" -> NDiv(QHalf, RSqrt(T))
    [] OTHER -> NMul(HLambda, RExp(NMul(HLambda, T)))
=============================================================================
