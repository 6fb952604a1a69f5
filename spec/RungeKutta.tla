----------------------------- MODULE RungeKutta -----------------------------
(***************************************************************************)
(* Explicit Runge-Kutta steps for y' = f(t, y), f given by expression trees   *)
(* over v1 = t and v2.. = the components of y, in numbers that carry a bound   *)
(* of the rounding errors of double precision (Dual).                          *)
(***************************************************************************)
EXTENDS Dual

Rhs(f, t, y) == TLCEval([i \in 1..Len(f) |-> EEvalG(f[i], <<t>> \o y, <<>>)])
(* y + h * sum_i c_i k_i                                                      *)
RECURSIVE Comb(_,_,_,_)
Comb(c, k, j, i) == IF i = 0 THEN EPlain(Q0)
                    ELSE IF IsZero(c[i]) THEN Comb(c, k, j, i-1) ELSE EAdd(Comb(c, k, j, i-1), EMul(EPlain(c[i]), k[i][j]))
Along(y, h, c, k) == TLCEval([j \in 1..Len(y) |-> EAdd(y[j], EMul(h, Comb(c, k, j, Len(c))))])
Incr(n, h, c, k) == TLCEval([j \in 1..n |-> EMul(h, Comb(c, k, j, Len(c)))])
(* stages of the tableau A (rows) with nodes C                                  *)
RECURSIVE Stages(_,_,_,_,_,_,_)
Stages(f, t, y, h, A, C, k) ==
  IF Len(k) = Len(A) THEN k
  ELSE LET i == Len(k) + 1
       IN Stages(f, t, y, h, A, C, Append(k, TLCEval(Rhs(f, EAdd(t, EMul(EPlain(C[i]), h)), Along(y, h, A[i], k)))))
(* classical fourth order                                                     *)
A4 == <<<<>>, <<QHalf>>, <<Q0, QHalf>>, <<Q0, Q0, Q1>>>>
C4 == <<Q0, QHalf, QHalf, Q1>>
B4 == <<Q(1, 6), Q(1, 3), Q(1, 3), Q(1, 6)>>
RK4Step(f, t, y, h) == Along(y, h, B4, Stages(f, t, y, h, A4, C4, <<>>))
(* Dormand-Prince 5(4)                                                        *)
ADP == << <<>>, <<Q(1,5)>>, <<Q(3,40), Q(9,40)>>, <<Q(44,45), Q(-56,15), Q(32,9)>>,
          <<Q(19372,6561), Q(-25360,2187), Q(64448,6561), Q(-212,729)>>,
          <<Q(9017,3168), Q(-355,33), Q(46732,5247), Q(49,176), Q(-5103,18656)>>,
          <<Q(35,384), Q0, Q(500,1113), Q(125,192), Q(-2187,6784), Q(11,84)>> >>
CDP == <<Q0, Q(1,5), Q(3,10), Q(4,5), Q(8,9), Q1, Q1>>
B5 == <<Q(35,384), Q0, Q(500,1113), Q(125,192), Q(-2187,6784), Q(11,84), Q0>>
B4DP == <<Q(5179,57600), Q0, Q(7571,16695), Q(393,640), Q(-92097,339200), Q(187,2100), Q(1,40)>>
E5 == TLCEval([i \in 1..7 |-> QSub(B4DP[i], B5[i])])
DPStages(f, t, y, h) == Stages(f, t, y, h, ADP, CDP, <<>>)
DPStep(y, h, k) == Along(y, h, B5, k)
DPError(n, h, k) == Incr(n, h, E5, k)
(* square of the weighted error over the tolerances, and its largest value       *)
(* given what the numbers may be off by                                          *)
ErrNormSq(n, err, ya, yb, rtol, atol) ==
  LET sc(j) == NAdd(atol, NMul(rtol, QMax(QAbs(ya[j]), QAbs(yb[j]))))
      lo(j) == QMax(Q0, QSub(QAbs(err[j][1]), err[j][3]))
  IN NDiv(NSum([j \in 1..n |-> NSq(NDiv(lo(j), sc(j)))]), QI(n))
EVec(y) == [i \in 1..Len(y) |-> EPlain(y[i])]
EVal(y) == [i \in 1..Len(y) |-> y[i][1]]
(* a bound has been reached                                                    *)
Reached(t, bound, dir) == IF dir = 1 THEN QLe(bound, t) ELSE QLe(t, bound)
Direction(t0, bound) == IF QLe(t0, bound) THEN 1 ELSE -1
=============================================================================
