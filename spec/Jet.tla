-------------------------------- MODULE Jet --------------------------------
(***************************************************************************)
(* Truncated multivariate Taylor series ("jets") over the rationals.       *)
(* A jet in n variables is the sequence of its Taylor coefficients, ordered *)
(* by total degree; a jet of order K uses the coefficients of degree <= K,  *)
(* and a lower order jet is a prefix of a higher order one.  This gives     *)
(* exact partial derivatives of any composed expression.                    *)
(***************************************************************************)
EXTENDS Num, FiniteSets
CONSTANTS MAXDIM, MAXORD

RECURSIVE MIsOfDeg(_,_)            \* multi-indices with n entries and sum exactly k, as a sequence
RECURSIVE MICat(_,_,_)
MICat(n, k, j) == IF j < 0 THEN <<>>
                  ELSE LET rest == MIsOfDeg(n-1, k-j)
                       IN [i \in 1..Len(rest) |-> <<j>> \o rest[i]] \o MICat(n, k, j-1)
MIsOfDeg(n, k) == IF n = 1 THEN << <<k>> >> ELSE MICat(n, k, k)
RECURSIVE MIUpTo(_,_)
MIUpTo(n, k) == IF k < 0 THEN <<>> ELSE MIUpTo(n, k-1) \o MIsOfDeg(n, k)

MI == TLCEval([n \in 1..MAXDIM |-> TLCEval(MIUpTo(n, MAXORD))])
JLen == TLCEval([n \in 1..MAXDIM |-> TLCEval([k \in 0..MAXORD |-> Len(MIUpTo(n, k))])])
PosOf == TLCEval([n \in 1..MAXDIM |-> TLCEval([m \in {MI[n][i] : i \in 1..Len(MI[n])} |->
             CHOOSE i \in 1..Len(MI[n]) : MI[n][i] = m])])
MinusMI(n, a, b) == [v \in 1..n |-> a[v] - b[v]]
RECURSIVE PairsFor(_,_,_)
PairsFor(n, k, i) ==
  IF i > k THEN <<>>
  ELSE LET a == MI[n][k]  b == MI[n][i]
       IN (IF \A v \in 1..n : b[v] <= a[v]
           THEN << <<i, PosOf[n][MinusMI(n, a, b)]>> >> ELSE <<>>) \o PairsFor(n, k, i+1)
(* product table *)
MTab == TLCEval([n \in 1..MAXDIM |-> TLCEval([k \in 1..Len(MI[n]) |-> TLCEval(PairsFor(n, k, 1))])])
PlusE(n, a, w) == [v \in 1..n |-> IF v = w THEN a[v] + 1 ELSE a[v]]
(* derivative table: coefficient k of d/dx_w f is DTab[n][w][k][2] * f[DTab[n][w][k][1]] *)
DTab == TLCEval([n \in 1..MAXDIM |-> TLCEval([w \in 1..n |-> TLCEval([k \in 1..JLen[n][MAXORD-1] |->
           <<PosOf[n][PlusE(n, MI[n][k], w)], QI(MI[n][k][w] + 1)>>])])])

JConst(n, K, c) == [i \in 1..JLen[n][K] |-> IF i = 1 THEN c ELSE Q0]
(* the coordinate function x_v at a point where it has value c *)
JVar(n, K, v, c) == [i \in 1..JLen[n][K] |-> IF i = 1 THEN c
                       ELSE IF K >= 1 /\ i = PosOf[n][[w \in 1..n |-> IF w = v THEN 1 ELSE 0]] THEN Q1 ELSE Q0]
Mn(a, b) == IF a < b THEN a ELSE b
JAdd(a, b) == QLin(Q1, a, Q1, b, Mn(Len(a), Len(b)), PREC)
JSub(a, b) == QLin(Q1, a, QI(-1), b, Mn(Len(a), Len(b)), PREC)
JScale(c, a) == QLin(c, a, Q0, a, Len(a), PREC)
JNeg(a) == JScale(QI(-1), a)
JMul(n, a, b) == QBil(MTab[n], Mn(Len(a), Len(b)), a, b, PREC)
JD(n, w, a) == LET L == JLen[n][(CHOOSE k \in 1..MAXORD : JLen[n][k] = Len(a)) - 1]
               IN TLCEval([k \in 1..L |-> NMul(DTab[n][w][k][2], a[DTab[n][w][k][1]])])
JTrunc(a, L) == SubSeq(a, 1, L)
JZeroed(a) == [i \in 1..Len(a) |-> IF i = 1 THEN Q0 ELSE a[i]]
(* sum_k c[k+1] (a - a_0)^k  for Taylor coefficients c of a function at a_0  *)
RECURSIVE JHorner(_,_,_,_)
JHorner(n, c, d, k) ==    \* Horner from index k up
  IF k = Len(c) THEN TLCEval([i \in 1..Len(d) |-> IF i = 1 THEN c[k] ELSE Q0])
  ELSE LET h == JMul(n, d, JHorner(n, c, d, k+1))
       IN TLCEval([i \in 1..Len(d) |-> IF i = 1 THEN NAdd(c[k], h[1]) ELSE h[i]])
JComp(n, c, a) == JHorner(n, c, TLCEval(JZeroed(a)), 1)

RECURSIVE Fact(_)
Fact(k) == IF k <= 1 THEN 1 ELSE k * Fact(k-1)
(* Taylor coefficients at x, degrees 0..MAXORD, of the functions used        *)
TInv(x) == [k \in 1..MAXORD+1 |-> NMul(QI(IF k % 2 = 1 THEN 1 ELSE -1), NPowN(x, -k))]
TSin(x) == LET s == RSin(x) c == RCos(x) IN
  [k \in 1..MAXORD+1 |-> NDiv(CASE (k-1) % 4 = 0 -> s [] (k-1) % 4 = 1 -> c
                                [] (k-1) % 4 = 2 -> QNeg(s) [] OTHER -> QNeg(c), QI(Fact(k-1)))]
TCos(x) == LET s == RSin(x) c == RCos(x) IN
  [k \in 1..MAXORD+1 |-> NDiv(CASE (k-1) % 4 = 0 -> c [] (k-1) % 4 = 1 -> QNeg(s)
                                [] (k-1) % 4 = 2 -> QNeg(c) [] OTHER -> s, QI(Fact(k-1)))]
TExp(x) == LET e == RExp(x) IN [k \in 1..MAXORD+1 |-> NDiv(e, QI(Fact(k-1)))]
TCosh(x) == LET c == RCosh(x) s == RSinh(x) IN [k \in 1..MAXORD+1 |-> NDiv(IF k % 2 = 1 THEN c ELSE s, QI(Fact(k-1)))]
TSinh(x) == LET c == RCosh(x) s == RSinh(x) IN [k \in 1..MAXORD+1 |-> NDiv(IF k % 2 = 1 THEN s ELSE c, QI(Fact(k-1)))]
TLn(x) == [k \in 1..MAXORD+1 |-> IF k = 1 THEN RLn(x)
                    ELSE NDiv(NPowN(x, -(k-1)), QI(IF k % 2 = 0 THEN k-1 ELSE -(k-1)))]
(* x^y for a rational exponent y and x > 0: binomial coefficients            *)
RECURSIVE Binom(_,_)
Binom(y, k) == IF k = 0 THEN Q1 ELSE NDiv(NMul(Binom(y, k-1), NSub(y, QI(k-1))), QI(k))
TPow(x, y, x0y) == [k \in 1..MAXORD+1 |-> NMul(Binom(y, k-1), NMul(x0y, NPowN(x, -(k-1))))]
(* Bessel J0: J0' = -J1, J1' = J0 - J1/x;  third derivative from the ODE     *)
TBesJ0(x) == LET a == RBesJ0(x) b == RBesJ1(x)
                 d2 == NSub(NDiv(b, x), a)                    \* J0''
                 d3 == NSub(NAdd(b, NDiv(a, x)), NDiv(NMul(Q2, b), NMul(x, x)))
             IN [k \in 1..MAXORD+1 |-> CASE k = 1 -> a [] k = 2 -> QNeg(b)
                    [] k = 3 -> NMul(QHalf, d2) [] OTHER -> NDiv(d3, QI(6))]

(* J1' = J0 - J1/x, then Bessel's equation                                   *)
TBesJ1(x) == LET a == RBesJ0(x)  b == RBesJ1(x)
                 d1 == NSub(a, NDiv(b, x))
                 w == NSub(Q1, NDiv(Q1, NMul(x, x)))
                 d2 == NSub(QNeg(NDiv(d1, x)), NMul(w, b))
                 d3 == NSub(NSub(NDiv(d1, NMul(x, x)), NDiv(d2, x)), NAdd(NMul(w, d1), NMul(NDiv(Q2, NPowN(x, 3)), b)))
             IN [k \in 1..MAXORD+1 |-> CASE k = 1 -> b [] k = 2 -> d1 [] k = 3 -> NMul(QHalf, d2) [] OTHER -> NDiv(d3, QI(6))]

JInv(n, a) == JComp(n, TLCEval(TInv(a[1])), a)
JDiv(n, a, b) == JMul(n, a, JInv(n, b))
RECURSIVE JPowN(_,_,_)
JPowN(n, a, k) == IF k = 0 THEN [i \in 1..Len(a) |-> IF i = 1 THEN Q1 ELSE Q0]
                  ELSE IF k < 0 THEN JInv(n, JPowN(n, a, -k))
                  ELSE IF k = 1 THEN a
                  ELSE IF k % 2 = 0 THEN LET h == TLCEval(JPowN(n, a, k \div 2)) IN JMul(n, h, h)
                  ELSE JMul(n, a, JPowN(n, a, k-1))
JSqrt(n, a) == JComp(n, TLCEval(TPow(a[1], QHalf, RSqrt(a[1]))), a)
JPowQ(n, a, y) == JComp(n, TLCEval(TPow(a[1], y, RPow(a[1], y))), a)

-----------------------------------------------------------------------------
(* Expression trees: <<"c", q>> constant, <<"v", i>> i-th coordinate,        *)
(* <<"p", i>> i-th parameter, <<"+", e, ...>>, <<"*", e, ...>>, <<"-", a, b>>,*)
(* <<"/", a, b>>, <<"neg", a>>, <<"^", a, k>> integer power,                 *)
(* <<"powq", a, q>> rational power, and the unary functions below.           *)
RECURSIVE JEval(_,_,_,_,_)
RECURSIVE JFoldAdd(_,_,_,_,_,_,_)
RECURSIVE JFoldMul(_,_,_,_,_,_,_)
JFoldAdd(n, K, e, i, acc, pt, pr) ==
  IF i > Len(e) THEN acc ELSE JFoldAdd(n, K, e, i+1, JAdd(acc, JEval(n, K, e[i], pt, pr)), pt, pr)
JFoldMul(n, K, e, i, acc, pt, pr) ==
  IF i > Len(e) THEN acc ELSE JFoldMul(n, K, e, i+1, JMul(n, acc, JEval(n, K, e[i], pt, pr)), pt, pr)
JEval(n, K, e, pt, pr) ==
  LET A == TLCEval(JEval(n, K, e[2], pt, pr))
      B == JEval(n, K, e[3], pt, pr)
      h == e[1]
  IN CASE h = "c" -> TLCEval(JConst(n, K, e[2]))
       [] h = "v" -> TLCEval(JVar(n, K, e[2], pt[e[2]]))
       [] h = "p" -> TLCEval(JConst(n, K, pr[e[2]]))
       [] h = "+" -> JFoldAdd(n, K, e, 3, A, pt, pr)
       [] h = "*" -> JFoldMul(n, K, e, 3, A, pt, pr)
       [] h = "-" -> JSub(A, B)
       [] h = "/" -> JDiv(n, A, B)
       [] h = "neg" -> JNeg(A)
       [] h = "^" -> JPowN(n, A, e[3])
       [] h = "powq" -> JPowQ(n, A, e[3])
       [] h = "sqrt" -> JSqrt(n, A)
       [] h = "sin" -> JComp(n, TLCEval(TSin(A[1])), A)
       [] h = "cos" -> JComp(n, TLCEval(TCos(A[1])), A)
       [] h = "tan" -> JDiv(n, JComp(n, TLCEval(TSin(A[1])), A), JComp(n, TLCEval(TCos(A[1])), A))
       [] h = "exp" -> JComp(n, TLCEval(TExp(A[1])), A)
       [] h = "ln" -> JComp(n, TLCEval(TLn(A[1])), A)
       [] h = "cosh" -> JComp(n, TLCEval(TCosh(A[1])), A)
       [] h = "sinh" -> JComp(n, TLCEval(TSinh(A[1])), A)
       [] h = "tanh" -> JDiv(n, JComp(n, TLCEval(TSinh(A[1])), A), JComp(n, TLCEval(TCosh(A[1])), A))
       [] h = "besj1" -> JComp(n, TLCEval(TBesJ1(A[1])), A)
       [] h = "besj0" -> JComp(n, TLCEval(TBesJ0(A[1])), A)
=============================================================================
