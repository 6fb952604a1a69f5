-------------------------- MODULE RungeKuttaDesign --------------------------
(***************************************************************************)
(* The steps of RungeKutta are methods of their orders: exact on polynomials   *)
(* of the right degree, the truncated exponential series on y' = a y, errors   *)
(* shrinking by 2^5 (one step) when the step is halved, and exact inverse      *)
(* order on a quadratic problem with known solution tan t.                     *)
(***************************************************************************)
EXTENDS RungeKutta
CONSTANT HS
VARIABLES h, t0, y0, a
vars4 == <<h, t0, y0, a>>
Rats == {Q(-3, 2), Q(1, 3), Q(2, 1)}
Init == h = Q0 /\ t0 = Q0 /\ y0 = Q0 /\ a = Q0
Next == /\ IsZero(h)
        /\ \E n \in HS, d \in {-1, 1} : h' = Q(d, n)
        /\ t0' \in Rats /\ y0' \in Rats /\ a' \in Rats
RSpec == Init /\ [][Next]_vars4
V1 == <<"v", 1>>
V2 == <<"v", 2>>
E(x) == EPlain(x)
One(f) == RK4Step(<<f>>, E(t0), <<E(y0)>>, E(h))[1][1]
DPk(f) == TLCEval(DPStages(<<f>>, E(t0), <<E(y0)>>, E(h)))
Five(f) == DPStep(<<E(y0)>>, E(h), DPk(f))[1][1]
Tiny(x, s) == QLe(QAbs(x), NMul(P10(-25), s))
Pow1(n) == NDiv(NSub(NPowN(NAdd(t0, h), n), NPowN(t0, n)), QI(n))
Mono(n) == IF n = 0 THEN <<"c", Q1>> ELSE <<"^", V1, n>>
Quadrature == \A n \in 0..3 : Tiny(NSub(One(Mono(n)), NAdd(y0, Pow1(n+1))), QI(1000))
Quadrature5 == \A n \in 0..4 : Tiny(NSub(Five(Mono(n)), NAdd(y0, Pow1(n+1))), QI(1000))
RECURSIVE Expo(_,_)
Expo(z, n) == IF n = 0 THEN Q1 ELSE NAdd(Expo(z, n-1), NDiv(NPowN(z, n), QI(Fact(n))))
Lin == <<"*", <<"c", a>>, V2>>
Linear == Tiny(NSub(One(Lin), NMul(y0, Expo(NMul(a, h), 4))), QI(1000))
\* DP5: the degree 5 series plus (ah)^6/600
Linear5 == Tiny(NSub(Five(Lin), NMul(y0, NAdd(Expo(NMul(a, h), 5), NDiv(NPowN(NMul(a, h), 6), QI(600))))), QI(1000))
Unit(c, w) == Tiny(NSub(NSum(c), w), Q1)
Consistent == Unit(B4, Q1) /\ Unit(B5, Q1) /\ Unit(B4DP, Q1)
              /\ (\A i \in 1..7 : Unit(ADP[i], CDP[i]))
              /\ (\A l \in 1..4 : Unit(A4[l], C4[l]))
(* y' = 1 + y^2, y = tan: from tan(s) over a small step                        *)
Quad == <<"+", <<"c", Q1>>, <<"^", V2, 2>>>>
TanErr(k, five) == LET s == Q(1, 3)  y == RTan(s)  hh == Q(1, k)
                       st == TLCEval(DPStages(<<Quad>>, E(s), <<E(y)>>, E(hh)))
                       v == IF five THEN DPStep(<<E(y)>>, E(hh), st)[1][1] ELSE RK4Step(<<Quad>>, E(s), <<E(y)>>, E(hh))[1][1]
                   IN QAbs(NSub(v, RTan(NAdd(s, hh))))
Order == /\ LET r == NDiv(TanErr(40, FALSE), TanErr(80, FALSE)) IN QLt(QI(23), r) /\ QLt(r, QI(45))
         /\ LET r == NDiv(TanErr(40, TRUE), TanErr(80, TRUE)) IN QLt(QI(46), r) /\ QLt(r, QI(90))
Exactness == IsZero(h) \/ (Quadrature /\ Quadrature5 /\ Linear /\ Linear5)
OnceOrder == ~IsZero(h) \/ (Consistent /\ Order)
=============================================================================
