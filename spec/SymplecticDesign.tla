--------------------------- MODULE SymplecticDesign ---------------------------
(***************************************************************************)
(* The integrator on its own: reversibility, the order of each composition,   *)
(* conservation over the two copies, the closed form of the contravariant      *)
(* holes, and the completed momentum.                                          *)
(***************************************************************************)
EXTENDS Symplectic
CONSTANT DEEP
VARIABLE cs

FlatM == [kind |-> "tree", prm |-> <<>>, comps |-> GeneralT(C_(QI(-1)), OneT, <<"/", OneT, R2>>, <<"/", OneT, <<"*", R2, Sin2>>>>, ZeroT)]
Kerr1 == [kind |-> "Kerr", prm |-> <<Q(7, 10)>>, comps |-> <<>>]
KN1 == [kind |-> "KerrNewman", prm |-> <<Q(1, 2), Q(3, 10)>>, comps |-> <<>>]
Sch1 == [kind |-> "Schwarzschild", prm |-> <<>>, comps |-> <<>>]
(* an unfamiliar one: all coordinates matter, off-diagonal terms                *)
Odd == [kind |-> "tree", prm |-> <<Q(1, 3)>>, comps |->
  << <<"neg", <<"+", OneT, <<"*", P(1), V(1), V(1)>>>>>>, C_(Q(1, 5)), ZeroT, <<"*", P(1), V(2)>>,
     C_(Q(1, 5)), <<"+", OneT, <<"^", V(4), 2>>>>, <<"*", C_(Q(1, 10)), V(3)>>, ZeroT,
     ZeroT, <<"*", C_(Q(1, 10)), V(3)>>, C_(Q2), C_(Q(1, 7)),
     <<"*", P(1), V(2)>>, ZeroT, C_(Q(1, 7)), <<"+", C_(Q2), <<"cos", V(1)>>>> >>]
Start(k) == CASE k = 1 -> << <<Q0, QI(6), Q(3, 2), Q(1, 3)>>, <<Q(-9, 10), Q(1, 10), Q(1, 2), QI(3)>> >>
              [] OTHER -> << <<Q(1, 4), QI(9), QI(1), QI(-1)>>, <<QI(-1), Q(-1, 5), Q(1, 3), QI(-2)>> >>
OddStart == << <<Q(1, 4), Q(1, 2), Q(2, 3), Q(-1, 5)>>, <<QI(-1), Q(1, 5), Q(1, 3), Q(1, 2)>> >>
Both(x) == <<x[1], x[2], x[1], x[2]>>
(* start off the diagonal as well                                              *)
Split(x) == <<x[1], x[2], VAxpy(Q(1, 100), <<Q1, Q1, Q1, Q1>>, x[1]), VAxpy(Q(-1, 50), <<Q1, Q1, Q1, Q1>>, x[2])>>
Metric(n) == CASE n = "flat" -> FlatM [] n = "kerr" -> Kerr1 [] n = "kn" -> KN1 [] n = "sch" -> Sch1 [] OTHER -> Odd
Names == {"flat", "kerr", "kn", "sch", "odd"}
Ords == IF DEEP THEN {2, 4, 6, 8} ELSE {2, 4}
Cases == [what : {"reverse"}, m : Names, ord : Ords, k : {1, 2}, om : {Q1, Q(1, 100)}]
         \cup [what : {"order"}, m : {"flat"}, ord : {2, 4, 6} \cup (IF DEEP THEN {8} ELSE {}), k : {1, 2}, om : {Q1}]
         \cup [what : {"closed"}, m : {"kerr", "kn", "sch"}, ord : {2}, k : {1, 2}, om : {Q1}]
         \cup [what : {"jump"}, m : {"flat"}, ord : {4, 6, 8}, k : {1}, om : {Q1}]
         \cup [what : {"momentum"}, m : Names, ord : {2}, k : {1, 2}, om : {Q1}]
Init == cs \in Cases
DSpec == Init /\ [][UNCHANGED cs]_cs
St == IF cs.m = "odd" THEN OddStart ELSE Start(cs.k)
Close4(a, b, t) == \A i \in 1..4 : \A j \in 1..4 : QLe(QAbs(QSub(a[i][j], b[i][j])), t)
(* stepping forward and back returns: for any state, also off the diagonal      *)
Reversible == cs.what = "reverse" =>
   LET s == Split(St)  d == Q(1, 5)  m == Metric(cs.m)
       f == TLCEval(StepN(cs.ord, m, s, d, cs.om))
   IN /\ Close4(StepN(cs.ord, m, f, QNeg(d), cs.om), s, P10(-30))
      \* ignorable coordinates: their momenta summed over the copies are conserved
      /\ cs.m # "odd" => \A i \in {1, 4} : QLe(QAbs(QSub(QAdd(f[2][i], f[4][i]), QAdd(s[2][i], s[4][i]))), P10(-33))
(* triple jump constants cancel the leading error                               *)
Jump == cs.what = "jump" =>
   LET z1 == ZOuter(cs.ord)  z0 == ZInner(cs.ord) IN
     /\ QLe(QAbs(QSub(QAdd(QMul(Q2, z1), z0), Q1)), P10(-35))
     /\ QLe(QAbs(QAdd(QMul(Q2, QPowN(z1, cs.ord - 1)), QPowN(z0, cs.ord - 1))), P10(-34))
(* straight lines in polar coordinates: local error of order k goes with d^(k+1) *)
Straight(x, d) ==     \* exact radius after parameter d, from (r, theta, pr, L^2)
  LET r == x[1][2]  L2 == NAdd(NSq(x[2][3]), NDiv(NSq(x[2][4]), NSq(RSin(x[1][3]))))
      v2 == NAdd(NSq(x[2][2]), NDiv(L2, NSq(r)))
  IN RSqrt(NAdd(NAdd(NSq(r), NMul(Q2, NMul(d, NMul(r, x[2][2])))), NMul(v2, NSq(d))))
Err(d) == QAbs(QSub(StepN(cs.ord, FlatM, Both(St), d, cs.om)[1][2], Straight(St, d)))
OrderOK == cs.what = "order" =>
   LET d == Q(1, 100)  big == TLCEval(Err(d))  small == TLCEval(Err(NMul(QHalf, d)))
       r == NDiv(big, small)  p == QPowN(Q2, cs.ord + 1)
   IN QLe(NMul(Q(6, 10), p), r) /\ QLe(r, NMul(Q(17, 10), p))
ClosedForm == cs.what = "closed" =>
   LET m == Metric(cs.m)  a == TLCEval(UpperJ(m, 1, St[1]))  b == TLCEval(ContraM(m.kind, 1, m.prm, St[1]))
   IN \A q \in 1..16 : \A i \in 1..Len(a[q]) : QLe(QAbs(QSub(a[q][i], b[q][i])), P10(-30))
(* the completed momentum is on the mass shell and future directed               *)
Momentum == cs.what = "momentum" =>
   \A tl \in BOOLEAN :
     LET g == Contra(Metric(cs.m), St[1])  p == SubSeq(St[2], 2, 4)  c == Completed(g, p, tl)  P4 == <<c.root>> \o p
     IN c.disc[1] > 0 => /\ QLe(QAbs(QAdd(Shell(g, P4), IF tl THEN Q1 ELSE Q0)), P10(-30))
                         /\ NMatVec(g, P4)[1][1] > 0
=============================================================================
