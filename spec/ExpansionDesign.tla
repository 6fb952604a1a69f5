--------------------------- MODULE ExpansionDesign ---------------------------
(***************************************************************************)
(* An expanding universe advanced by finite steps: the stated rate is the       *)
(* derivative of the law, the factor grows, and the rate obeys the equation of  *)
(* its era (a adot^(1/2) const, a adot const, adot/a const).                    *)
(***************************************************************************)
EXTENDS Expansion
CONSTANTS STEPS
VARIABLES era, T, k
evars == <<era, T, k>>
Start(e) == IF e = "ded" THEN P10(16) ELSE Q(1, 10)
Init == era \in Eras /\ T = Start(era) /\ k = 0
Next == k < STEPS /\ k' = k + 1 /\ T' = (IF era = "ded" THEN NMul(T, Q(3, 2)) ELSE NMul(T, QI(7))) /\ UNCHANGED era
ESpec == Init /\ [][Next]_evars
Small(a, b) == RelNear(a, b, P10(-25), Q0)
PairConsistent == Small(FactorAt(era, T)[2], StatedRate(era, T))
FriedmannLaw == LET f == FactorAt(era, T)  f0 == FactorAt(era, Start(era)) IN
  CASE era = "md" -> Small(NMul(f[1], NSq(f[2])), NMul(f0[1], NSq(f0[2])))
    [] era = "rd" -> Small(NMul(f[1], f[2]), NMul(f0[1], f0[2]))
    [] OTHER -> Small(NMul(NSq(f[2]), QI(3)), NMul(NSq(f[1]), Lambda))
Grows == [][QLt(FactorAt(era, T)[1], FactorAt(era, T')[1])]_evars
=============================================================================
