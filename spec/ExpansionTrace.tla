---------------------------- MODULE ExpansionTrace ----------------------------
EXTENDS Expansion, Units, TraceBase
(* e.what "factor" or "rate"; times in any unit, alone or as an array           *)
AskOp(s, e) ==
  LET known == e.era \in Eras
      want == IF ~known THEN "ValueError" ELSE ""
      ts == TLCEval(SIs(e.ts))
      w == TLCEval([i \in 1..Len(ts) |-> FactorAt(e.era, ts[i])])
      \* the time itself is rounded when its unit is converted
      rel(i) == NMul(P10(-14), NAdd(Q2, IF e.era = "ded" THEN NMul(HLambda, QAbs(ts[i])) ELSE Q0))
      val(i) == NMul(e.tune, IF e.what = "rate" THEN w[i][2] ELSE w[i][1])
  IN R(s, << <<"known eras are answered, others refused", e.exc = want>>,
             <<"one value per time", e.exc = "" => Len(e.out) = Len(ts)>>,
             <<IF e.what = "rate" THEN "rate is the time derivative of the era's law" ELSE "factor follows the era's law",
               (e.exc = "" /\ known) => IsNumSeq(e.out) /\ \A i \in 1..Len(e.out) : QLe(QAbs(QSub(e.out[i], val(i))), NMul(rel(i), QAbs(val(i))))>> >>)
RefuseOp(s, e) == R(s, << <<"a time of the wrong dimension is refused", e.exc \in {"UnitsError", "TypeError", "UnitConversionError"}>> >>)
TStep(s, e) == CASE e.op = "ask" -> AskOp(s, e) [] e.op = "refuse" -> RefuseOp(s, e) [] OTHER -> R(s, << <<"unknown event " \o e.op, FALSE>> >>)
=============================================================================
