-------------------------------- MODULE Units --------------------------------
(***************************************************************************)
(* Units of measurement as exact factors to SI.  A quantity is a pair        *)
(* <<number, unit name>>; a plain number is in SI already.                   *)
(***************************************************************************)
EXTENDS Num
UAU == QMul(QAdd(QMul(QI(1495978), P10(5)), QI(70700)), QI(1))     \* 149 597 870 700 m
Parsec == TLCEval(NDiv(NMul(QI(648000), UAU), QPi))
Year == QI(31557600)
GMSun == QMul(QI(13271244), P10(13))
UnitFactor(u) ==
  CASE u \in {"", "m", "s", "rad", "kg", "C", "m/s", "rad/s", "C/kg", "A s"} -> Q1
    [] u = "km" -> QI(1000) [] u = "cm" -> Q(1, 100) [] u = "mm" -> Q(1, 1000) [] u = "AU" -> UAU
    [] u = "pc" -> Parsec [] u = "kpc" -> QMul(QI(1000), Parsec)
    [] u = "lyr" -> QMul(QI(299792458), Year)
    [] u = "deg" -> NDiv(QPi, QI(180)) [] u = "arcmin" -> NDiv(QPi, QI(10800)) [] u = "hourangle" -> NDiv(QPi, QI(12))
    [] u = "min" -> QI(60) [] u = "h" -> QI(3600) [] u = "d" -> QI(86400) [] u = "yr" -> Year
    [] u = "Gyr" -> QMul(P10(9), Year) [] u = "ms" -> Q(1, 1000)
    [] u = "g" -> Q(1, 1000) [] u = "t" -> QI(1000)
    [] u = "solMass" -> NDiv(GMSun, QMul(QI(667430), P10(-16)))
    [] u = "km/s" -> QI(1000) [] u = "km/h" -> Q(5, 18) [] u = "AU/yr" -> NDiv(UAU, Year) [] u = "cm/s" -> Q(1, 100)
    [] u = "deg/s" -> NDiv(QPi, QI(180)) [] u = "rad/min" -> Q(1, 60) [] u = "deg/h" -> NDiv(QPi, QI(648000)) [] u = "rad/yr" -> NDiv(Q1, Year)
    [] u = "uC" -> P10(-6) [] u = "mC" -> P10(-3) [] u = "A h" -> QI(3600)
    [] u = "uC/g" -> P10(-3) [] u = "C/g" -> QI(1000)
    [] u = "%" -> Q(1, 100) [] u = "1" -> Q1 [] u = "km/m" -> QI(1000)
SI(x) == NMul(x[1], UnitFactor(x[2]))
SIs(s) == TLCEval([i \in 1..Len(s) |-> SI(s[i])])
=============================================================================
