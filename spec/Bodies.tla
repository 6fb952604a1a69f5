-------------------------------- MODULE Bodies --------------------------------
(***************************************************************************)
(* Bodies, physical constants and symbolic constants.                         *)
(*                                                                             *)
(* A body is what it was built from: its name, mass, charge and radius, its    *)
(* coordinates and its parent.  What is not given has a default of its own --  *)
(* one per body, never shared with another.                                    *)
(***************************************************************************)
EXTENDS Units
Measured == {"mass", "q", "R"}
Dimension(f) == CASE f = "mass" -> "kg" [] f = "q" -> "C" [] f = "R" -> "m"
(* what a unit measures, for the units used here                               *)
Measures(un) ==
  CASE un \in {"kg", "g", "t", "solMass"} -> "kg"
    [] un \in {"C", "uC", "mC", "A h", "A s"} -> "C"
    [] un \in {"m", "km", "cm", "mm", "AU", "pc", "kpc", "lyr"} -> "m"
    [] un = "plain" -> "none"
    [] OTHER -> "other"
DefaultName == "Generic Body"
(* a request: name ("" = not given) and a quantity <<number, unit>> or <<>> per field *)
Fits(f, x) == x = <<>> \/ Measures(x[2]) = Dimension(f)
AcceptBody(req) == Fits("mass", req.mass) /\ Fits("q", req.q) /\ Fits("R", req.R)
Val(x) == IF x = <<>> THEN Q0 ELSE SI(x)
NewBody(req) == [name |-> IF req.name = "" THEN DefaultName ELSE req.name,
                 mass |-> Val(req.mass), q |-> Val(req.q), R |-> Val(req.R),
                 parent |-> req.parent, coords |-> IF req.coords = <<>> THEN <<>> ELSE SIs(req.coords)]
SetField(b, f, v) == [b EXCEPT ![f] = v]

(* the solar system: name, mass / kg, radius / km, parent                      *)
SolarSystem ==
  << <<"Sun", QMul(QI(19891), P10(26)), QI(695510), "">>,
     <<"Earth", QMul(QI(597219), P10(19)), QI(6731), "Sun">>,
     <<"Moon", QMul(QI(734767309), P10(14)), Q(17375, 10), "Earth">>,
     <<"Mercury", QMul(QI(3285), P10(20)), Q(24397, 10), "Sun">>,
     <<"Venus", QMul(QI(4867), P10(21)), Q(60518, 10), "Sun">>,
     <<"Mars", QMul(QI(639), P10(21)), Q(33895, 10), "Sun">>,
     <<"Jupiter", QMul(QI(189813), P10(22)), QI(69911), "Sun">>,
     <<"Saturn", QMul(QI(5683), P10(23)), QI(58232), "Sun">>,
     <<"Uranus", QMul(QI(8681), P10(22)), QI(25362), "Sun">>,
     <<"Neptune", QMul(QI(1024), P10(23)), QI(24622), "Sun">>,
     <<"Pluto", QMul(QI(1309), P10(19)), Q(11833, 10), "Sun">> >>

(* the numerical constants: value in SI, the dimensions (powers of m, kg, s, A)  *)
Speed == QI(299792458)
Gravity == QMul(QI(667430), P10(-16))
Eps0 == QMul(QAdd(QMul(QI(88541), P10(6)), QI(878188)), P10(-22))     \* 8.8541878188e-12
Numeric ==
  [c |-> <<Speed, <<1, 0, -1, 0>>>>,
   G |-> <<Gravity, <<3, -1, -2, 0>>>>,
   eps0 |-> <<Eps0, <<-3, -1, 4, 2>>>>,
   coulombs_const |-> <<NDiv(Q1, NMul(QI(4), NMul(QPi, Eps0))), <<3, 1, -4, -2>>>>,
   Cosmo_Const |-> <<QMul(QI(2036), P10(-38)), <<0, 0, -2, 0>>>>,
   Solar_Mass |-> <<QMul(QI(19891), P10(26)), <<0, 1, 0, 0>>>>,
   R_sun |-> <<QMul(QI(695510), QI(1000)), <<1, 0, 0, 0>>>>]

(* the symbolic constants: look-up name, symbol, description                     *)
Symbolic ==
  [c |-> <<"c", "Speed Of Light">>, G |-> <<"G", "Gravitational Constant">>,
   Cosmo_Const |-> <<"Lambda", "Cosmological Constant">>, eps_0 |-> <<"eps_0", "Permittivity of free space">>]
=============================================================================
