------------------------------- MODULE Coords -------------------------------
(***************************************************************************)
(* Cartesian, spherical and Boyer-Lindquist coordinates of an event in SI    *)
(* units.  A representation is a system name and three jets in one variable  *)
(* (time): position and velocity components together.  What identifies an    *)
(* event is its Cartesian image; the two curvilinear systems are DEFINED by  *)
(* their maps to it, velocities by the chain rule (jet arithmetic).          *)
(***************************************************************************)
EXTENDS Tensor

CLight == QI(299792458)
GNewton == QMul(QI(667430), P10(-16))
HalfRs(M) == NDiv(NMul(GNewton, M), NSq(CLight))       \* G M / c^2
AlphaOf(M, a) == NMul(a, HalfRs(M))

J1(q, v) == <<q, v>>
J1Sin(a) == JComp(1, TLCEval(TSin(a[1])), a)
J1Cos(a) == JComp(1, TLCEval(TCos(a[1])), a)
J1Mul(a, b) == JMul(1, a, b)
J1Sqrt(a) == IF IsZero(a[1]) THEN <<Q0, Q0>> ELSE JSqrt(1, a)

(* the Cartesian image of a representation *)
ToCart(sys, alpha, q) ==
  IF sys = "Cartesian" THEN q
  ELSE LET s == TLCEval(J1Sin(q[2]))  cs == TLCEval(J1Cos(q[2]))
           sp == TLCEval(J1Sin(q[3]))  cp == TLCEval(J1Cos(q[3]))
           big == IF sys = "Spherical" THEN q[1]
                  ELSE TLCEval(J1Sqrt(JAdd(J1Mul(q[1], q[1]), <<NSq(alpha), Q0>>)))
           w == TLCEval(J1Mul(big, s))
       IN <<J1Mul(w, cp), J1Mul(w, sp), J1Mul(q[1], cs)>>

(* and back, for the design check and for predicting round trips            *)
Rho2(c) == JAdd(J1Mul(c[1], c[1]), J1Mul(c[2], c[2]))
AtanJ(y, x) ==      \* angle of the point (x, y), x^2 + y^2 # 0
  LET d == NAdd(NSq(x[1]), NSq(y[1]))
  IN <<RAtan2(y[1], x[1]), NDiv(NSub(NMul(x[1], y[2]), NMul(y[1], x[2])), d)>>
FromCart(sys, alpha, c) ==
  IF sys = "Cartesian" THEN c
  ELSE LET rho == TLCEval(J1Sqrt(Rho2(c)))
           R2 == TLCEval(JAdd(Rho2(c), J1Mul(c[3], c[3])))
           phi == IF IsZero(rho[1]) THEN <<Q0, Q0>> ELSE AtanJ(c[2], c[1])
       IN IF sys = "Spherical"
          THEN <<J1Sqrt(R2), AtanJ(rho, c[3]), phi>>
          ELSE LET w == JSub(R2, <<NSq(alpha), Q0>>)
                   disc == J1Sqrt(JAdd(J1Mul(w, w), JScale(NMul(QI(4), NSq(alpha)), J1Mul(c[3], c[3]))))
                   r == TLCEval(J1Sqrt(JScale(QHalf, JAdd(w, disc))))
                   big == TLCEval(J1Sqrt(JAdd(J1Mul(r, r), <<NSq(alpha), Q0>>)))
                   \* sin = rho/big, cos = z/r
               IN <<r, AtanJ(JDiv(1, rho, big), JDiv(1, c[3], r)), phi>>

Norm3(v) == RSqrt(NAdd(NAdd(NSq(v[1]), NSq(v[2])), NSq(v[3])))
PosOf3(q) == <<q[1][1], q[2][1], q[3][1]>>
VelOf3(q) == <<q[1][2], q[2][2], q[3][2]>>
Systems == {"Cartesian", "Spherical", "BoyerLindquist"}
(* a conversion needs the hole when either end is Boyer-Lindquist            *)
NeedsHole(a, b) == a = "BoyerLindquist" \/ b = "BoyerLindquist"
=============================================================================
