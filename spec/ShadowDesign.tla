----------------------------- MODULE ShadowDesign -----------------------------
(***************************************************************************)
(* A ray swept outwards through the critical impact parameter: turning points    *)
(* solve the equation, lie outside 3M and grow; the integrals are positive and   *)
(* scale as 1/M; Gauss-Legendre is exact to degree nine; the spline passes        *)
(* through its points and reproduces cubics.                                   *)
(***************************************************************************)
EXTENDS Shadow
CONSTANTS STEPS, MASSES
VARIABLES M, k
svars == <<M, k>>
Init == M \in {Q(m, 4) : m \in MASSES} /\ k = 0
Next == k < STEPS /\ k' = k + 1 /\ UNCHANGED M
SSpec == Init /\ [][Next]_svars
B == NMul(BCrit(M), Q(20 + k, 20))
Fov == NMul(QI(40), M)
Outer == k > 0 => LET r == TLCEval(Turning(M, B)) IN
            /\ RelNear(Apparent(M, r), B, P10(-25), Q0)
            /\ QLt(NMul(QI(3), M), r) /\ QLt(r, B)
            /\ QLt(Turning(M, NMul(BCrit(M), Q(19 + k, 20))), r)
Positive == k > 0 => LET r == TLCEval(Turning(M, B))  v == OuterRay(M, Fov, B, r) IN
            /\ QLt(Q0, v[1])
            /\ LET r1 == Turning(Q1, NDiv(B, M)) IN RelNear(NMul(v[1], M), OuterRay(Q1, QI(40), NDiv(B, M), r1)[1], P10(-18), Q0)
InnerOk == LET b == NMul(BCrit(M), Q(k, STEPS + 1))  v == InnerRay(M, Fov, b) IN
            QLt(Q0, v[1]) /\ RelNear(NMul(v[1], M), InnerRay(Q1, QI(40), NDiv(b, M))[1], P10(-20), Q0)
GaussExact == k = 0 => \A n \in 0..9 : RelNear(NSum([i \in 1..5 |-> NMul(Nodes5[i][2], NPowN(NAdd(Nodes5[i][1], M), n))]),
                           NDiv(NSub(NPowN(NAdd(M, Q1), n+1), NPowN(NSub(M, Q1), n+1)), QI(n+1)), P10(-20), P10(-10))
Xs == [i \in 1..8 |-> NMul(M, QAdd(QI(i), Q(i*i, 7)))]
Cubic(t) == NAdd(NSub(NPowN(t, 3), NMul(QI(4), t)), M)
SplineOk == k = 0 => LET ys == [i \in 1..8 |-> Cubic(Xs[i])]  m == Moments(Xs, ys)
                         yz == [i \in 1..8 |-> RSin(QI(i))]  mz == Moments(Xs, yz)
                     IN /\ \A j \in 0..20 : LET t == NAdd(Xs[1], NMul(Q(j, 20), NSub(Xs[8], Xs[1]))) IN RelNear(SplineAt(Xs, ys, m, t), Cubic(t), P10(-20), Q1)
                        /\ \A i \in 1..8 : RelNear(SplineAt(Xs, yz, mz, Xs[i]), yz[i], P10(-20), Q1)
                        \* slopes agree on both sides of inner points
                        /\ \A i \in 2..7 : LET e == P10(-9)  l == NDiv(NSub(yz[i], SplineAt(Xs, yz, mz, NSub(Xs[i], e))), e)
                                               r == NDiv(NSub(SplineAt(Xs, yz, mz, NAdd(Xs[i], e)), yz[i]), e) IN RelNear(l, r, P10(-6), Q1)
=============================================================================
