--------------------------- MODULE EmbeddingDesign ---------------------------
(***************************************************************************)
(* The two walks as a transition system: radii advance by equal steps, the       *)
(* circumference radius is least at r = 3M and grows along both walks, heights   *)
(* grow outward and fall inward, and the slope is dR/dr times the stated height  *)
(* gradient dz/dR (a consistent chain rule).                                   *)
(***************************************************************************)
EXTENDS Embedding
CONSTANTS MASSES, ALPHAS
VARIABLES M, al, sg, r, z, n, on
evars == <<M, al, sg, r, z, n, on>>
Init == /\ M \in {C(m) : m \in MASSES} /\ al \in {QI(a) : a \in ALPHAS} /\ sg \in {1, -1}
        /\ r = Start(M) /\ z = C(0) /\ n = 0 /\ on = TRUE
Step == EDiv(M, EPlain(al))
More == IF sg = 1 THEN QLt(r[1], NMul(OutEnd, M[1])) ELSE QLt(NMul(InEnd, M[1]), r[1])
Next == /\ on
        /\ IF More THEN /\ z' = EAdd(z, EMul(Slope(M, r), Step)) /\ r' = (IF sg = 1 THEN EAdd(r, Step) ELSE ESub(r, Step)) /\ n' = n + 1 /\ on' = TRUE
                   ELSE UNCHANGED <<r, z, n>> /\ on' = FALSE
        /\ UNCHANGED <<M, al, sg>>
MSpec == Init /\ [][Next]_evars /\ WF_evars(Next)
Ends == <>(~on)
(* dR/dr by the rules of calculus                                               *)
RdR(x) == Circum(M, <<x, Q1, Q0, Q0>>)
ChainRule == More => LET x == r[1]  R == RdR(x)
                         d == NSub(x, NMul(QI(3), M[1]))
                         dzdR2 == NDiv(NMul(NSub(NMul(QI(4), NMul(M[1], x)), NMul(QI(9), NSq(M[1]))), R[1]), NSq(d))
                         s == Slope(M, r)[1]
                     IN RelNear(NSq(s), NMul(dzdR2, NSq(R[2])), P10(-20), P10(-10)) /\ s[1] = R[2][1]
Throat == More => QLe(Circum(M, EMul(C(3), M))[1], QAdd(Circum(M, r)[1], P10(-20)))
Heights == [][n' > n => IF r[1] = Start(M)[1] \/ sg = 1 THEN QLt(z[1], z'[1]) ELSE QLt(z'[1], z[1])]_evars
CountOk == ~on => RightLength(M, al, sg, IF sg = 1 THEN OutEnd ELSE InEnd, Walk(M, al, sg, n))
=============================================================================
