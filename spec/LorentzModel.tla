----------------------------- MODULE LorentzModel -----------------------------
(***************************************************************************)
(* Histories of basis changes of one tensor, in exact arithmetic.  The state  *)
(* keeps the accumulated matrix; the components must be those of transforming *)
(* the original once by it.                                                   *)
(***************************************************************************)
EXTENDS TensorTrace
CONSTANTS RANK, MAXLEN
VARIABLES cfg, val, acc, path
lvars == <<cfg, val, acc, path>>
n0 == 2
Mats == [boost |-> <<Q(5,4), Q(-3,4), Q(-3,4), Q(5,4)>>, boostinv |-> <<Q(5,4), Q(3,4), Q(3,4), Q(5,4)>>,
         rot |-> <<Q(3,5), Q(-4,5), Q(4,5), Q(3,5)>>, rotinv |-> <<Q(3,5), Q(4,5), Q(-4,5), Q(3,5)>>,
         shear |-> <<QI(1), QI(2), QI(0), QI(1)>>, shearinv |-> <<QI(1), QI(-2), QI(0), QI(1)>>]
Pr == <<2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53>>
V0 == [i \in 1..IPow(n0, RANK) |-> QI(Pr[i])]
Id == <<Q1, Q0, Q0, Q1>>
MM(a, b) == [q \in 1..4 |-> LET i == (q-1) \div 2  j == (q-1) % 2 IN NAdd(NMul(a[2*i+1], b[j+1]), NMul(a[2*i+2], b[j+3]))]
LInit == cfg \in Cfgs(RANK) /\ val = V0 /\ acc = Id /\ path = <<>> /\ sid = 0 /\ pos = 0 /\ st = <<>>
Apply(m) == /\ val' = Transform(n0, Mats[m], cfg, val) /\ acc' = TLCEval(MM(Mats[m], acc))
            /\ path' = Append(path, m) /\ UNCHANGED <<cfg, sid, pos, st>>
            /\ PrintT("BEH|" \o ToJson([cfg |-> cfg, path |-> path']))
LNext == Len(path) < MAXLEN /\ \E m \in DOMAIN Mats : Apply(m)
LSpec == LInit /\ [][LNext]_<<cfg, val, acc, path, sid, pos, st>>
NoStep(s, e) == s
Same(a, b) == \A i \in 1..Len(a) : IsZero(NSub(a[i], b[i]))
Composition == Same(val, Transform(n0, acc, cfg, V0))
Undone == Same(acc, Id) => Same(val, V0)
(* full contraction with a dual tensor transformed along is invariant          *)
Dual == [k \in 1..RANK |-> IF cfg[k] = "u" THEN "l" ELSE "u"]
ContractionInvariant == IsZero(NSub(NDot(val, Transform(n0, acc, Dual, V0)), NDot(V0, V0)))
=============================================================================
