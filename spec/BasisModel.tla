----------------------------- MODULE BasisModel -----------------------------
(***************************************************************************)
(* Histories of transformation matrices: making them from a change of         *)
(* coordinates or from components, asking one for its inverse (again).  The   *)
(* changes come in mutually inverse pairs (f, g): by the inverse function      *)
(* theorem the Jacobian of g at f(p) is the matrix inverse of that of f at p.  *)
(***************************************************************************)
EXTENDS Basis
CONSTANTS MAXOBJ, MAXACT, EMIT
VARIABLES objs, acts, pt
mvars == <<objs, acts, pt>>
C(a) == <<"c", QI(a)>>
V(i) == <<"v", i>>
Family == << << <<V(1), <<"+", V(2), <<"^", V(1), 2>>>> >>,            << V(1), <<"-", V(2), <<"^", V(1), 2>>>> >> >>,
             << << <<"+", V(1), <<"*", C(2), V(2)>>>>, V(2) >>,            << <<"-", V(1), <<"*", C(2), V(2)>>>>, V(2) >> >>,
             << << <<"exp", V(1)>>, <<"*", C(3), V(2)>> >>,                << <<"ln", V(1)>>, <<"/", V(2), C(3)>> >> >>,
             << << <<"*", V(1), V(2)>>, V(2) >>,                           << <<"/", V(1), V(2)>>, V(2) >> >>,
             << << <<"+", V(1), V(2)>>, <<"-", V(1), V(2)>> >>,
                << <<"/", <<"+", V(1), V(2)>>, C(2)>>, <<"/", <<"-", V(1), V(2)>>, C(2)>> >> >> >>
Points == { <<Q(1,2), Q(3,4)>>, <<QI(2), Q(-5,3)>>, <<Q(-7,5), Q(1,3)>> }
Act(d, k) == acts' = Append(acts, [do |-> d, on |-> k]) /\ (EMIT /\ Len(acts') = MAXACT => PrintT("BEH|" \o ToJson(acts')))
Init == objs = <<>> /\ acts = <<>> /\ pt \in Points
(* an object: its components and what its inverse must be *)
Make == Len(objs) < MAXOBJ /\ \E m \in 1..Len(Family), s \in 1..2 :
          LET p == IF s = 1 THEN pt ELSE ValuesAt(2, Family[m][1], pt)
              J == JacobianAt(2, Family[m][s], p)
          IN objs' = Append(objs, [m |-> m, s |-> s, mat |-> NumInv(2, J), inv |-> J]) /\ Act("make", m)
Direct == Len(objs) < MAXOBJ /\ objs' = Append(objs, [m |-> 0, s |-> 0, mat |-> <<Q1, Q2, Q0, QI(3)>>, inv |-> NumInv(2, <<Q1, Q2, Q0, QI(3)>>)]) /\ Act("direct", 0)
Ask == \E k \in 1..Len(objs) : Act("inv", k) /\ UNCHANGED objs
Next == Len(acts) < MAXACT /\ (Make \/ Direct \/ Ask) /\ UNCHANGED pt
MSpec == Init /\ [][Next]_mvars
Id2 == <<Q1, Q0, Q0, Q1>>
Close(a, b) == SeqNear(a, b, P10(-25), Q1)
Inverse == \A k \in 1..Len(objs) : Close(NMatMul(2, objs[k].mat, objs[k].inv), Id2)
InverseFunction == \A k, l \in 1..Len(objs) : (objs[k].m > 0 /\ objs[k].m = objs[l].m /\ objs[k].s = 1 /\ objs[l].s = 2) => Close(objs[l].inv, objs[k].mat)
=============================================================================
