------------------------------- MODULE BodyModel -------------------------------
(***************************************************************************)
(* Histories of bodies: making bodies from any selection of arguments (some    *)
(* of them of the wrong kind), with an earlier body or none as parent;          *)
(* replacing or increasing one field of one body.  Quantities live in cells:    *)
(* a field given by the user is in the user's cell, a default in a new one.     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MAXBODY, MAXACT, SHARED, EMIT
VARIABLES acts, refs, cells
bvars == <<acts, refs, cells>>
Fields == {"mass", "q", "R"}
Given == {{}, {"mass"}, {"q"}, {"R"}, {"mass", "R"}, {"mass", "q", "R"}}
Init == acts = <<>> /\ refs = <<>> /\ cells = IF SHARED THEN <<0>> ELSE <<>>
Act(d, b, f, gv, nm, co, bad) == acts' = Append(acts, [do |-> d, on |-> b, field |-> f, given |-> gv, named |-> nm, coords |-> co, bad |-> bad])
(* SHARED: one default object for all bodies -- the sharing the specification excludes *)
New == /\ Len(refs) < MAXBODY
       /\ \E gv \in Given, nm \in BOOLEAN, co \in {"none", "cart", "sph", "bl"}, p \in 0..Len(refs) :
            /\ Act("new", p, "", gv, nm, co, "")
            /\ LET n == Len(cells)
                   at(f) == n + (CASE f = "mass" -> 1 [] f = "q" -> 2 [] f = "R" -> 3)
               IN /\ cells' = cells \o <<0, 0, 0>>
                  /\ refs' = Append(refs, [f \in Fields |-> IF SHARED /\ f \notin gv THEN 1 ELSE at(f)])
Refused == \E f \in Fields, k \in {"unit", "plain"} : Act("new", 0, f, {f}, TRUE, "none", k) /\ UNCHANGED <<refs, cells>>
Assign == \E b \in 1..Len(refs), f \in Fields :
            /\ Act("assign", b, f, {}, FALSE, "none", "")
            /\ cells' = Append(cells, 0) /\ refs' = [refs EXCEPT ![b][f] = Len(cells) + 1]
Increase == \E b \in 1..Len(refs), f \in Fields :
            /\ Act("increase", b, f, {}, FALSE, "none", "")
            /\ cells' = [cells EXCEPT ![refs[b][f]] = @ + 1] /\ UNCHANGED refs
Emit == (EMIT /\ Len(acts') = MAXACT) => PrintT("BEH|" \o ToJson(acts'))
Next == Len(acts) < MAXACT /\ (New \/ Refused \/ Assign \/ Increase) /\ Emit
MSpec == Init /\ [][Next]_bvars
(* no field of a body is in the cell of another                                 *)
Isolated == \A a, b \in 1..Len(refs) : \A f, g \in Fields : refs[a][f] = refs[b][g] => a = b /\ f = g
(* the value of a field counts the increases asked of it since it was last set   *)
LastSet(b, f) == LET S == {k \in 1..Len(acts) : acts[k].do = "assign" /\ acts[k].on = b /\ acts[k].field = f}
                 IN IF S = {} THEN 0 ELSE CHOOSE k \in S : \A l \in S : l <= k
Own == \A b \in 1..Len(refs), f \in Fields :
         cells[refs[b][f]] = Cardinality({k \in 1..Len(acts) : k > LastSet(b, f) /\ acts[k].do = "increase" /\ acts[k].on = b /\ acts[k].field = f})
=============================================================================
