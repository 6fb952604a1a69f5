----------------------------- MODULE ConstantModel -----------------------------
(***************************************************************************)
(* Histories with symbolic constants: looking one up by a known or unknown      *)
(* name, making another of the same or another name with the same, another or   *)
(* no description.  A constant keeps its description whatever is made later.    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS MAXACT, EMIT
VARIABLES acts, objs
vars == <<acts, objs>>
Init == acts = <<>> /\ objs = <<>>
Add(a, o) == acts' = Append(acts, a) /\ objs' = Append(objs, o)
Known == {"c", "G", "Cosmo_Const", "eps_0"}
Get == \E n \in Known : Add([do |-> "get", name |-> n, desc |-> "", assume |-> FALSE], <<n, "own">>)
Unknown == \E n \in {"h", "Lambda", "", "C"} : acts' = Append(acts, [do |-> "get", name |-> n, desc |-> "", assume |-> FALSE]) /\ UNCHANGED objs
Make == \E n \in {"c", "G", "k"}, d \in {"", "own", "Other"}, as \in BOOLEAN : Add([do |-> "make", name |-> n, desc |-> d, assume |-> as], <<n, d>>)
Emit == (EMIT /\ Len(acts') = MAXACT) => PrintT("BEH|" \o ToJson(acts'))
Next == Len(acts) < MAXACT /\ (Get \/ Unknown \/ Make) /\ Emit
MSpec == Init /\ [][Next]_vars
Kept == [][\A i \in 1..Len(objs) : objs'[i] = objs[i]]_vars
=============================================================================
