----------------------------- MODULE StepperModel -----------------------------
(***************************************************************************)
(* Histories of several step-by-step integrators used in any order: making    *)
(* one with a supported or an unsupported order, stepping one, looking at the  *)
(* results of one.  What one does never shows in another.                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS MAXOBJ, MAXACT, ORDS, EMIT
VARIABLES acts, objs
svars == <<acts, objs>>
Supported == {2, 4, 6, 8}
Init == acts = <<>> /\ objs = <<>>
Made == Len(SelectSeq(acts, LAMBDA a : a.do = "make"))
Make == /\ Made < MAXOBJ
        /\ \E o \in ORDS, q \in BOOLEAN :
             /\ acts' = Append(acts, [do |-> "make", ord |-> o, sup |-> q, on |-> 0])
             /\ objs' = IF o \in Supported THEN Append(objs, [ord |-> o, steps |-> 0]) ELSE objs
StepOne == \E i \in 1..Len(objs) : /\ acts' = Append(acts, [do |-> "step", ord |-> 0, sup |-> FALSE, on |-> i])
                                   /\ objs' = [objs EXCEPT ![i].steps = @ + 1]
Look == \E i \in 1..Len(objs) : /\ Len(acts) > 0 /\ acts[Len(acts)].do # "rows"
                                /\ acts' = Append(acts, [do |-> "rows", ord |-> 0, sup |-> FALSE, on |-> i]) /\ UNCHANGED objs
Emit == (EMIT /\ Len(acts') = MAXACT /\ \E i \in 1..Len(objs') : objs'[i].steps > 0) => PrintT("BEH|" \o ToJson(acts'))
Next == Len(acts) < MAXACT /\ (Make \/ StepOne \/ Look) /\ Emit
MSpec == Init /\ [][Next]_svars
(* the steps of an integrator are those it was asked to make                    *)
Own == \A i \in 1..Len(objs) : objs[i].steps = Len(SelectSeq(acts, LAMBDA a : a.do = "step" /\ a.on = i))
Accepted == Len(objs) = Len(SelectSeq(acts, LAMBDA a : a.do = "make" /\ a.ord \in Supported))
=============================================================================
