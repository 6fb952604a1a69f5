------------------------------ MODULE TraceBase ------------------------------
(***************************************************************************)
(* Trace validation.  The recorded run of the real code is a sequence of    *)
(* sessions, each a sequence of events (records with a field op).  The      *)
(* state machine below consumes the events of every session in order,       *)
(* keeping the specification's own state st.  Step(s, e) -- given by the    *)
(* module that describes the property -- is the specification's transition: *)
(* [st |-> next state, cl |-> <<<<clause, holds>>, ...>>].  Verdicts are    *)
(* total: an event whose clauses do not all hold is reported and the run    *)
(* goes on, so that one run judges every event.                             *)
(***************************************************************************)
EXTENDS Tensor, Json, IOUtils
CONSTANT Step(_, _)
VARIABLES sid, pos, st
tvars == <<sid, pos, st>>

Sessions == JsonDeserialize(IOEnv.TRACE_FILE)

IsNum(a) == a[1] <= 1
IsNumSeq(s) == \A i \in 1..Len(s) : s[i][1] <= 1
(* tolerant comparisons that are FALSE on NaN / infinities / length mismatch *)
Eqv(a, b, tol, floor) == IsNum(a) /\ RelNear(a, b, tol, floor)
EqvSeq(a, b, tol, floor) == Len(a) = Len(b) /\ IsNumSeq(a) /\ SeqNear(a, b, tol, floor)
EqvEach(a, b, tol, floor) == Len(a) = Len(b) /\ IsNumSeq(a) /\ SeqRelNear(a, b, tol, floor)

(* clauses: sequence of <<name, holds>>; those that do not hold              *)
Failing(cl) == SelectSeq(cl, LAMBDA x : ~x[2])
Implies(a, b) == IF a THEN b ELSE TRUE
SetOf(sq) == {sq[i] : i \in 1..Len(sq)}
OK(s) == [st |-> s, cl |-> <<>>]
R(s, cl) == [st |-> s, cl |-> cl]

Report(s, k, cl) ==
  \A i \in 1..Len(cl) : PrintT("BAD|" \o ToString(s) \o "|" \o ToString(k) \o "|" \o cl[i][1])

(* an exception the code raised where the specification has none             *)
StepAny(s, e) == IF e.op = "raised" THEN R(s, << <<"no exception: " \o e.exc \o " in " \o e.where, FALSE>> >>)
                 ELSE Step(s, e)

TInit == sid = 0 /\ pos = 0 /\ st = <<>>
Open == /\ sid = 0
        /\ \E s \in 1..Len(Sessions) : sid' = s
        /\ pos' = 0 /\ st' = [new |-> TRUE]
Consume == /\ sid > 0 /\ pos < Len(Sessions[sid])
           /\ LET r == StepAny(st, Sessions[sid][pos+1])
                  bad == Failing(r.cl)
              IN /\ st' = r.st
                 /\ sid' = sid /\ pos' = pos + 1
                 /\ Report(sid, pos+1, bad)
TSpec == TInit /\ [][Open \/ Consume]_tvars
=============================================================================
