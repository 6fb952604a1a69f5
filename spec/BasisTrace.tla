----------------------------- MODULE BasisTrace -----------------------------
(* Recorded transformation matrices.  State: the objects made so far.          *)
EXTENDS TraceBase, Basis
TolB == P10(-11)
Objs(s) == IF "o" \in DOMAIN s THEN s.o ELSE <<>>
SameM(a, b) == Len(a) = Len(b) /\ EqvSeq(a, b, TolB, Q1)
(* the componentwise reciprocal (no number where the component is zero)         *)
Reciprocal(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(b) : IF IsZero(b[i]) THEN ~IsNum(a[i]) ELSE Eqv(a[i], NDiv(Q1, b[i]), TolB, Q1)
MakeOp(s, e) ==
  LET J == JacobianAt(e.n, e.olds, e.pt)
      W == NumInv(e.n, J)
      rec == Reciprocal(e.val, J)
      o == [n |-> e.n, how |-> "change", J |-> J, val |-> e.val]
  IN R([o |-> Append(Objs(s), o)],
     << <<"a matrix is made of a change of coordinates", e.exc = "">>,
        <<"reports the coordinates and expressions it was given", e.exc = "" => e.meta>>,
        <<"matrix is the inverse of the Jacobian or its reciprocal", e.exc = "" => (rec \/ SameM(e.val, W))>>,
        <<"matrix is the inverse of the Jacobian and not its componentwise reciprocal", e.exc = "" => (~rec \/ SameM(e.val, W))>> >>)
DirectOp(s, e) ==
  LET m == ValuesAt(e.n, e.comps, e.pt)
  IN R([o |-> Append(Objs(s), [n |-> e.n, how |-> "direct", J |-> m, val |-> m])],
     << <<"a matrix is made of its components", e.exc = "">>,
        <<"reports the coordinates and expressions it was given", e.exc = "" => e.meta>>,
        <<"components are those given", e.exc = "" => SameM(e.val, m)>> >>)
InvOp(s, e) ==
  LET o == Objs(s)[e.on]
      W == IF o.how = "change" THEN o.J ELSE NumInv(o.n, o.J)
      rec == o.how = "direct" /\ Reciprocal(e.val, o.J)
  IN R(s, << <<"has an inverse", e.exc = "">>,
             <<"inverse of the matrix of a change is its Jacobian", (e.exc = "" /\ o.how = "change") => SameM(e.val, W)>>,
             <<"inverse of a given matrix is the matrix inverse or its reciprocal", (e.exc = "" /\ o.how = "direct") => (rec \/ SameM(e.val, W))>>,
             <<"inverse of a given matrix is the matrix inverse and not its componentwise reciprocal", (e.exc = "" /\ o.how = "direct") => (~rec \/ SameM(e.val, W))>>,
             <<"asking for the inverse leaves the matrix as it was",
                 Len(e.src) = Len(o.val) /\ \A i \in 1..Len(e.src) : IF IsNum(o.val[i]) THEN Eqv(e.src[i], o.val[i], TolB, Q1) ELSE ~IsNum(e.src[i])>> >>)
TStep(s, e) ==
  CASE e.op = "make" -> MakeOp(s, e)
    [] e.op = "direct" -> DirectOp(s, e)
    [] e.op = "inv" -> InvOp(s, e)
    [] e.op = "rank" -> R(s, << <<"accepted exactly when the rank is two", e.exc = (IF e.rank = 2 THEN "" ELSE "ValueError")>> >>)
    [] e.op = "old2new" -> R(s, << <<"new coordinates as functions of the old are refused", e.exc = "NotImplementedError">> >>)
    [] OTHER -> R(s, << <<"unknown event " \o e.op, FALSE>> >>)
=============================================================================
