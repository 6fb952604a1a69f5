------------------------------- MODULE BodyTrace -------------------------------
EXTENDS Bodies, TraceBase
Tol == P10(-14)
Bods(s) == IF "bods" \in DOMAIN s THEN s.bods ELSE <<>>
Same(got, b) ==
  /\ got.name = b.name
  /\ Eqv(got.mass, b.mass, Tol, P10(-300)) /\ Eqv(got.q, b.q, Tol, P10(-300)) /\ Eqv(got.R, b.R, Tol, P10(-300))
  /\ got.parent = b.parent
  /\ got.hascoords = (b.coords # <<>>)
  /\ b.coords # <<>> => EqvEach(got.pos \o got.vel, b.coords, Tol, P10(-300))
AllSame(all, bs) == Len(all) = Len(bs) /\ \A i \in 1..Len(bs) : Same(all[i], bs[i])
NewOp(s, e) ==
  LET ok == AcceptBody(e.req)
      bs == IF ok THEN Append(Bods(s), TLCEval(NewBody(e.req))) ELSE Bods(s)
  IN R([bods |-> bs],
       << <<"a body is made from quantities of the right kind only",
            IF ok THEN e.exc = "" ELSE e.exc \in {"TypeError", "UnitsError", "UnitConversionError", "UnitTypeError"}>>,
          <<"bodies have the data, parent and defaults they were made with", e.exc # "" \/ AllSame(e.all, bs)>> >>)
SetOp(s, e) ==
  LET b == Bods(s)[e.on]
      v == IF e.do = "assign" THEN SI(e.x) ELSE NAdd(b[e.field], SI(e.x))
      bs == [Bods(s) EXCEPT ![e.on] = TLCEval(SetField(b, e.field, v))]
  IN R([bods |-> bs], << <<"changing one body leaves every other as it was", e.exc = "" /\ AllSame(e.all, bs)>> >>)
(* printing: name, parent's name, data, in this order                              *)
StrOp(s, e) ==
  LET b == Bods(s)[e.on]
  IN R(s, << <<"printed form names the body, its parent and its data",
               e.parts = <<"Body(", b.name \o ",", (IF b.parent = 0 THEN "None" ELSE Bods(s)[b.parent].name) \o ",",
                           e.mass \o ", " \o e.q \o ", " \o e.R \o ",", e.coords, ")">>>> >>)
(* equality of bodies without coordinates                                          *)
QSame(a, b) == QCmp(a, b) = 0
(* amounts that differ by less than rounding may or may not be told apart          *)
QClose(x, y) == QLe(QAbs(QSub(x, y)), NMul(P10(-12), QMax(QAbs(x), QAbs(y))))
SameAmount(near, x, y) == IF near THEN QClose(x, y) ELSE QSame(x, y)
RECURSIVE AlikeBy(_, _, _, _)
AlikeBy(near, bs, i, j) == IF i = 0 \/ j = 0 THEN i = j
                   ELSE i = j \/ (bs[i].name = bs[j].name /\ SameAmount(near, bs[i].mass, bs[j].mass) /\ SameAmount(near, bs[i].q, bs[j].q)
                        /\ SameAmount(near, bs[i].R, bs[j].R) /\ bs[i].coords = bs[j].coords /\ AlikeBy(near, bs, bs[i].parent, bs[j].parent))
EqOp(s, e) == LET bs == Bods(s)
              IN R(s, << <<"bodies are equal exactly when their data are",
                           (e.same = TRUE /\ AlikeBy(TRUE, bs, e.i, e.j)) \/ (e.same = FALSE /\ ~AlikeBy(FALSE, bs, e.i, e.j))>> >>)
SolarOp(s, e) ==
  LET want == SolarSystem[e.i]
  IN R(s, << <<"predefined body", e.name = want[1] /\ Eqv(e.mass, want[2], Tol, P10(-300)) /\ Eqv(e.R, QMul(want[3], QI(1000)), Tol, P10(-300)) /\ Eqv(e.q, Q0, Tol, P10(-300))
                                  /\ e.parent = want[4] /\ e.coords = FALSE>> >>)
ConstOp(s, e) ==
  LET want == Numeric[e.name]
  IN R(s, << <<"constant has its documented value", Eqv(e.value, want[1], P10(-9), P10(-300))>>,
             <<"constant has its documented unit", e.dim = want[2]>> >>)
PrimOp(s, e) ==
  R(s, << <<"units are stripped to SI", e.exc = "" /\ Len(e.out) = Len(e.args)
             /\ \A i \in 1..Len(e.args) : EqvEach(e.out[i], TLCEval([k \in 1..Len(e.args[i]) |-> SI(e.args[i][k])]), Tol, P10(-300))>> >>)
(* symbolic constants                                                              *)
Syms(s) == IF "syms" \in DOMAIN s THEN s.syms ELSE <<>>
SymSeen(all, ss) == Len(all) = Len(ss) /\ \A i \in 1..Len(ss) : all[i] = ss[i]
GetOp(s, e) ==
  LET known == e.name \in DOMAIN Symbolic
      ss == IF known THEN Append(Syms(s), Symbolic[e.name]) ELSE Syms(s)
  IN R([syms |-> ss],
       << <<"known names give a constant, unknown ones do not", IF known THEN e.exc = "" ELSE e.exc # "">>,
          <<"looking up gives the module's own constant", known => e.own>>,
          <<"constants keep name and description", SymSeen(e.all, ss)>> >>)
MakeOp(s, e) ==
  LET ss == Append(Syms(s), <<e.name, e.desc>>)
  IN R([syms |-> ss], << <<"constants keep name and description", e.exc = "" /\ SymSeen(e.all, ss)>> >>)
TStep(s, e) ==
  CASE e.op = "new" -> NewOp(s, e) [] e.op = "set" -> SetOp(s, e) [] e.op = "str" -> StrOp(s, e) [] e.op = "eq" -> EqOp(s, e)
    [] e.op = "solar" -> SolarOp(s, e) [] e.op = "const" -> ConstOp(s, e) [] e.op = "primitive" -> PrimOp(s, e)
    [] e.op = "get" -> GetOp(s, e) [] e.op = "make" -> MakeOp(s, e)
    [] OTHER -> R(s, << <<"unknown event " \o e.op, FALSE>> >>)
=============================================================================
