------------------------------ MODULE DualTrace ------------------------------
(***************************************************************************)
(* Recorded programs over the real dual numbers.  State: the registers, as    *)
(* recorded (value, derivative); each event is judged against Dual from the   *)
(* recorded operands, and a snapshot at the end shows that no operation        *)
(* changed an earlier register.                                               *)
(***************************************************************************)
EXTENDS Dual, TraceBase

Regs(s) == IF "regs" \in DOMAIN s THEN s.regs ELSE <<>>
Add(s, r) == [regs |-> Append(Regs(s), r)]
(* operand: <<"r", i>> register, <<"p", number>> plain                        *)
Oper(s, o) == IF o[1] = "r" THEN DNum(Regs(s)[o[2]][1], Regs(s)[o[2]][2]) ELSE EPlain(o[2])
Okay(r, w) == /\ Len(r) = 2 /\ IsNumSeq(r)
              /\ QLe(QAbs(QSub(r[1], w[1])), w[3])
Derv(r, w) == Len(r) = 2 /\ IsNumSeq(r) /\ QLe(QAbs(QSub(r[2], w[2])), w[4])
Fine(s, o) == IF o[1] = "p" THEN IsNum(o[2]) ELSE o[2] <= Len(Regs(s)) /\ Len(Regs(s)[o[2]]) = 2 /\ IsNumSeq(Regs(s)[o[2]])
Judge(s, e, claimed, w) ==
  R(Add(s, e.res), IF ~claimed THEN << >>
     ELSE << <<"result is a dual number", e.type = "DualNumber" /\ e.exc = "">>,
             <<"value of " \o e.f, e.exc = "" => Okay(e.res, w)>>,
             <<"derivative of " \o e.f, e.exc = "" => Derv(e.res, w)>> >>)
BinOp(s, e) == LET ok == Fine(s, e.a) /\ Fine(s, e.b)
                   both == ok /\ BinDefined(e.f, Oper(s, e.b))
               IN Judge(s, e, both, IF both THEN DBin(e.f, Oper(s, e.a), Oper(s, e.b)) ELSE DNum(Q0, Q0))
UnOp(s, e) == LET ok == Fine(s, e.a) /\ UnDefined(e.f, Oper(s, e.a))
              IN Judge(s, e, ok, IF ok THEN DUn(e.f, Oper(s, e.a)) ELSE DNum(Q0, Q0))
PowOp(s, e) == LET ok == Fine(s, e.a) /\ PowDefined(Oper(s, e.a), e.y)
               IN Judge(s, e, ok, IF ok THEN EPow(Oper(s, e.a), e.y) ELSE DNum(Q0, Q0))
EqOp(s, e) == LET same == Oper(s, e.a)[1] = Oper(s, e.b)[1] /\ Oper(s, e.a)[2] = Oper(s, e.b)[2]
              IN R(s, IF Fine(s, e.a) /\ Fine(s, e.b) THEN << <<"equal exactly when value and derivative are", e.exc = "" /\ e.eq = same /\ e.ne = ~same>> >> ELSE <<>>)
NewOp(s, e) == R(Add(s, e.res), << <<"dual number holds its value and derivative", e.res = <<e.v, e.d>> >> >>)
SnapOp(s, e) == R(s, << <<"no operation changes its operands", e.regs = Regs(s)>> >>)
DerivOp(s, e) ==
  LET w == TLCEval(EEval(e.tree, e.pt, e.pr, 1))
  IN R(s, << <<"derivative of a composed expression", e.exc = "" /\ IsNum(e.res) /\ QLe(QAbs(QSub(e.res, w[2])), QMul(QI(4), w[4]))>> >>)
JacClauses(e, w, t) ==
  << <<"Jacobian is computed", e.exc = "">>,
     <<"symmetric 4 x 4 matrix", e.exc = "" => Len(e.J) = 16 /\ IsNumSeq(e.J) /\ \A i, j \in 0..3 : e.J[i*4+j+1] = e.J[j*4+i+1]>>,
     <<"partial derivatives of the metric", e.exc = "" => Len(e.J) = 16 /\ IsNumSeq(e.J) /\ \A i \in 1..16 : QLe(QAbs(QSub(e.J[i], w[i])), t[i])>>,
     <<"single components agree", e.exc = "" => \A k \in 1..Len(e.some) : IsNum(e.some[k][2]) /\ QLe(QAbs(QSub(e.some[k][2], w[e.some[k][1]])), t[e.some[k][1]])>> >>
JacOp(s, e) ==
  LET m == TLCEval([q \in 1..16 |-> EEval(e.comps[q], e.pt, e.pr, e.wrt + 1)])
  IN R(s, JacClauses(e, [q \in 1..16 |-> m[q][2]], [q \in 1..16 |-> QMul(QI(4), m[q][4])]))
BuiltinOp(s, e) ==
  LET m == TLCEval(ContraM(e.name, 1, e.prm, e.pt))
      D(q) == JD(4, e.wrt + 1, m[q])[1]
      w == TLCEval([q \in 1..16 |-> D(q)])
      \* what rounding is relative to: the component's own size times its sensitivity
      dl == QAbs(Delta(e.pt[2], MPar(e.name, e.prm)))
      W == NAdd(NAdd(NSq(e.pt[2]), NMul(Q2, e.pt[2])), NAdd(Q1, Q1))
      sn == QAbs(RSin(e.pt[3]))
      amp == TLCEval(NMul(NPowN(NDiv(W, dl), 2), NAdd(Q1, NDiv(Q1, NSq(sn)))))
      sz(q) == NMul(amp, NAdd(QAbs(m[q][1]), QAbs(w[q])))
  IN R(s, JacClauses(e, w, [q \in 1..16 |-> NMul(P10(-12), NMul(sz(q), NAdd(Q1, NDiv(Q1, e.pt[2]))))])
      \o << <<"contravariant metric in M-units", Len(e.g) = 16 /\ IsNumSeq(e.g) /\ \A q \in 1..16 : Near(e.g[q], m[q][1], NMul(amp, QAbs(m[q][1])), P10(-12))>> >>)
RefuseOp(s, e) == R(s, << <<"coordinate or index out of range is refused", e.exc = "ValueError">> >>)
TStep(s, e) ==
  CASE e.op = "new" -> NewOp(s, e)
    [] e.op = "bin" -> BinOp(s, e)
    [] e.op = "un" -> UnOp(s, e)
    [] e.op = "pow" -> PowOp(s, e)
    [] e.op = "eq" -> EqOp(s, e)
    [] e.op = "snap" -> SnapOp(s, e)
    [] e.op = "deriv" -> DerivOp(s, e)
    [] e.op = "jac" -> JacOp(s, e)
    [] e.op = "builtin" -> BuiltinOp(s, e)
    [] e.op = "refuse" -> RefuseOp(s, e)
    [] OTHER -> R(s, << <<"unknown event " \o e.op, FALSE>> >>)
=============================================================================
