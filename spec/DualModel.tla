------------------------------ MODULE DualModel ------------------------------
(***************************************************************************)
(* Programs over dual numbers.  A program is a sequence of instructions, each*)
(* making a new register from earlier ones; register 1 is the variable x     *)
(* (derivative 1).  Plain operands come in three kinds.  Each register also   *)
(* carries the expression tree it stands for; what the machine computes is    *)
(* the first order Taylor expansion of that expression.                       *)
(***************************************************************************)
EXTENDS Dual, Json
CONSTANTS MAXLEN, EMIT
VARIABLES prog, regs, trees
X0 == Q(3, 2)
PlainKinds == {"int", "float", "np"}
PlainVal == [k \in PlainKinds |-> CASE k = "int" -> QI(2) [] k = "float" -> Q(-5, 4) [] OTHER -> Q(7, 8)]
BinOps == {"+", "-", "*", "/"}
UnOps == {"neg", "sin", "cos", "tan", "exp", "ln"}
Exps == {QI(0), QI(1), QI(2), QI(3), QI(-1), QI(-2), QHalf, Q(-3, 2)}
Init == prog = <<>> /\ regs = << DNum(X0, Q1) >> /\ trees = << <<"v", 1>> >>
Do(i, r, t) == prog' = Append(prog, i) /\ regs' = Append(regs, r) /\ trees' = Append(trees, t)
Small(a) == QLt(QAbs(a[1]), QI(1000000)) /\ QLt(QAbs(a[2]), QI(1000000))
Bin2(f, i, j) == /\ BinDefined(f, regs[j])
                 /\ Small(DBin(f, regs[i], regs[j]))
                 /\ Do([f |-> f, a |-> i, b |-> j, k |-> "dd"], DBin(f, regs[i], regs[j]), <<f, trees[i], trees[j]>>)
BinP(f, i, k) == /\ Small(DBin(f, regs[i], EPlain(PlainVal[k])))
                 /\ Do([f |-> f, a |-> i, b |-> 0, k |-> k], DBin(f, regs[i], EPlain(PlainVal[k])), <<f, trees[i], <<"c", PlainVal[k]>>>>)
PBin(f, i, k) == /\ BinDefined(f, regs[i])
                 /\ Small(DBin(f, EPlain(PlainVal[k]), regs[i]))
                 /\ Do([f |-> f, a |-> 0, b |-> i, k |-> k], DBin(f, EPlain(PlainVal[k]), regs[i]), <<f, <<"c", PlainVal[k]>>, trees[i]>>)
Un(f, i) == /\ UnDefined(f, regs[i])
            /\ Small(DUn(f, regs[i]))
            /\ Do([f |-> f, a |-> i, b |-> 0, k |-> ""], DUn(f, regs[i]), <<f, trees[i]>>)
Pow(i, y) == /\ PowDefined(regs[i], y)
             /\ Small(EPow(regs[i], y))
             /\ Do([f |-> "pow", a |-> i, b |-> 0, k |-> ToString(y[1]*QInt(QMul(QAbs(y), Q2)))], EPow(regs[i], y), <<"powq", trees[i], y>>)
Next == /\ Len(prog) < MAXLEN
        /\ \E i \in 1..Len(regs) :
             \/ \E j \in 1..Len(regs), f \in BinOps : Bin2(f, i, j)
             \/ \E f \in BinOps, k \in PlainKinds : BinP(f, i, k) \/ PBin(f, i, k)
             \/ \E f \in UnOps : Un(f, i)
             \/ \E y \in Exps : Pow(i, y)
PSpec == Init /\ [][Next]_<<prog, regs, trees>>
Last == Len(regs)
TreeVal(t) == JEval(1, 1, IF t[1] = "powq" THEN (IF QIsInt(t[3]) THEN <<"^", t[2], QInt(t[3])>> ELSE t) ELSE t, <<X0>>, <<>>)
(* the register is the value and first derivative of its expression            *)
RECURSIVE Norm(_)
Norm(t) == IF t[1] \in {"c", "v", "p"} THEN t
           ELSE IF t[1] = "powq" THEN (IF QIsInt(t[3]) THEN <<"^", Norm(t[2]), QInt(t[3])>> ELSE <<"powq", Norm(t[2]), t[3]>>)
           ELSE IF Len(t) = 2 THEN <<t[1], Norm(t[2])>> ELSE <<t[1], Norm(t[2]), Norm(t[3])>>
Tangent == prog # <<>> =>
             LET j == TLCEval(JEval(1, 1, Norm(trees[Last]), <<X0>>, <<>>))
             IN RelNear(regs[Last][1], j[1], P10(-20), P10(-6)) /\ RelNear(regs[Last][2], j[2], P10(-20), P10(-6))
(* evaluating the tree is running the program                                  *)
TreeIsProgram == LET e == EEval(Norm(trees[Last]), <<X0>>, <<>>, 1) IN RelNear(e[1], regs[Last][1], P10(-20), P10(-6)) /\ RelNear(e[2], regs[Last][2], P10(-20), P10(-6))
(* ring laws on the registers at hand                                          *)
Same(a, b) == RelNear(a[1], b[1], P10(-20), Q1) /\ RelNear(a[2], b[2], P10(-20), Q1)
Laws == LET a == regs[Last]  b == regs[1]  c == EPlain(Q(-5, 4)) IN
          /\ Same(EMul(a, b), EMul(b, a)) /\ Same(EAdd(a, b), EAdd(b, a))
          /\ Same(EMul(a, EAdd(b, c)), EAdd(EMul(a, b), EMul(a, c)))
          /\ Same(ESub(a, b), ENeg(ESub(b, a)))
          /\ IF IsZero(a[1]) THEN TRUE ELSE Same(EMul(EDiv(b, a), a), b)
          /\ Same(EPow(a, QI(2)), EMul(a, a)) /\ Same(EPow(b, QI(-1)), EDiv(EPlain(Q1), b))
Emitted == IF EMIT /\ Len(prog) = MAXLEN THEN PrintT("BEH|" \o ToJson(prog)) ELSE TRUE
=============================================================================
