---------------------------- MODULE BigRatSelf ----------------------------
(* TLC compares the Java evaluation of BigRat with its TLA+ definitions:   *)
(* BigRat is instantiated by the module of that name (overridden), BigRatP *)
(* is a textual copy of it under another name (not overridden), made by    *)
(* the build.                                                              *)
EXTENDS BigRat, TLC

P == INSTANCE BigRatP
CONSTANT N
VARIABLES a, b
Ints == {-N, -1, 0, 1, 7, N} 
vars == <<a, b>>
Big == { QMul(Q(x, 9973), Q(123456789, y)) : x \in {-99991, 100000}, y \in {10007} }
Vals == { Q(n, d) : n \in {-N, -12, 0, 1, 35}, d \in {1, 30, N} } \cup Big
Init == a \in Vals /\ b \in Vals
Next == UNCHANGED vars
Agree ==
  /\ QAdd(a, b) = P!QAdd(a, b)
  /\ QSub(a, b) = P!QSub(a, b)
  /\ QMul(a, b) = P!QMul(a, b)
  /\ (b[1] # 0 => QDiv(a, b) = P!QDiv(a, b))
  /\ QCmp(a, b) = P!QCmp(a, b)
  /\ QNeg(a) = P!QNeg(a) /\ QAbs(a) = P!QAbs(a)
  /\ (a[1] # 0 => QInv(a) = P!QInv(a))
  /\ \A k \in {-3, 0, 5, 12} : QFix(a, k) = P!QFix(a, k)
  /\ \A p \in {0, 3, 8} : QRound(a, p) = P!QRound(a, p)
  /\ QPowN(a, 3) = P!QPowN(a, 3)
  /\ QFloor(a) = P!QFloor(a)
  /\ QToInt(a) = P!QToInt(a)
  /\ \A p \in {0, 6} : QAddP(a, b, p) = P!QAddP(a, b, p) /\ QMulP(a, b, p) = P!QMulP(a, b, p)
        /\ QSubP(a, b, p) = P!QSubP(a, b, p) /\ (b[1] # 0 => QDivP(a, b, p) = P!QDivP(a, b, p))
        /\ QDotP(<<a, b, a>>, <<b, b, a>>, p) = P!QDotP(<<a, b, a>>, <<b, b, a>>, p)
        /\ QBil(<<<<<<1,2>>, <<2,1>>>>, <<>>, <<<<3,3>>>>>>, 3, <<a, b, a>>, <<b, a, a>>, p)
             = P!QBil(<<<<<<1,2>>, <<2,1>>>>, <<>>, <<<<3,3>>>>>>, 3, <<a, b, a>>, <<b, a, a>>, p)
        /\ QLin(a, <<a, b>>, b, <<b, a>>, 2, p) = P!QLin(a, <<a, b>>, b, <<b, a>>, 2, p)
  /\ QMaxAbs(<<a, b>>) = P!QMaxAbs(<<a, b>>)
  (* algebra *)
  /\ QAdd(a, b) = QAdd(b, a) /\ QSub(QAdd(a, b), b) = a
  /\ (b[1] # 0 => QMul(QDiv(a, b), b) = a)
Spec == Init /\ [][Next]_vars
=============================================================================
