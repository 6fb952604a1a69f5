------------------------------- MODULE Basis -------------------------------
(***************************************************************************)
(* Changes of coordinates: the old coordinates are given as functions of the *)
(* new ones (expression trees over v1..vn).  Rows of the Jacobian belong to   *)
(* the new coordinates, columns to the old: J[i][j] = d old_j / d new_i.       *)
(***************************************************************************)
EXTENDS Tensor, Json
JacobianAt(n, olds, pt) ==
  LET js == TLCEval([j \in 1..n |-> TLCEval(JEval(n, 1, olds[j], pt, <<>>))])
  IN TLCEval([q \in 1..n*n |-> LET i == ((q-1) \div n) + 1  j == ((q-1) % n) + 1 IN js[j][PosOf[n][[w \in 1..n |-> IF w = i THEN 1 ELSE 0]]]])
ValuesAt(n, ts, pt) == TLCEval([j \in 1..Len(ts) |-> JEval(n, 0, ts[j], pt, <<>>)[1]])
NMatMul(n, a, b) == TLCEval([q \in 1..n*n |-> LET i == ((q-1) \div n) + 1  j == ((q-1) % n) + 1
                     IN NSum([k \in 1..n |-> NMul(MatAt(n, a, i, k), MatAt(n, b, k, j))])])
Det2(m) == NSub(NMul(m[1], m[4]), NMul(m[2], m[3]))
=============================================================================
