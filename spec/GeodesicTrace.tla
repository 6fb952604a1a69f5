----------------------------- MODULE GeodesicTrace -----------------------------
(***************************************************************************)
(* Recorded momenta, integrators and geodesics judged against Symplectic.     *)
(* State: the integrators made, each with its options, its duplicated state,   *)
(* the number of steps and the results so far (as recorded).                   *)
(***************************************************************************)
EXTENDS Symplectic, TraceBase

Its(s) == IF "its" \in DOMAIN s THEN s.its ELSE <<>>
IsState(a) == Len(a) = 4 /\ \A i \in 1..4 : Len(a[i]) = 4 /\ IsNumSeq(a[i])
(* how rounding of a black hole's components grows near its horizons and axis   *)
Amp(m, q) == IF m.kind = "tree" THEN Q1
             ELSE LET pr == Prm2(m)
                      dl == QAbs(NAdd(NSub(NSq(q[2]), NMul(Q2, q[2])), NAdd(NSq(pr[1]), NSq(pr[2]))))
                      W == NAdd(NAdd(NSq(q[2]), NMul(Q2, QAbs(q[2]))), NAdd(NSq(pr[1]), NSq(pr[2])))
                      sn == NSq(RSin(q[3]))
                  IN IF IsZero(dl) \/ IsZero(sn) THEN P10(30) ELSE NMul(NSq(NDiv(W, dl)), NAdd(Q1, NDiv(Q1, sn)))
(* sizes of the components as evaluated in floating point                       *)
GSizes(m, q) ==
  IF m.kind = "tree" THEN TLCEval([k \in 1..16 |-> LET i == (k-1) \div 4  j == (k-1) % 4
                                                       e == EEval(m.comps[IF j >= i THEN k ELSE j*4+i+1], q, m.prm, 0)
                                                   IN NAdd(QAbs(e[1]), NDiv(e[3], UR))])
  ELSE LET a == TLCEval(Amp(m, q))  g == Contra(m, q) IN TLCEval([k \in 1..16 |-> NMul(a, QAbs(g[k]))])

(* ------------------------------------------------------------ 4-momentum      *)
MomClauses(m, q, p, tl, P4) ==
  LET g == TLCEval(Contra(m, q))  z == TLCEval(GSizes(m, q))
      c == Completed(g, p, tl)
      ap == AbsSeq(p)
      zc == Completed(z, ap, tl)              \* sizes of A, B, C
      bs == NAdd(NSq(zc.B), NMul(QI(4), AbM(zc.A, zc.C)))
      slackD == NMul(P10(-14), bs)
      real == QLt(NMul(P10(4), slackD), c.disc) /\ ~IsZero(c.A)
      num == Len(P4) = 4 /\ IsNumSeq(P4)
      rt == RSqrt(QMax(c.disc, Q0))
      \* error of the root: of sqrt(disc), of B, and of dividing by A
      err == NDiv(NAdd(NAdd(NDiv(slackD, rt), NMul(P10(-14), NAdd(zc.B, rt))), NMul(NMul(P10(-14), NAdd(QAbs(c.B), rt)), NDiv(zc.A, QAbs(c.A)))), QAbs(c.A))
      aP == <<IF num THEN QAbs(P4[1]) ELSE Q0>> \o ap
  IN << <<"spatial components are the given ones", Len(P4) = 4 /\ \A i \in 1..3 : P4[i+1] = p[i]>>,
        <<"momentum is on the mass shell", real => num /\ QLe(QAbs(QAdd(Shell(g, P4), IF tl THEN Q1 ELSE Q0)), NAdd(NMul(P10(-13), NAdd(NForm(z, aP, aP), Q1)), NMul(rt, err)))>>,
        <<"future directed root of the convention", real => num /\ QLe(QAbs(QSub(P4[1], c.root)), err)>> >>
MomOp(s, e) == R(s, << <<"4-momentum is computed", e.exc = "">> >> \o IF e.exc = "" THEN MomClauses(e.m, e.q, e.p, e.tl, e.P) ELSE <<>>)
(* ------------------------------------------------------------ integrator      *)
MakeOp(s, e) ==
  R(IF e.exc = "" THEN [its |-> Append(Its(s), [m |-> e.m, ord |-> e.ord, d |-> e.d, om |-> e.om, rtol |-> e.rtol, atol |-> e.atol, tl |-> e.tl,
                              sup |-> e.sup, x |-> <<e.q0, e.p0, e.q0, e.p0>>, n |-> 0, rows |-> <<>>])] ELSE s,
    << <<"orders 2, 4, 6 and 8 are implemented, others refused", e.exc = IF e.ord \in Orders THEN "" ELSE "NotImplementedError">>,
       <<"a new integrator holds the initial state twice", e.exc = "" => e.state = <<e.q0, e.p0, e.q0, e.p0>> /\ e.n = 0 /\ e.rows = 0>> >>)
Sgn(i, j) == IF (i + 2*j) % 3 = 0 THEN -1 ELSE 1
(* the coupling rotates positions and momenta into each other, so the rounding  *)
(* of one is relative to the larger of the two                                  *)
Big(x, j) == QMax(QMax(QAbs(x[1][j]), QAbs(x[2][j])), QMax(QAbs(x[3][j]), QAbs(x[4][j])))
Nudge(x) == TLCEval([i \in 1..4 |-> [j \in 1..4 |-> NAdd(x[i][j], NMul(QMul(QI(Sgn(i, j)), P10(-13)), NAdd(Big(x, j), P10(-2))))]])
Scale(x, w, i, j) == NAdd(NAdd(Big(x, j), Big(w, j)), P10(-2))
Calm(t) == QLt(t, P10(-5))
StepOp(s, e) ==
  LET it == Its(s)[e.id]
      ok == IsState(it.x)
      w == TLCEval(StepN(it.ord, it.m, it.x, it.d, it.om))
      v == TLCEval(StepN(it.ord, it.m, Nudge(it.x), it.d, it.om))
      t == TLCEval([i \in 1..4 |-> [j \in 1..4 |-> NAdd(NMul(P10(-12), Scale(it.x, w, i, j)), NMul(QI(20), QAbs(QSub(v[i][j], w[i][j]))))]])
      calm == ok /\ \A i, j \in 1..4 : QLt(t[i][j], NMul(P10(-5), Scale(it.x, w, i, j)))
      num == IsState(e.state)
      g == TLCEval(Contra(it.m, e.state[1]))  sz == TLCEval(GSizes(it.m, e.state[1]))
      p == e.state[2]
      const == IF it.tl THEN QI(-1) ELSE Q0
      off == QAbs(QSub(Shell(g, p), const))
      lim == QAdd(it.atol, QMul(it.rtol, QAbs(const)))
      fuzz == NMul(P10(-12), NAdd(Q1, NForm(sz, AbsSeq(p), AbsSeq(p))))
      it2 == [it EXCEPT !.x = e.state, !.n = @ + 1, !.rows = Append(@, e.state)]
  IN R([its |-> [Its(s) EXCEPT ![e.id] = it2]],
       << <<"a step succeeds", e.exc = "">>,
          <<"one step is the composition of flows of its order", calm => num /\ \A i, j \in 1..4 : QLe(QAbs(QSub(e.state[i][j], w[i][j])), t[i][j])>>,
          <<"a step appends one result and counts itself", e.n = it.n + 1 /\ e.rows = it.n + 1 /\ e.last = e.state>>,
          <<"warns exactly when the error measure exceeds the tolerances",
             IF it.sup THEN ~e.warned
             ELSE IF ~num THEN TRUE
             ELSE IF QLt(QAdd(lim, fuzz), off) THEN e.warned ELSE IF QLt(off, QSub(lim, fuzz)) THEN ~e.warned ELSE TRUE>> >>)
RowsOp(s, e) == R(s, << <<"results of all steps are kept as they were", e.rows = Its(s)[e.id].rows>>,
                        <<"the initial data are not changed", e.q0 = e.q0was /\ e.p0 = e.p0was>> >>)
(* ------------------------------------------------------------ geodesics       *)
RECURSIVE Sim(_,_,_,_)
Sim(n, e, x, acc) == IF n = 0 THEN acc ELSE LET y == TLCEval(StepN(e.ord, e.m, x, e.d, e.om)) IN Sim(n-1, e, y, Append(acc, y))
GeoOp(s, e) ==
  LET want == IF ~e.known \/ e.ord \notin Orders THEN "NotImplementedError" ELSE ""
      q0 == <<Q0>> \o e.pos
      good == e.exc = "" /\ want = ""
      P4 == IF good /\ Len(e.P) = 4 /\ IsNumSeq(e.P) THEN e.P ELSE <<Q1, Q1, Q1, Q1>>
      x == <<q0, P4, q0, P4>>
      A == TLCEval(Sim(e.n, e, x, <<>>))
      B == TLCEval(Sim(e.n, e, Nudge(x), <<>>))
      Out(y) == (IF e.cart THEN Cartesian4(y[1]) ELSE y[1]) \o y[2]
      W == TLCEval([i \in 1..e.n |-> Out(A[i])])
      V2 == TLCEval([i \in 1..e.n |-> Out(B[i])])
      sc(i, j) == NAdd(NAdd(QAbs(W[i][j]), P10(-2)), IF j \in 2..4 /\ e.cart THEN NMul(QAbs(A[i][1][2]), NAdd(Q1, NAdd(Big(A[i], 3), Big(A[i], 4)))) ELSE Big(A[i], IF j > 4 THEN j - 4 ELSE j))
      tol(i, j) == NAdd(NMul(QMul(QI(i), P10(-12)), sc(i, j)), NMul(QI(20), QAbs(QSub(W[i][j], V2[i][j]))))
  IN R(s, << <<"known metrics, callables and orders are accepted, others refused", e.exc = want>> >> \o
     IF ~good THEN <<>> ELSE
       MomClauses(e.m, q0, e.p, e.tl, e.P) \o
       << <<"initial position is (0, the given position)", e.position = q0>>,
          <<"rows are indexed 0 .. N-1", e.lam = [i \in 1..e.n |-> QI(i-1)]>>,
          <<"N rows of 4-position and 4-momentum", Len(e.rows) = e.n /\ \A i \in 1..Len(e.rows) : Len(e.rows[i]) = 8>>,
          <<"rows are the successive states of the integrator in the chosen coordinates",
             (Len(e.rows) = e.n /\ Len(e.P) = 4 /\ IsNumSeq(e.P) /\ \A i \in 1..Len(e.rows) : Len(e.rows[i]) = 8) => \A i \in 1..e.n : \A j \in 1..8 :
                LET t == tol(i, j) IN QLt(NMul(P10(-5), NAdd(sc(i, j), Q1)), t) \/ (IsNum(e.rows[i][j]) /\ QLe(QAbs(QSub(e.rows[i][j], W[i][j])), t))>>,
          <<"attributes describe the geodesic", e.kind = (IF e.tl THEN "Time-like" ELSE "Null-like") /\ e.coords = (IF e.cart THEN "Cartesian" ELSE "Spherical Polar")
                /\ e.attl = e.tl /\ e.mname = e.m.kind>>,
          <<"warns exactly when a step was flagged and warnings are wanted",
             LET const == IF e.tl THEN QI(-1) ELSE Q0
                 lim == QAdd(e.atol, QMul(e.rtol, QAbs(const)))
                 off(i) == QAbs(QSub(Shell(Contra(e.m, A[i][1]), A[i][2]), const))
                 offB(i) == QAbs(QSub(Shell(Contra(e.m, B[i][1]), B[i][2]), const))
                 fuzz(i) == NAdd(NMul(P10(-11), NAdd(Q1, NForm(GSizes(e.m, A[i][1]), AbsSeq(A[i][2]), AbsSeq(A[i][2])))), NMul(QI(50), QAbs(QSub(offB(i), off(i)))))
                 yes == \E i \in 1..e.n : QLt(QAdd(lim, fuzz(i)), off(i))
                 no == \A i \in 1..e.n : QLt(off(i), QSub(lim, fuzz(i)))
             IN IF e.sup THEN ~e.warned ELSE IF yes THEN e.warned ELSE IF no THEN ~e.warned ELSE TRUE>> >>)
PairOp(s, e) == R(s, << <<e.what, e.a = e.b>> >>)
TStep(s, e) ==
  CASE e.op = "mom" -> MomOp(s, e)
    [] e.op = "make" -> MakeOp(s, e)
    [] e.op = "step" -> StepOp(s, e)
    [] e.op = "rows" -> RowsOp(s, e)
    [] e.op = "geodesic" -> GeoOp(s, e)
    [] e.op = "pair" -> PairOp(s, e)
    [] OTHER -> R(s, << <<"unknown event " \o e.op, FALSE>> >>)
=============================================================================
