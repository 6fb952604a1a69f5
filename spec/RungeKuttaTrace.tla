--------------------------- MODULE RungeKuttaTrace ---------------------------
(***************************************************************************)
(* Recorded integrators judged against RungeKutta.  State: one record per       *)
(* integrator with its equation, time, value, bound, step and history.         *)
(***************************************************************************)
EXTENDS RungeKutta, TraceBase

Objs(s) == IF "o" \in DOMAIN s THEN s.o ELSE <<>>
MakeOp(s, e) ==
  LET dir == Direction(e.t0, e.bound)
      h == QMul(QI(dir), QAbs(e.size))
  IN R([o |-> Append(Objs(s), [f |-> e.f, t |-> e.t, y |-> e.y, bound |-> e.bound, dir |-> dir, h |-> h, size |-> QAbs(e.size), shape |-> e.shape,
                               rtol |-> e.rtol, atol |-> e.atol, n |-> 0, past |-> <<e.y>>, done |-> FALSE])],
       << <<"a new integrator is at its initial state", e.exc = "" /\ e.t = e.t0 /\ e.y = e.y0 /\ e.shape = e.shape0>> >>)
Moved(s, e) == [o |-> [Objs(s) EXCEPT ![e.id] = [@ EXCEPT !.t = e.t, !.y = e.y, !.n = @ + 1, !.past = Append(@, e.y)]]]
Within(v, w) == Len(v) = Len(w) /\ IsNumSeq(v) /\ \A j \in 1..Len(w) : QLe(QAbs(QSub(v[j], w[j][1])), QMul(QI(4), w[j][3]))
(* ------------------------------------------------------------ naive           *)
StepOp(s, e) ==
  LET o == Objs(s)[e.id]
      stop == Reached(o.t, o.bound, o.dir)
      w == TLCEval(RK4Step(o.f, EPlain(o.t), EVec(o.y), EPlain(o.h)))
      t == NAdd(o.t, o.h)
  IN R(Moved(s, e), <<
       <<"stepping succeeds", e.exc = "">>,
       <<"at the bound the state stays and a warning is given", stop => e.t = o.t /\ e.y = o.y /\ e.warned>>,
       <<"no warning short of the bound", ~stop => ~e.warned>>,
       <<"time advances by the step towards the bound", ~stop => IsNum(e.t) /\ QLe(QAbs(QSub(e.t, t)), NMul(UR, NAdd(QAbs(t), QAbs(o.h))))>>,
       <<"value advances by the classical fourth order step", (~stop /\ IsNumSeq(o.y)) => Within(e.y, w)>>,
       <<"value keeps its type and shape", e.shape = o.shape>> >>)
KeptOp(s, e) == R(s, << <<"values handed out earlier are not changed by later steps", e.past = Objs(s)[e.id].past>> >>)
(* ------------------------------------------------------------ adaptive        *)
AStepOp(s, e) ==
  LET o == Objs(s)[e.id]
      stop == Reached(o.t, o.bound, o.dir)
      h == QSub(e.t, o.t)
      k == TLCEval(DPStages(o.f, EPlain(o.t), EVec(o.y), EPlain(h)))
      w == TLCEval(DPStep(EVec(o.y), EPlain(h), k))
      er == TLCEval(DPError(Len(o.y), EPlain(h), k))
      ah == QAbs(h)
      fuzz == NMul(UR, NAdd(QAbs(o.t), QAbs(e.t)))
      cap == NAdd(NMul(QI(8), o.size), fuzz)
      num == IsNum(e.t) /\ IsNumSeq(e.y) /\ Len(e.y) = Len(o.y)
      (* a solution running away to infinity before the bound cannot be followed: the solver gives up *)
      lost == e.status = "failed" /\ e.t = o.t /\ e.y = o.y /\ IsNumSeq(o.y) /\ \E j \in 1..Len(o.y) : QLt(P10(6), QAbs(o.y[j]))
  IN IF lost THEN R(Moved(s, e), << <<"stepping succeeds", e.exc = "">> >>) ELSE R(Moved(s, e), <<
       <<"stepping succeeds", e.exc = "">>,
       <<"after finishing the state stays and a warning is given", stop => e.t = o.t /\ e.y = o.y /\ e.warned>>,
       <<"no warning before finishing", ~stop => ~e.warned>>,
       <<"never passes its bound", num /\ (IF o.dir = 1 THEN QLe(e.t, o.bound) ELSE QLe(o.bound, e.t))>>,
       <<"moves towards its bound", (~stop /\ num) => (IF o.dir = 1 THEN QLt(o.t, e.t) ELSE QLt(e.t, o.t))>>,
       <<"finished exactly at the bound", e.status = IF Reached(e.t, o.bound, o.dir) THEN "finished" ELSE "running">>,
       <<"first step no longer than 0.8 of the step size", (~stop /\ num /\ o.n = 0) => QLe(ah, NAdd(NMul(Q(4, 5), o.size), fuzz))>>,
       <<"no step longer than 8 step sizes", (~stop /\ num) => QLe(ah, cap)>>,
       <<"value advances by the embedded fifth order step", (~stop /\ num) => Within(e.y, w)>>,
       <<"estimated error within the tolerances", (~stop /\ num) => QLe(ErrNormSq(Len(o.y), er, o.y, e.y, o.rtol, o.atol), QAdd(Q1, P10(-9)))>> >>)
(* known solutions; the error over a run is within what the tolerances allow:     *)
(* each step adds about the tolerance, stretched by the flow                       *)
Solution(e, t) ==
  LET T == NSub(t, e.t0) IN
  CASE e.kind = "exp" -> << NMul(e.y0[1], RExp(NMul(e.a, T))) >>
    [] e.kind = "osc" -> LET c == RCos(NMul(e.a, T))  n == RSin(NMul(e.a, T))
                         IN << NAdd(NMul(e.y0[1], c), NMul(e.y0[2], n)), NSub(NMul(e.y0[2], c), NMul(e.y0[1], n)) >>
    [] OTHER -> << NAdd(e.y0[1], NSub(RSin(NMul(e.a, t)), RSin(NMul(e.a, e.t0)))) >>
ExactOp(s, e) ==
  LET o == Objs(s)[e.id]
      T == NSub(o.t, e.t0)
      w == TLCEval(Solution(e, o.t))
      stretch == IF e.kind = "exp" THEN QMax(Q1, RExp(NMul(e.a, T))) ELSE Q2
      sz == NAdd(NAdd(QMax(QAbs(e.y0[1]), QAbs(e.y0[Len(e.y0)])), QMax(QAbs(w[1]), QAbs(w[Len(w)]))), Q1)
      lim == NAdd(NMul(NMul(QI(5 * (o.n + 1)), stretch), NAdd(o.atol, NMul(o.rtol, sz))), NMul(P10(-12), NMul(stretch, sz)))
  IN R(s, << <<"end value solves the equation within tolerance",
                IsNum(o.t) /\ IsNumSeq(o.y) /\ \A j \in 1..Len(w) : QLe(QAbs(QSub(o.y[j], w[j])), lim)>> >>)
TStep(s, e) ==
  CASE e.op = "make" -> MakeOp(s, e)
    [] e.op = "step" -> StepOp(s, e)
    [] e.op = "kept" -> KeptOp(s, e)
    [] e.op = "astep" -> AStepOp(s, e)
    [] e.op = "exact" -> ExactOp(s, e)
    [] OTHER -> R(s, << <<"unknown event " \o e.op, FALSE>> >>)
=============================================================================
