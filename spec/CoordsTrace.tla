----------------------------- MODULE CoordsTrace -----------------------------
(***************************************************************************)
(* Recorded conversions of the real coordinate classes.                      *)
(* st: the event's current representation, its Cartesian image, and the      *)
(* representations met before.                                               *)
(*   start    the object a session starts from                               *)
(*   convert  one conversion call of the current object                      *)
(***************************************************************************)
EXTENDS Coords, TraceBase
Init0 == [sys |-> "", alpha |-> Q0]
Rep(kind, e) == IF kind = "pos" THEN [i \in 1..3 |-> J1(e.q[i], Q0)] ELSE [i \in 1..3 |-> J1(e.q[i], e.v[i])]
StartOp(s, e) ==
  LET rp == TLCEval(Rep(e.kind, e))
      img == TLCEval(ToCart(e.sys, AlphaOf(e.M, e.a), rp))
  IN R([sys |-> e.sys, alpha |-> AlphaOf(e.M, e.a), kind |-> e.kind, t |-> e.t, rep |-> rp, img |-> img,
        len |-> Norm3(PosOf3(img)), spd |-> Norm3(VelOf3(img)),
        seen |-> [x \in Systems |-> IF x = e.sys THEN rp ELSE <<>>]],
       << <<"the object holds what it was given", e.exc = "">> >>)
AngOk(d, tol) == LET k == QAbs(d) IN QLe(k, tol) \/ QLe(QAbs(QSub(k, QTwoPi)), tol)
ConvertOp(s, e) ==
  LET must == NeedsHole(s.sys, e.to) /\ e.args # "both"
      rp == TLCEval(Rep(s.kind, e))
      img == TLCEval(ToCart(e.to, s.alpha, rp))
      fin == e.exc = "" /\ IsNumSeq(e.q) /\ (s.kind = "pos" \/ IsNumSeq(e.v))
      first == s.seen[e.to]
      \* distance from the axis, relative: arccos loses accuracy close to it
      rel == NDiv(RSqrt(NAdd(NSq(s.img[1][1]), NSq(s.img[2][1]))), s.len)
      tol == P10(-12)
      cl == << <<"refused exactly when mass or spin is missing", IF must THEN e.exc = "KeyError" ELSE e.exc = "">>,
               <<"system of the result", e.exc = "" => e.system = e.to /\ e.cls = e.wantcls>>,
               <<"components are numbers", e.exc = "" => fin>>,
               <<"time is unchanged", fin => e.t = s.t>>,
               <<"same place", fin => \A i \in 1..3 : Near(img[i][1], s.img[i][1], s.len, tol)>>,
               <<"angles and radius in their canonical ranges",
                  fin /\ e.to # "Cartesian" => /\ e.q[1][1] >= 0 /\ e.q[2][1] >= 0 /\ QLe(e.q[2], QAdd(QPi, P10(-12)))
                                              /\ QLe(QAbs(e.q[3]), QAdd(QPi, P10(-12)))>>,
               <<"same velocity", fin /\ s.kind = "diff" => \A i \in 1..3 : Near(img[i][2], s.img[i][2], s.spd, P10(-11))>>,
               <<"position part is the conversion of the position alone",
                  fin /\ s.kind = "diff" => \A i \in 1..3 : RelNear(e.q[i], e.qpos[i], P10(-12), QMul(s.len, P10(-3)))>>,
               <<"coming back restores the coordinates",
                  fin /\ first # <<>> /\ QLt(P10(-3), rel) => \A i \in 1..3 :
                     IF e.to # "Cartesian" /\ i = 3 THEN AngOk(QSub(e.q[3], first[3][1]), P10(-11))
                     ELSE IF e.to # "Cartesian" /\ i = 2 THEN QLe(QAbs(QSub(e.q[2], first[2][1])), P10(-11))
                     ELSE Near(e.q[i], first[i][1], s.len, P10(-12))>> >>
  IN IF must \/ ~fin THEN R(s, cl)
     ELSE R([s EXCEPT !.sys = e.to, !.rep = rp, !.seen = IF first = <<>> THEN [@ EXCEPT ![e.to] = rp] ELSE @], cl)
(* the conversion classes on plain numbers: position alone unless all of the velocity is given *)
RawOp(s, e) ==
  LET must == NeedsHole(e.sys, e.to) /\ e.args # "both"
      alpha == AlphaOf(e.M, e.a)
      rp == TLCEval([i \in 1..3 |-> J1(e.q[i], IF e.all THEN e.v[i] ELSE Q0)])
      img == TLCEval(ToCart(e.sys, alpha, rp))
      n == IF e.all THEN 7 ELSE 4
      fin == e.exc = "" /\ Len(e.out) = n /\ IsNumSeq(e.out)
      got == TLCEval(ToCart(e.to, alpha, [i \in 1..3 |-> J1(e.out[i+1], IF e.all THEN e.out[i+4] ELSE Q0)]))
      len == Norm3(PosOf3(img))  spd == Norm3(VelOf3(img))
  IN R(s, << <<"refused exactly when mass or spin is missing", IF must THEN e.exc = "KeyError" ELSE e.exc = "">>,
             <<"what was given is held, the velocity only if all of it was given", e.own = <<e.t>> \o e.q \o (IF e.all THEN e.v ELSE <<>>)>>,
             <<"time, position, and velocity if it was given", ~must => fin>> >>
          \o IF must \/ ~fin THEN <<>> ELSE
          << <<"time is unchanged", e.out[1] = e.t>>,
             <<"same place", \A i \in 1..3 : Near(got[i][1], img[i][1], len, P10(-12))>>,
             <<"same velocity", e.all => \A i \in 1..3 : Near(got[i][2], img[i][2], spd, P10(-11))>> >>)
TStep(s, e) ==
  CASE e.op = "start" -> StartOp(s, e)
    [] e.op = "raw" -> RawOp(s, e)
    [] e.op = "convert" -> ConvertOp(s, e)
    [] OTHER -> R(s, << <<"unknown event " \o e.op, FALSE>> >>)
=============================================================================
