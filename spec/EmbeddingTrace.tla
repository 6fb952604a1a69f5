---------------------------- MODULE EmbeddingTrace ----------------------------
(* Recorded embeddings.  State: the masses of the objects made so far.          *)
EXTENDS Embedding, Units, TraceBase
Objs(s) == IF "o" \in DOMAIN s THEN s.o ELSE <<>>
Near4(v, w) == IsNum(v) /\ QLe(QAbs(QSub(v, w[1])), NMul(QI(4), w[3]))
MakeOp(s, e) ==
  LET m == NDiv(SI(e.mass), MUnit) IN
  R([o |-> Append(Objs(s), EPlain(e.M))],
    << <<"mass in units of 1e23 kg, whatever unit it is given in", e.exc = "" /\ Eqv(e.M, m, P10(-14), Q0)>>,
       <<"walks start just outside r = 3 M", e.exc = "" => IsNum(e.r0) /\ QLe(QAbs(QSub(e.r0, NAdd(NMul(QI(3), m), P10(-4)))), NMul(P10(-13), NAdd(m, Q1)))>> >>)
PointOp(s, e) ==
  LET M == Objs(s)[e.id] IN
  R(s, << <<"circumference radius r/sqrt(1-2M/r)", e.exc = "" /\ Near4(e.R, Circum(M, EPlain(e.r)))>>,
          <<"gradient of the embedding", e.exc = "" /\ Near4(e.grad, Slope(M, EPlain(e.r)))>> >>)
(* the recorded start r0 is the walk's                                         *)
Along(xs, zs, w) == \A i \in 1..Len(w) : Near4(xs[i], w[i][2]) /\ Near4(zs[i], w[i][3])
ValuesOp(s, e) ==
  LET M == Objs(s)[e.id]
      \* the inward walk begins at the second zero height
      k == IF \E i \in 2..Len(e.z) : IsZero(e.z[i]) THEN CHOOSE i \in 2..Len(e.z) : IsZero(e.z[i]) ELSE Len(e.z) + 1
      n == k - 1
      good == e.exc = "" /\ Len(e.x) = Len(e.z) /\ n >= 1 /\ n < Len(e.z)
      out == Walk(M, e.alpha, 1, n)
      in == Walk(M, e.alpha, -1, Len(e.z) - n)
  IN R(s, << <<"profile is two lists of equal length, both walks present", good>> >> \o
       IF ~good THEN <<>> ELSE
       << <<"outward walk ends at 9 M", RightLength(M, e.alpha, 1, OutEnd, out)>>,
          <<"inward walk ends at 9 M / 4", RightLength(M, e.alpha, -1, InEnd, in)>>,
          <<"outward profile: radii and accumulated heights", Along(SubSeq(e.x, 1, n), SubSeq(e.z, 1, n), out)>>,
          <<"inward profile: radii and accumulated heights", Along(SubSeq(e.x, n+1, Len(e.x)), SubSeq(e.z, n+1, Len(e.z)), in)>> >>)
NPhi == 60
SurfaceOp(s, e) ==
  LET M == Objs(s)[e.id]
      n == e.cols
      m == Len(e.at)                                   \* the angles recorded
      good == e.exc = "" /\ e.rows = NPhi /\ n >= 1 /\ Len(e.X) = m * n /\ Len(e.Y) = m * n /\ Len(e.Z) = m * n /\ IsNumSeq(e.X) /\ IsNumSeq(e.Y) /\ IsNumSeq(e.Z)
      w == Walk(M, e.alpha, 1, n)
      cs == TLCEval([i \in 1..m |-> LET a == NMul(QTwoPi, Q(e.at[i]-1, NPhi-1)) IN <<RCos(a), RSin(a)>>])
      At(A, i, j) == A[(i-1)*n + j]
      Okay(v, cf, Rd) == QLe(QAbs(QSub(v, NMul(Rd[1], cf))), NAdd(NMul(QI(4), Rd[3]), NMul(P10(-14), Rd[1])))
  IN R(s, << <<"a grid of 60 angles by the points of the outward profile", good>> >> \o
       IF ~good THEN <<>> ELSE
       << <<"outward profile reaches to 20 M", RightLength(M, e.alpha, 1, SurfEnd, w)>>,
          <<"surface is the solid of revolution of the profile", \A i \in 1..m : \A j \in 1..n :
               Okay(At(e.X, i, j), cs[i][1], w[j][2]) /\ Okay(At(e.Y, i, j), cs[i][2], w[j][2])>>,
          <<"heights are the profile's at every angle", \A i \in 1..m : \A j \in 1..n : Near4(At(e.Z, i, j), w[j][3])>> >>)
TStep(s, e) ==
  CASE e.op = "make" -> MakeOp(s, e)
    [] e.op = "point" -> PointOp(s, e)
    [] e.op = "values" -> ValuesOp(s, e)
    [] e.op = "surface" -> SurfaceOp(s, e)
    [] OTHER -> R(s, << <<"unknown event " \o e.op, FALSE>> >>)
=============================================================================
