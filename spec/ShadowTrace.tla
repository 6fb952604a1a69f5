----------------------------- MODULE ShadowTrace -----------------------------
(* Recorded shadows.  State: the curves of the shadows made so far, as recorded. *)
EXTENDS Shadow, Units, TraceBase
Objs(s) == IF "o" \in DOMAIN s THEN s.o ELSE <<>>
Close(v, w, sz) == QLe(QAbs(QSub(v, w)), NMul(P10(-13), sz))
CloseSeq(v, w, sz) == Len(v) = Len(w) /\ IsNumSeq(v) /\ \A i \in 1..Len(w) : Close(v[i], w[i], sz)
Held(v, w) == IsNum(v) /\ QLe(QAbs(QSub(v, w[1])), NAdd(NMul(QI(60), w[3]), NMul(P10(-12), QAbs(w[1]))))
(* an integrand is only judged where rounding leaves it standing                 *)
Firm(w) == QLt(NMul(P10(6), w[3]), QAbs(w[1]))
MakeOp(s, e) ==
  LET M == TLCEval(SI(e.mass))  fov == TLCEval(NDiv(SI(e.fov), QI(1000)))
      bc == TLCEval(BCrit(M))
      sz == NAdd(fov, bc)
      bs == Linspace(bc, fov, e.n)
      ok == e.exc = "" /\ IsNumSeq(e.b) /\ IsNumSeq(e.bfin) /\ IsNumSeq(e.b2) /\ Len(e.z) = Len(e.bfin) /\ \A i \in 1..Len(e.z) : Len(e.z[i]) = 2 /\ IsNumSeq(e.z[i])
      N == Len(e.bfin)
      outs == SelectSeq(e.b, LAMBDA x : QLt(e.bcrit, x))
      Mr == e.M
  IN R([o |-> Append(Objs(s), [x |-> e.fb1, y |-> e.intensity])],
       << <<"shadow is computed", ok>> >> \o IF ~ok THEN <<>> ELSE
       << <<"mass in kg and field of view in km, whatever unit they are given in", Close(e.M, M, M) /\ Close(e.fovkm, fov, fov)>>,
          <<"horizon at 2 M", Close(e.horizon, NMul(Q2, M), M)>>,
          <<"critical impact parameter is 3 sqrt(3) M", IsNum(e.bcrit) /\ Close(e.bcrit, bc, bc)>>,
          <<"impact parameters evenly from the critical one to the field of view", CloseSeq(e.b, bs, sz)>>,
          <<"every ray outside the critical impact parameter is kept, in order", e.bfin = outs>>,
          <<"turning points solve r / sqrt(1 - 2M/r) = b outside 3 M",
             \A i \in 1..N : e.z[i][1] = e.bfin[i] /\ QLe(NMul(NMul(QI(3), M), NSub(Q1, P10(-7))), e.z[i][2]) /\ QLe(QAbs(QSub(Apparent(M, e.z[i][2]), e.bfin[i])), NMul(P10(-7), e.bfin[i]))
                /\ LET r == e.z[i][2] IN \* residual of the cubic, whose derivative vanishes at the critical ray
                   QLe(QAbs(NAdd(NSub(NPowN(r, 3), NMul(NSq(e.bfin[i]), r)), NMul(NMul(Q2, M), NSq(e.bfin[i])))), NMul(P10(-12), NPowN(e.bfin[i], 3)))>>,
          <<"as many rays inside, evenly from the limit to the critical one", CloseSeq(e.b2, Linspace(e.limit, bc, N), sz)>>,
          <<"impact parameters are reported inside first", e.fb1 = e.b2 \o e.bfin>>,
          <<"mirrored about zero", Len(e.fb2) = Len(e.fb1) /\ \A i \in 1..Len(e.fb1) : e.fb2[i] = QNeg(e.fb1[i])>>,
          <<"one intensity per impact parameter", Len(e.intensity) = 2*N>> >> \o
       IF Len(e.intensity) # 2*N \/ Len(e.b2) # N THEN <<>> ELSE
       << <<"intensities inside: red-shifted emission from the horizon outwards",
             \A i \in 1..N : LET w == InnerRay(Mr, e.fovkm, e.b2[i]) IN Firm(w) => Held(e.intensity[i], w)>>,
          <<"intensities outside: blue-shifted inwards and red-shifted outwards of the turning point",
             \A i \in 1..N : LET w == OuterRay(Mr, e.fovkm, e.bfin[i], e.z[i][2]) IN Firm(w) => Held(e.intensity[N+i], w)>> >>)
RECURSIVE MaxAbs(_,_,_)
MaxAbs(s, i, a) == IF i > Len(s) THEN a ELSE MaxAbs(s, i+1, IF QLt(a, QAbs(s[i])) THEN QAbs(s[i]) ELSE a)
SmoothOp(s, e) ==
  LET o == Objs(s)[e.id]
      N == Len(o.x)
      xs == Linspace(o.x[1], o.x[N], e.points)
      m == TLCEval(Moments(o.x, o.y))
      w == TLCEval([i \in 1..e.points |-> SplineAt(o.x, o.y, m, xs[i])])
      ok == e.exc = "" /\ Len(e.fb1) = e.points /\ Len(e.intensity) = e.points
      sz == NAdd(MaxAbs(w, 1, Q0), MaxAbs(o.y, 1, Q0))
  IN R([o |-> [Objs(s) EXCEPT ![e.id] = [x |-> e.fb1, y |-> e.intensity]]],
       << <<"smoothed to the requested number of points", ok>> >> \o IF ~ok THEN <<>> ELSE
       << <<"even points over the same range", CloseSeq(e.fb1, xs, MaxAbs(o.x, 1, Q0))>>,
          <<"mirrored about zero", Len(e.fb2) = e.points /\ \A i \in 1..e.points : e.fb2[i] = QNeg(e.fb1[i])>>,
          <<"intensities interpolate the curve by the cubic spline", IsNumSeq(e.intensity) /\ \A i \in 1..e.points : QLe(QAbs(QSub(e.intensity[i], w[i])), NMul(P10(-9), sz))>> >>)
RefuseOp(s, e) == R(s, << <<"mass and field of view of the wrong dimension are refused", e.exc \in {"UnitsError", "TypeError"}>> >>)
TStep(s, e) ==
  CASE e.op = "make" -> MakeOp(s, e)
    [] e.op = "smooth" -> SmoothOp(s, e)
    [] e.op = "refuse" -> RefuseOp(s, e)
    [] OTHER -> R(s, << <<"unknown event " \o e.op, FALSE>> >>)
=============================================================================
