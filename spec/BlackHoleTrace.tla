---------------------------- MODULE BlackHoleTrace ----------------------------
(***************************************************************************)
(* Recorded use of the numeric metrics, judged against BlackHole.            *)
(* State: the objects made so far -- holes (metric objects) and movers       *)
(* (differential objects) -- by their identifiers 1, 2, ...                  *)
(***************************************************************************)
EXTENDS BlackHole, Units, TraceBase

Needed(name) == IF name = "Schwarzschild" THEN "Spherical" ELSE "BoyerLindquist"
Answers(h) == h.name \in {"user", "general"} \/ h.sys = Needed(h.name)
SpinOk(h) == QLe(Q0, h.a) /\ QLe(h.a, Q1)
Objs(s) == IF "objs" \in DOMAIN s THEN s.objs ELSE <<>>
Put(s, o) == [objs |-> Append(Objs(s), o)]
Get(s, i) == Objs(s)[i]
Refusal(h) == IF ~Answers(h) THEN "CoordinateError" ELSE IF ~SpinOk(h) THEN "ValueError" ELSE ""
(* the covariant components of a hole at x, as first order jets               *)
Under(h) == IF h.name = "user" THEN h.under ELSE h.name
Jets(h, K, x) == MetricAt(Under(h), K, h.par, x)
(* a metric of the user's own: sixteen recorded components, the same everywhere *)
Cov(h, pt) == IF h.tab # <<>> THEN h.tab ELSE TLCEval(NMat(Jets(h, 0, pt)))
CovSizes(h, pt) == IF h.tab # <<>> THEN AbsSeq(h.tab) ELSE Sizes(h.par, pt)

HoleOp(s, e) ==
  LET M == TLCEval(SI(e.M))  a == TLCEval(SI(e.a))  Qc == TLCEval(SI(e.Q))
      h == [name |-> e.name, under |-> e.under, sys |-> e.sys, M |-> M, a |-> a, Q |-> Qc, q |-> SI(e.q), par |-> ParOf(M, a, Qc), tab |-> e.tab]
  IN R(Put(s, h), << <<"metric object is constructed", e.exc = "">>,
                     <<"Schwarzschild radius of the mass", e.exc = "" => Eqv(e.rs, h.par[2], P10(-12), Q0)>> >>)
Mtol == P10(-12)
MetricOp(s, e) ==
  LET h == Get(s, e.id)
      want == Refusal(h)
      pt == SIs(e.x)
      sz == CovSizes(h, pt)
      g0 == TLCEval(Cov(h, pt))
      g == IF e.pert = <<>> THEN g0 ELSE TLCEval([i \in 1..16 |-> NAdd(g0[i], e.pert[i])])
      gi == TLCEval(NumInv(4, g))
      psz == IF e.pert = <<>> THEN sz ELSE TLCEval([i \in 1..16 |-> NAdd(sz[i], QAbs(e.pert[i]))])
  IN R(s, << <<"answers exactly in its own coordinate system and spin range", e.exc = want>>,
             <<"covariant components of the line element", e.exc = "" /\ want = "" => NearBy(e.g, g, psz, Mtol)>>,
             <<"contravariant components are the inverse", e.exc = "" /\ want = "" /\ e.gi # <<>> => IF e.pert = <<>> /\ h.tab = <<>> THEN NearBy(e.gi, gi, InvSizes(g, gi, psz), P10(-11))
                 \* inverting a full matrix of unequal scales loses digits relative to sqrt(g^ii g^jj)
                 ELSE NearBy(e.gi, gi, [q \in 1..16 |-> LET i == (q-1) \div 4  j == (q-1) % 4 IN RSqrt(NAdd(QAbs(NMul(gi[5*i+1], gi[5*j+1])), NSq(gi[q])))], P10(-5))>> >>)
ConnOf(h, pt) ==
  LET gj == TLCEval(Jets(h, 1, pt))  gij == TLCEval(JMatInv(4, 1, gj))  gm == TLCEval(Gamma(4, gj, gij))
      sz == Sizes(h.par, pt)  gi == TLCEval(NMat(gij))
  IN [gamma |-> TLCEval([q \in 1..64 |-> gm[q][1]]), g |-> TLCEval(NMat(gj)), gi |-> gi, sz |-> sz,
      gs |-> GammaSizes(gi, InvSizes(NMat(gj), gi, sz), DSizes(h.par, pt, sz))]
GammaOp(s, e) ==
  LET h == Get(s, e.id)  want == Refusal(h)
      cn == TLCEval(ConnOf(h, SIs(e.x)))
  IN R(s, << <<"answers exactly in its own coordinate system and spin range", e.exc = want>>,
             <<"Christoffel symbols of the metric", e.exc = "" /\ want = "" => NearBy(e.ch, cn.gamma, cn.gs, P10(-12))>>,
             <<"symmetric in the lower pair", e.exc = "" /\ want = "" => Len(e.ch) = 64 /\ \A i, j, k \in 0..3 :
                 Eqv(e.ch[i*16+j*4+k+1], IF IsNum(e.ch[i*16+k*4+j+1]) THEN e.ch[i*16+k*4+j+1] ELSE Q0, P10(-14), Q0)>> >>)
(* the field as the code states it: electric part dA, magnetic part -dA        *)
Stated(F) == [q \in 1..16 |-> IF q \in {8, 12, 14, 15} THEN QNeg(F[q]) ELSE F[q]]
FieldSizes(F, par, pt) == LET sg == NSigma(pt[2], pt[3], par)
                              w == NDiv(NAdd(NSq(pt[2]), NSq(par[3])), sg)
                              b == NDiv(QAbs(par[5]), sg)
                          IN TLCEval([q \in 1..16 |-> IF IsZero(F[q]) THEN Q0
                               ELSE IF q \in {2, 5} THEN NMul(b, w) ELSE IF q \in {3, 9} THEN NMul(b, NMul(w, QAbs(par[3])))
                               ELSE IF q \in {8, 14} THEN NMul(b, NMul(w, QAbs(par[3]))) ELSE QAbs(F[q])])
RaiseF(gi, F) == NMatMul(NMatMul(gi, F), gi)
FvecOp(s, e) ==
  LET h == Get(s, e.id)  want == Refusal(h)  pt == SIs(e.x)
      cn == TLCEval(ConnOf(h, pt))
      au == AbsSeq(e.u)
      F == TLCEval(FieldOf(PotAt(1, h.par, pt)))
      Fs == Stated(F)
      Fsz == FieldSizes(F, h.par, pt)
      agi == TLCEval([q \in 1..16 |-> NAdd(QAbs(cn.gi[q]), NMul(P10(-1), InvSizes(cn.g, cn.gi, cn.sz)[q]))])
      charged == h.name = "KerrNewman" /\ ~IsZero(h.q)
      lor == IF charged THEN NMatVec(NMatMul(RaiseF(cn.gi, Fs), cn.g), e.u) ELSE <<Q0, Q0, Q0, Q0>>
      lorsz == IF charged THEN NMatVec(NMatMul(RaiseF(agi, Fsz), cn.sz), au) ELSE <<Q0, Q0, Q0, Q0>>
      acc == TLCEval(Geo(cn.gamma, e.u))
      asz == TLCEval(AbsSeq(Geo(cn.gs, au)))
      tot == TLCEval([i \in 1..4 |-> NAdd(acc[i], NMul(h.q, lor[i]))])
      totsz == TLCEval([i \in 1..4 |-> NAdd(asz[i], NMul(QAbs(h.q), lorsz[i]))])
  IN R(s, << <<"answers exactly in its own coordinate system and spin range", e.exc = want>>,
             <<"rate of position is the velocity", e.exc = "" /\ want = "" => Len(e.out) = 8 /\ SubSeq(e.out, 1, 4) = e.u>>,
             <<"rate of velocity is -Gamma u u plus the Lorentz force", e.exc = "" /\ want = "" => Len(e.out) = 8 /\ NearBy(SubSeq(e.out, 5, 8), tot, totsz, P10(-12))>> >>)
EmOp(s, e) ==
  LET h == Get(s, e.id)  pt == SIs(e.x)
      A == TLCEval(PotAt(1, h.par, pt))
      A0 == TLCEval([i \in 1..4 |-> A[i][1]])
      F == TLCEval(FieldOf(A))
      g0 == TLCEval(NMat(Jets(h, 0, pt)))
      gi == TLCEval(NumInv(4, g0))
      sz == Sizes(h.par, pt)
      igs == InvSizes(g0, gi, sz)
      Fsz == FieldSizes(F, h.par, pt)
      agi == TLCEval([q \in 1..16 |-> NAdd(QAbs(gi[q]), igs[q])])
      St == Stated(F)
      ok == e.exc = ""
      z == IsZero(h.Q)
      At(i) == e.F[i]
  IN R(s, << <<"field quantities are computed", ok>>,
             <<"potential r_Q r/rho^2 (1, 0, 0, -alpha sin^2 theta)", ok => NearBy(e.A, A0, AbsSeq(A0), P10(-12))>>,
             <<"contravariant potential is the raised one", ok => NearBy(e.Au, NMatVec(gi, A0), NMatVec(agi, AbsSeq(A0)), P10(-11))>>,
             <<"field tensor is antisymmetric", ok => Len(e.F) = 16 /\ IsNumSeq(e.F) /\ \A i, j \in 0..3 : IsZero(QAdd(e.F[i*4+j+1], e.F[j*4+i+1]))>>,
             <<"electric components are those of the potential", ok => Len(e.F) = 16 /\ \A i \in {2, 3, 4, 5, 7, 9, 10, 13} : IsNum(At(i)) /\ Near(At(i), F[i], Fsz[i], P10(-12))>>,
             <<"magnetic components have their stated closed form", ok => Len(e.F) = 16 /\ \A i \in {8, 12, 14, 15} : IsNum(At(i)) /\ Near(At(i), St[i], Fsz[i], P10(-12))>>,
             <<"magnetic components are the curl of the potential", ok /\ e.curl => Len(e.F) = 16 /\ \A i \in {8, 12, 14, 15} : IsNum(At(i)) /\ Near(At(i), F[i], Fsz[i], P10(-12))>>,
             <<"contravariant tensor is the raised one", ok => NearBy(e.Fu, RaiseF(gi, IF IsNumSeq(e.F) /\ Len(e.F) = 16 THEN e.F ELSE St), RaiseF(agi, Fsz), P10(-11))>>,
             <<"no field without charge", ok /\ z => \A x \in SetOf(e.A) \cup SetOf(e.Au) \cup SetOf(e.F) \cup SetOf(e.Fu) : IsZero(x)>> >>)
RootsOp(s, e) ==
  LET h == Get(s, e.id)
      want == IF ~Answers(h) THEN "CoordinateError" ELSE IF ~SpinOk(h) THEN "ValueError" ELSE ""
      \* a hole charged beyond extremality has no horizon: nothing is claimed
      ok == e.exc = "" /\ want = "" /\ Disc(h.par, Q1)[1] >= 0
      sch == h.name = "Schwarzschild"
      rs == h.par[2]
      tol == P10(-7)       \* square roots of a vanishing discriminant lose half the digits
      dsc(k) == NDiv(Disc(h.par, k), NSq(rs))
      tk(k) == IF QLt(P10(-4), dsc(k)) THEN P10(-12) ELSE tol
      N(x, y, t) == IsNum(x) /\ Near(x, y, rs, t)
      k2(i) == NSq(RCos(e.th[i]))
  IN R(s, << <<"answers exactly in its own coordinate system and spin range", e.exc = want>>,
             <<"outer horizon is the outer root of Delta", ok => N(e.oh, IF sch THEN rs ELSE OuterRoot(h.par, Q1), tk(Q1))>>,
             <<"inner horizon is the inner root of Delta", ok => N(e.ih, IF sch THEN Q0 ELSE InnerRoot(h.par, Q1), tk(Q1))>>,
             <<"ergospheres are the roots of the time-time component", ok => \A i \in 1..Len(e.th) :
                 /\ N(e.oe[i], IF sch THEN rs ELSE OuterRoot(h.par, k2(i)), tk(k2(i)))
                 /\ N(e.ie[i], IF sch THEN Q0 ELSE InnerRoot(h.par, k2(i)), tk(k2(i)))>>,
             <<"order of the surfaces", ok => \A i \in 1..Len(e.th) : IsNumSeq(<<e.ie[i], e.ih, e.oh, e.oe[i]>>) /\
                 LET d == NMul(tk(k2(i)), rs) IN QLe(e.ie[i], QAdd(e.ih, d)) /\ QLe(e.ih, QAdd(e.oh, d)) /\ QLe(e.oh, QAdd(e.oe[i], d))>> >>)
AuxOp(s, e) ==
  LET x == TLCEval(SIs(e.args))
      fn == e.fn
      spin == CASE fn = "schwarzschild_radius" -> Q0 [] fn = "alpha" -> x[2] [] fn = "delta" -> x[3] [] OTHER -> x[4]
      want == IF QLt(spin, Q0) \/ QLt(Q1, spin) THEN "ValueError" ELSE ""
      sg == NAdd(NSq(x[1]), NSq(NMul(AlphaOf(x[3], x[4]), RCos(x[2]))))
      par == ParOf(x[2], x[3], IF Len(x) > 3 THEN x[4] ELSE Q0)
      val == CASE fn = "schwarzschild_radius" -> RsOf(x[1]) [] fn = "alpha" -> AlphaOf(x[1], x[2])
               [] fn = "sigma" -> sg [] fn = "rho" -> RSqrt(sg) [] OTHER -> Delta(x[1], par)
      size == IF fn = "delta" THEN NAdd(NAdd(NSq(x[1]), NMul(par[2], x[1])), NAdd(NSq(par[3]), par[4])) ELSE QAbs(val)
  IN R(s, << <<"spin outside [0, 1] is refused", e.exc = want>>,
             <<"value of " \o fn, e.exc = "" /\ want = "" => IsNum(e.val) /\ Near(e.val, val, size, P10(-12))>> >>)
(* ------------------------------------------------ movers: positions, velocities *)
MoverOp(s, e) ==
  R(Put(s, [name |-> "mover", sys |-> e.sys, x |-> SIs(e.x), v |-> IF e.v = <<>> THEN <<>> ELSE SIs(e.v)]),
    << <<"coordinates are constructed", e.exc = "">>,
       <<"position is (c t, three SI components)", e.exc = "" => Len(e.pos) = 4 /\ Eqv(e.pos[1], NMul(CLight, SI(e.x[1])), P10(-14), Q0)
            /\ \A i \in 2..4 : Eqv(e.pos[i], SI(e.x[i]), P10(-14), Q0)>>,
       <<"components are retrievable by name and by index as given",
         e.exc = "" => /\ e.byname = e.x /\ e.byindex = e.x /\ (e.sysname = "" \/ e.sysname = e.sys) /\ e.attr = e.x \o e.v>> >>)
RejectOp(s, e) == R(s, << <<"wrong units are rejected", e.exc \in {"UnitsError", "UnitConversionError", "UnitTypeError", "TypeError"}>> >>)
VelocityOp(s, e) ==
  LET h == Get(s, e.hole)  mv == Get(s, e.mover)
      want == IF mv.sys # h.sys \/ ~Answers(h) THEN "CoordinateError" ELSE IF ~SpinOk(h) THEN "ValueError" ELSE ""
      ok == e.exc = "" /\ want = ""
      \* what the metric object answers includes the perturbation it was built with
      With(m, p) == IF p = <<>> THEN m ELSE TLCEval([i \in 1..16 |-> NAdd(m[i], p[i])])
      g == TLCEval(With(Cov(h, mv.x), e.pert))
      sz == TLCEval(With(CovSizes(h, mv.x), AbsSeq(e.pert)))
      w == TLCEval(TimeComp(g, CLight, mv.v))
      u == <<w[3], mv.v[1], mv.v[2], mv.v[3]>>
      slack == TLCEval(NMul(P10(-11), NForm(sz, AbsSeq(u), AbsSeq(u))))
      outside == g[1][1] > 0
      solvable == w[1][1] > 0 /\ QLt(slack, RSqrt(QMax(w[1], Q0)))
  IN R(s, << <<"answers only in the metric's own coordinate system", e.exc = want>>,
             <<"spatial components are the given ones", ok => Len(e.u) = 4 /\ \A i \in 1..3 : Eqv(e.u[i+1], mv.v[i], P10(-14), Q0)>>,
             <<"positive time component", ok /\ outside => Len(e.u) = 4 /\ IsNum(e.u[1]) /\ e.u[1][1] > 0>>,
             <<"normalised: g(u,u) = c^2", ok /\ solvable => IsNumSeq(e.u) /\ QLe(QAbs(QSub(NForm(g, e.u, e.u), NSq(CLight))), QMul(QI(4), QAdd(slack, QMul(P10(-12), NSq(CLight)))))>>,
             <<"time component of the convention", ok /\ solvable => IsNum(e.u[1]) /\ QLe(QAbs(QSub(e.u[1], w[3])), QAdd(NMul(P10(-12), QAbs(w[3])), NDiv(slack, RSqrt(w[1]))))>>,
             <<"v_t holds the result just returned", ok => e.vt = e.u[1] \/ (~IsNum(e.vt) /\ ~IsNum(e.u[1]))>> >>)
(* the factor of special relativity, and so of a flat metric: g(u,u) = c^2 with u = gamma (1, v) *)
LorentzOp(s, e) ==
  LET b == NDiv(NSum([i \in 1..3 |-> NSq(e.v[i])]), NSq(CLight))
      d == NSub(Q1, b)
      g == NDiv(Q1, RSqrt(d))
  IN R(s, << <<"Lorentz factor of a velocity below that of light", e.exc = "" /\ IsNum(e.val) /\ Near(e.val, g, NMul(g, NAdd(Q1, NDiv(Q1, d))), P10(-14))>> >>)
(* index triples of symbols listed as non-zero: those that are, at a generic place *)
NonzeroOp(s, e) ==
  LET cn == TLCEval(ConnOf([name |-> "Kerr", par |-> <<Q1, Q2, Q(7, 10), Q0, Q0>>], <<Q0, QI(5), Q(11, 10), Q0>>))
      nz == {<<(q-1) \div 16, ((q-1) \div 4) % 4, (q-1) % 4>> : q \in {k \in 1..64 : ~QLe(QAbs(cn.gamma[k]), P10(-25))}}
  IN R(s, << <<"listed symbols are those that do not vanish", SetOf(e.triples) = nz /\ Len(e.triples) = Cardinality(nz)>> >>)
TStep(s, e) ==
  CASE e.op = "hole" -> HoleOp(s, e)
    [] e.op = "metric" -> MetricOp(s, e)
    [] e.op = "gamma" -> GammaOp(s, e)
    [] e.op = "fvec" -> FvecOp(s, e)
    [] e.op = "em" -> EmOp(s, e)
    [] e.op = "roots" -> RootsOp(s, e)
    [] e.op = "aux" -> AuxOp(s, e)
    [] e.op = "mover" -> MoverOp(s, e)
    [] e.op = "reject" -> RejectOp(s, e)
    [] e.op = "velocity" -> VelocityOp(s, e)
    [] e.op = "lorentz" -> LorentzOp(s, e)
    [] e.op = "nonzero" -> NonzeroOp(s, e)
    [] OTHER -> R(s, << <<"unknown event " \o e.op, FALSE>> >>)
=============================================================================
