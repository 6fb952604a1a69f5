------------------------------ MODULE CanvasTrace ------------------------------
(***************************************************************************)
(* Recorded figures against the canvases of the specification.  An item seen:   *)
(*   [cls |-> "surface" | "area" | "line", dim, name, color, pts (some or all    *)
(*    of its points), lo, hi (its extent), n (number of its points)]             *)
(***************************************************************************)
EXTENDS Canvas, TraceBase
Tol == P10(-11)
N0(x) == x[1] <= 1
Square(x) == NMul(x, x)
SqSum(p) == NSum(TLCEval([i \in 1..Len(p) |-> Square(p[i])]))
RHor(h) == NAdd(Q1, RSqrt(QSub(QSub(Q1, QMul(h[1], h[1])), QMul(h[2], h[2]))))
REPole(h) == RHor(h)
REEq(h) == NAdd(Q1, RSqrt(QSub(Q1, QMul(h[2], h[2]))))
(* vertical axis last: cos of the polar angle is last coordinate over distance    *)
OnHorizon(p, h) == QLe(QAbs(QSub(RSqrt(SqSum(p)), RHor(h))), P10(-10))
OnErgo(p, h) == LET d2 == SqSum(p)  d == RSqrt(d2)  z == p[Len(p)]
                IN QLt(Q0, d) /\ QLe(Q1, QAdd(d, P10(-6))) /\ QLe(QAbs(QSub(NAdd(NAdd(Square(QSub(d, Q1)), QMul(h[2], h[2])), NMul(QMul(h[1], h[1]), NDiv(Square(z), d2))), Q1)), P10(-9))
Whole(it, horiz, vert) ==
  /\ Len(it.lo) = it.dim /\ Len(it.hi) = it.dim
  /\ \A i \in 1..it.dim : LET m == QMul(Q(97, 100), IF i = it.dim THEN vert ELSE horiz)
                          IN N0(it.lo[i]) /\ N0(it.hi[i]) /\ QLe(m, it.hi[i]) /\ QLe(it.lo[i], QNeg(m))
AllNums(it) == \A i \in 1..Len(it.pts) : IsNumSeq(it.pts[i]) /\ Len(it.pts[i]) = it.dim
ExactPts(seen, want) == Len(seen) = Len(want) /\ \A i \in 1..Len(want) : EqvEach(seen[i], want[i], P10(-13), P10(-300))
(* an item of the specification: [what, dim, name, color, hole | pts]             *)
SeenAs(it, w) ==
  /\ it.dim = w.dim /\ it.name = w.name /\ (w.color = "" \/ it.color = w.color) /\ it.n > 0 /\ AllNums(it)
  /\ CASE w.what = "horizon" -> it.cls = (IF w.dim = 3 THEN "surface" ELSE "area") /\ (\A i \in 1..Len(it.pts) : OnHorizon(it.pts[i], w.hole)) /\ Whole(it, RHor(w.hole), RHor(w.hole))
       [] w.what = "ergosphere" -> it.cls = (IF w.dim = 3 THEN "surface" ELSE "area") /\ (\A i \in 1..Len(it.pts) : OnErgo(it.pts[i], w.hole)) /\ Whole(it, REEq(w.hole), REPole(w.hole))
       [] OTHER -> it.cls = "line" /\ it.n = Len(it.pts) /\ ExactPts(it.pts, w.pts)
(* the order of drawing matters among like items only                             *)
Pick(its, cls, nm, dm) == SelectSeq(its, LAMBDA x : x.cls = cls /\ x.name = nm /\ x.dim = dm)
ClsOf(w) == IF w.what \in {"horizon", "ergosphere"} THEN IF w.dim = 3 THEN "surface" ELSE "area" ELSE "line"
PickW(ws, cls, nm, dm) == SelectSeq(ws, LAMBDA x : ClsOf(x) = cls /\ x.name = nm /\ x.dim = dm)
Shows(seen, want) ==
  /\ Len(seen) = Len(want)
  /\ \A i \in 1..Len(want) :
       LET a == Pick(seen, ClsOf(want[i]), want[i].name, want[i].dim)  b == PickW(want, ClsOf(want[i]), want[i].name, want[i].dim)
       IN Len(a) = Len(b) /\ \A j \in 1..Len(b) : SeenAs(a[j], b[j])
World(s) == IF "plotters" \in DOMAIN s THEN s ELSE Empty
Canvases(e, w) == Len(e.seen) = Len(w.canvases) /\ \A i \in 1..Len(w.canvases) : Shows(e.seen[i].items, w.canvases[i].items)
(* the layout of a figure, as far as the specification speaks of it               *)
LayOK(l, want) == l.title = want.title /\ (Len(l.size) = 2 /\ Len(want.size) = 2 => EqvEach(l.size, want.size, P10(-9), P10(-9)))
                  /\ (want.aspect = "" \/ l.aspect = want.aspect)
                  /\ want.labels = (CASE Len(want.labels) = 2 -> l.labels2 [] Len(want.labels) = 3 -> l.labels3 [] OTHER -> <<>>)
Layouts(e, w) == Len(e.seen) = Len(w.canvases) => \A i \in 1..Len(w.canvases) : w.canvases[i].items # <<>> => LayOK(e.seen[i].lay, w.canvases[i].lay)
Result(w, e, good, excs) ==
  R(w, << <<"what is asked is drawn, what is wrong is refused", IF good THEN e.exc = "" ELSE e.exc \in excs>>,
          <<"every figure shows exactly what its plotter drew", (good /\ e.exc # "") \/ Canvases(e, w)>>,
          <<"title, aspect and axis labels are those asked for", (good /\ e.exc # "") \/ Layouts(e, w)>> >>)
(* events                                                                          *)
NewOp(s, e) == Result(Enter(World(s), [kind |-> e.kind, ergo |-> e.ergo, cols |-> e.cols]), e, TRUE, {})
HoleItems(p, g, dm) ==
  <<[what |-> "horizon", dim |-> dm, name |-> "BH Event Horizon (Outer)", color |-> IF p.kind = "interactive" \/ dm = 2 THEN p.cols[1] ELSE "", hole |-> g.hole, pts |-> <<>>]>>
  \o IF p.ergo THEN <<[what |-> "ergosphere", dim |-> dm, name |-> "BH Ergosphere (Outer)", color |-> IF p.kind = "interactive" \/ dm = 2 THEN p.cols[2] ELSE "", hole |-> g.hole, pts |-> <<>>]>> ELSE <<>>
LineItem(nm, dm, col, pts) == [what |-> "line", dim |-> dm, name |-> nm, color |-> col, hole |-> <<>>, pts |-> pts]
Cols(g, ix) == TLCEval([i \in 1..Len(g.traj) |-> [j \in 1..Len(ix) |-> g.traj[i][ix[j]]]])
PathName(g) == g.kind \o " Geodesic"
PlotOp(s, e) ==
  LET w == World(s)  p == w.plotters[e.on]  g == e.geo
      good == e.aspect \in AspectsOf(p.kind)
      items == HoleItems(p, g, 3) \o <<LineItem(PathName(g), 3, e.color, Cols(g, <<2, 3, 4>>))>>
      lay == [title |-> e.title, aspect |-> e.aspect, labels |-> <<"X", "Y", "Z">>, size |-> e.size]
  IN Result(IF good THEN TLCEval(Draw(w, e.on, items, lay)) ELSE w, e, good, {"ValueError"})
Plot2Op(s, e) ==
  LET w == World(s)  p == w.plotters[e.on]  g == e.geo
      good == GoodView(e.view)
      items == HoleItems(p, g, 2) \o <<LineItem(PathName(g), 2, e.color, Cols(g, <<e.view[1] + 1, e.view[2] + 1>>))>>
      lay == [title |-> IF p.kind = "interactive" /\ e.title = "" THEN Lay(w, e.on).title ELSE e.title, aspect |-> "",
              labels |-> <<"X" \o ToString(e.view[1]), "X" \o ToString(e.view[2])>>, size |-> e.size]
  IN Result(IF good THEN TLCEval(Draw(w, e.on, items, lay)) ELSE w, e, good, {"IndexError"})
ParamOp(s, e) ==
  LET w == World(s)  p == w.plotters[e.on]  g == e.geo
      items == TLCEval([k \in 1..3 |-> LineItem("X" \o ToString(k) \o " (" \o g.coords \o ")", 2, e.colors[k], Cols(g, <<1, k + 1>>))])
      lay == [title |-> e.title, aspect |-> "", labels |-> <<>>, size |-> e.size]
  IN Result(TLCEval(Draw(w, e.on, items, lay)), e, TRUE, {})
(* an animation: frame k shows the first points up to the k-th, the last frame all; left at the last frame *)
AnimOp(s, e) ==
  LET w == World(s)  p == w.plotters[e.on]  g == e.geo
      pts == Cols(g, <<2, 3, 4>>)
      items == HoleItems(p, g, 3) \o <<LineItem(e.linename, 3, e.color, pts)>>
      res == Result(TLCEval(Draw(w, e.on, items, [title |-> "", aspect |-> "", labels |-> <<"X", "Y", "Z">>, size |-> <<>>])), e, TRUE, {})
  IN [res EXCEPT !.cl = @ \o
       << <<"the frames of the animation show the growing path, the last one all of it",
            e.exc = "" => /\ Len(e.frames) = Len(pts)
                          /\ \A k \in 1..Len(e.frames) : /\ Len(e.frames[k]) <= Len(pts)
                                                         /\ ExactPts(e.frames[k], SubSeq(pts, 1, Len(e.frames[k])))
                                                         /\ (k > 1 => Len(e.frames[k]) >= Len(e.frames[k-1]))
                          /\ Len(e.frames) > 0 => Len(e.frames[Len(e.frames)]) = Len(pts)>> >>]
ClearOp(s, e) ==
  LET w == TLCEval(Wipe(World(s), e.on))  res == Result(w, e, TRUE, {})
  IN [res EXCEPT !.cl = @ \o << <<"nothing of the layout is left", World(s).plotters[e.on].kind = "interactive" => e.seen[w.plotters[e.on].cur].lay.title = "" /\ e.seen[w.plotters[e.on].cur].lay.labels2 = <<"", "">> /\ e.seen[w.plotters[e.on].cur].lay.labels3 = <<"", "", "">>>> >>]
(* showing: nothing is drawn; the static legend names the items of its own figure *)
ShowOp(s, e) ==
  LET w == World(s)  p == w.plotters[e.on]  res == Result(w, e, TRUE, {})
      names == {w.canvases[p.cur].items[i].name : i \in 1..Len(w.canvases[p.cur].items)}
      three == \E i \in 1..Len(w.canvases[p.cur].items) : w.canvases[p.cur].items[i].dim = 3
  IN [res EXCEPT !.cl = @ \o
       << <<"the legend of a figure names what it shows", p.kind = "static" /\ e.exc = "" /\ names # {} => SetOf(e.legend) = names \ {""}>>,
          <<"the view is turned as asked", p.kind = "static" /\ e.exc = "" /\ three => Eqv(e.view[1], e.azim, Tol, P10(-9)) /\ Eqv(e.view[2], e.elev, Tol, P10(-9))>>,
          <<"the interactive figure is handed over", p.kind = "interactive" => e.own>> >>]
SaveOp(s, e) ==
  LET w == World(s)  p == w.plotters[e.on]  res == Result(w, e, TRUE, {})
      its == w.canvases[p.cur].items
      (* without a name: after what is drawn; a cleared figure may go by either     *)
      names == IF e.name # "" THEN {e.name}
               ELSE IF p.kind = "interactive" \/ (\E i \in 1..Len(its) : its[i].dim = 3) THEN {"Geodesic.png"}
               ELSE IF its = <<>> THEN {"Geodesic.png", "Parametric.png"} ELSE {"Parametric.png"}
  IN [res EXCEPT !.cl = @ \o << <<"saving writes the plotter's own figure under the given name", e.exc = "" => Len(e.saved) = 1 /\ e.saved[1][1] = p.cur /\ e.saved[1][2] \in names>> >>]
SaveFileOp(s, e) == R(s, << <<"an interactive figure is written", e.exc = "" /\ e.written > 0>> >>)

(* the other plotters                                                              *)
(* shadow: two lines of intensity against impact parameter on either side         *)
LinesOp(s, e) ==
  LET want(f) == TLCEval([i \in 1..Len(f) |-> <<f[i], e.intensity[i]>>])
  IN R(s, << <<"the line plot shows intensity against impact parameter on either side",
               e.exc = "" /\ Len(e.items) = 2
               /\ \/ ExactPts(e.items[1].pts, want(e.fb1)) /\ ExactPts(e.items[2].pts, want(e.fb2))
                  \/ ExactPts(e.items[2].pts, want(e.fb1)) /\ ExactPts(e.items[1].pts, want(e.fb2))>> >>)
(* the disc: <<x, y, brightness>> : the brightness is that of the ray at the same distance *)
DiscOp(s, e) ==
  R(s, << <<"the disc shows each ray's intensity at its impact parameter, all around",
            e.exc = "" /\ Len(e.verts) > 0
            /\ (\A i \in 1..Len(e.verts) : IsNumSeq(e.verts[i])
                 /\ LET d == RSqrt(NAdd(Square(e.verts[i][1]), Square(e.verts[i][2])))
                    IN \E k \in 1..Len(e.fb1) : QLe(QAbs(QSub(d, QAbs(e.fb1[k]))), NMul(P10(-11), e.top)) /\ Eqv(e.verts[i][3], e.intensity[k], P10(-12), P10(-300)))
            /\ \A i \in 1..2 : QLe(NMul(Q(60, 100), e.top), e.hi[i]) /\ QLe(e.lo[i], NMul(Q(-60, 100), e.top))>> >>)
(* a hypersurface: every vertex <<x, y, z>> is on the surface of revolution of the embedding's profile *)
HyperOp(s, e) ==
  R(s, << <<"the surface drawn is the embedding turned about its axis",
            e.exc = "" /\ Len(e.verts) > 0
            /\ (\A i \in 1..Len(e.verts) : IsNumSeq(e.verts[i])
                 /\ LET d == RSqrt(NAdd(Square(e.verts[i][1]), Square(e.verts[i][2])))
                    IN \E k \in 1..Len(e.prof) : QLe(QAbs(QSub(d, e.prof[k][1])), NMul(P10(-11), e.top)) /\ Eqv(e.verts[i][3], e.prof[k][2], P10(-11), P10(-300)))
            /\ \A i \in 1..2 : QLe(NMul(Q(80, 100), e.top), e.hi[i]) /\ QLe(e.lo[i], NMul(Q(-80, 100), e.top))>>,
          <<"in the asked texture", e.cls = e.texture>> >>)
TStep(s, e) ==
  CASE e.op = "new" -> NewOp(s, e) [] e.op = "plot" -> PlotOp(s, e) [] e.op = "plot2D" -> Plot2Op(s, e) [] e.op = "parametric" -> ParamOp(s, e)
    [] e.op = "animate" -> AnimOp(s, e) [] e.op = "clear" -> ClearOp(s, e) [] e.op = "show" -> ShowOp(s, e) [] e.op = "save" -> SaveOp(s, e) [] e.op = "savefile" -> SaveFileOp(s, e)
    [] e.op = "lines" -> LinesOp(s, e) [] e.op = "disc" -> DiscOp(s, e) [] e.op = "hyper" -> HyperOp(s, e)
    [] OTHER -> R(s, << <<"unknown event " \o e.op, FALSE>> >>)
=============================================================================
