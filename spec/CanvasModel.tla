------------------------------ MODULE CanvasModel ------------------------------
(***************************************************************************)
(* Histories of plotters: making static and interactive plotters, plotting     *)
(* geodesics in each mode (with acceptable and unacceptable options), clearing,  *)
(* showing, saving, animating, in any order.                                     *)
(***************************************************************************)
EXTENDS Canvas, FiniteSets, Json
CONSTANTS MAXPLOTTER, MAXACT, EMIT
VARIABLES acts, world, calls
cvars == <<acts, world, calls>>
Geos == {1, 2}
Init == acts = <<>> /\ world = Empty /\ calls = <<>>
Act(d, k, g, v, a) == acts' = Append(acts, [do |-> d, on |-> k, geo |-> g, view |-> v, good |-> a])
(* calls: for each canvas the drawing calls made on it since it was cleared       *)
Same == UNCHANGED <<world, calls>>
Make == /\ Len(world.plotters) < MAXPLOTTER
        /\ \E kd \in {"static", "interactive"}, er \in BOOLEAN :
             /\ acts' = Append(acts, [do |-> kd, on |-> 0, geo |-> 0, view |-> <<>>, good |-> er])
             /\ world' = Enter(world, [kind |-> kd, ergo |-> er])
             /\ calls' = IF kd = "interactive" THEN Append(calls, 0) ELSE calls
Drawn(k, items) ==
  LET w == Draw(world, k, items, NoLay)
  IN /\ world' = w
     /\ calls' = IF world.plotters[k].kind = "static" THEN Append(calls, 1) ELSE [calls EXCEPT ![w.plotters[k].cur] = @ + 1]
P(k) == world.plotters[k]
Plot(k) == \E g \in Geos, a \in BOOLEAN :
             /\ Act("plot", k, g, <<>>, a)
             /\ IF a THEN Drawn(k, Hole(P(k), 3) \o << <<"path", g>> >>) ELSE Same
Plot2(k) == \E g \in Geos : \E v \in {<<1, 2>>, <<1, 3>>, <<3, 2>>, <<2, 2>>, <<0, 2>>, <<1, 4>>} :
             /\ Act("plot2D", k, g, v, GoodView(v))
             /\ IF GoodView(v) THEN Drawn(k, Hole(P(k), 2) \o << <<"path", g>> >>) ELSE Same
Param(k) == \E g \in Geos : Act("parametric", k, g, <<>>, TRUE) /\ Drawn(k, << <<"x1", g>>, <<"x2", g>>, <<"x3", g>> >>)
Animate(k) == P(k).kind = "static" /\ \E g \in Geos : Act("animate", k, g, <<>>, TRUE) /\ Drawn(k, Hole(P(k), 3) \o << <<"path", g>> >>)
Clear(k) == /\ P(k).cur # 0 /\ Act("clear", k, 0, <<>>, TRUE)
            /\ world' = Wipe(world, k) /\ calls' = [calls EXCEPT ![P(k).cur] = 0]
Show(k) == P(k).cur # 0 /\ Act("show", k, 0, <<>>, TRUE) /\ Same
Save(k) == P(k).cur # 0 /\ Act("save", k, 0, <<>>, TRUE) /\ Same
Emit == (EMIT /\ Len(acts') = MAXACT) => PrintT("BEH|" \o ToJson(acts'))
Next == Len(acts) < MAXACT /\ (Make \/ \E k \in 1..Len(world.plotters) : Plot(k) \/ Plot2(k) \/ Param(k) \/ Animate(k) \/ Clear(k) \/ Show(k) \/ Save(k)) /\ Emit
MSpec == Init /\ [][Next]_cvars
Count(c, t) == Cardinality({i \in 1..Len(c.items) : c.items[i][1] = t})
(* every drawing call shows exactly once, on one canvas of its plotter            *)
OncePerCall == \A i \in 1..Len(world.canvases) :
  LET c == world.canvases[i] IN Count(c, "path") + Count(c, "x1") = calls[i] /\ Count(c, "x1") = Count(c, "x3")
HoleAsAsked == \A i \in 1..Len(world.canvases) :
  LET c == world.canvases[i] IN Count(c, "horizon") = Count(c, "path") /\ Count(c, "ergosphere") = IF P(c.owner).ergo THEN Count(c, "path") ELSE 0
(* an operation changes no canvas but the present one of the plotter it is on     *)
Others == [][\A i \in 1..Len(world.canvases) : (LET a == acts'[Len(acts')] IN a.on = 0 \/ P(a.on).cur # i) => world'.canvases[i] = world.canvases[i]]_cvars
=============================================================================
