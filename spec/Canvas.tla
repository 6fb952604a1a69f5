-------------------------------- MODULE Canvas --------------------------------
(***************************************************************************)
(* Plotters and what they have drawn.                                         *)
(*                                                                             *)
(* A canvas is a figure with the items drawn on it, in order.  A static        *)
(* plotter starts a new canvas with every plot; an interactive one has one      *)
(* canvas and adds to it.  Clearing empties the plotter's present canvas.  No   *)
(* operation of a plotter touches a canvas of another, or one it has left.      *)
(*   world = [plotters |-> <<[kind, ergo, cur, ...]>>, canvases |-> <<[owner, items, lay]>>]    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC
Empty == [plotters |-> <<>>, canvases |-> <<>>]
NoLay == [title |-> "", aspect |-> "", labels |-> <<>>, size |-> <<>>]
Enter(w, p) ==            \* p: the plotter's record without cur
  LET k == Len(w.plotters) + 1
      cv == IF p.kind = "interactive" THEN Append(w.canvases, [owner |-> k, items |-> <<>>, lay |-> NoLay]) ELSE w.canvases
  IN [plotters |-> Append(w.plotters, [cur |-> IF p.kind = "interactive" THEN Len(cv) ELSE 0] @@ p), canvases |-> cv]
Draw(w, k, items, lay) ==
  LET p == w.plotters[k]
  IN IF p.kind = "interactive"
     THEN [w EXCEPT !.canvases[p.cur].items = @ \o items, !.canvases[p.cur].lay = lay]
     ELSE [plotters |-> [w.plotters EXCEPT ![k].cur = Len(w.canvases) + 1],
           canvases |-> Append(w.canvases, [owner |-> k, items |-> items, lay |-> lay])]
Wipe(w, k) == [w EXCEPT !.canvases[w.plotters[k].cur].items = <<>>, !.canvases[w.plotters[k].cur].lay = NoLay]
Lay(w, k) == IF w.plotters[k].cur = 0 THEN NoLay ELSE w.canvases[w.plotters[k].cur].lay

(* what a call draws, as tags: the hole's horizon, its ergosphere if wanted, the path *)
Hole(p, dim) == <<<<"horizon", dim>>>> \o IF p.ergo THEN <<<<"ergosphere", dim>>>> ELSE <<>>
Views == {1, 2, 3}
GoodView(v) == Len(v) >= 2 /\ v[1] \in Views /\ v[2] \in Views
AspectsOf(kind) == IF kind = "static" THEN {"auto", "equal", "equalxy", "equalyz", "equalxz"} ELSE {"auto", "data", "manual", "cube"}
=============================================================================
