--------------------------- MODULE SpacetimeTrace ---------------------------
(***************************************************************************)
(* C10: constructions of predefined metrics and catalogue searches recorded   *)
(* from the code, judged against the catalogue of Spacetimes.                 *)
(***************************************************************************)
EXTENDS TraceBase, Spacetimes
Lo == "abcdefghijklmnopqrstuvwxyz"
Up == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Ch(s, i) == SubSeq(s, i, i)
LowerCh(x) == IF \E i \in 1..26 : Ch(Up, i) = x THEN Ch(Lo, CHOOSE i \in 1..26 : Ch(Up, i) = x) ELSE x
Chars(s) == TLCEval([i \in 1..Len(s) |-> LowerCh(Ch(s, i))])
LowName == TLCEval([i \in 1..Len(Catalogue) |-> Chars(Catalogue[i].name)])
Contains(w, x) == \E i \in 0..(Len(w) - Len(x)) : \A j \in 1..Len(x) : w[i+j] = x[j]
Found(query) == LET x == Chars(query) IN {Catalogue[i].name : i \in {m \in 1..Len(Catalogue) : Contains(LowName[m], x)}}
FindOp(s, e) ==
  R(s, << <<"search finds exactly the spacetimes whose name contains the query", SetOf(e.result) = Found(e.query)>>,
          <<"no name is listed twice", Len(e.result) = Cardinality(SetOf(e.result))>> >>)
(* e.pars[j]: tree of the j-th parameter over coordinates and base parameters *)
Value(t, pt, base) == JEval(4, 0, t, pt, base)[1]
SpacetimeOp(s, e) ==
  LET i == ByName(e.name)
      entry == Catalogue[i]
      g(x) == LET pr == TLCEval([j \in 1..Len(e.pars) |-> Value(e.pars[j], e.points[x].pt, e.points[x].base)])
                  m == TLCEval(MetricJets(4, 0, entry.g, e.points[x].pt, pr))
              IN TLCEval([q \in 1..16 |-> m[q][1]])
  IN R(s, << <<"known spacetime", e.name \in Names>>,
             <<"construction succeeds", e.exc = "">>,
             <<"is a covariant metric tensor", e.exc = "" => e.cls = "MetricTensor" /\ e.config = "ll">>,
             <<"name of the metric", e.exc = "" => e.mname = entry.mname>>,
             <<"coordinates", e.exc = "" => e.coords = entry.coords>>,
             <<"default parameters stay symbolic and given ones are substituted",
                e.exc = "" => SetOf(e.free) \subseteq SetOf(e.expected) /\ (e.generic => SetOf(e.free) = SetOf(e.expected))>>,
             <<"components of the documented line element",
                e.exc = "" => \A x \in 1..Len(e.points) : EqvEach(e.points[x].val, g(x), P10(-12), P10(-3))>> >>)
(* a tensor computed by the library from a predefined metric, at a point      *)
LawOp(s, e) ==
  LET i == ByName(e.name)
      pr == TLCEval([j \in 1..Len(e.pars) |-> Value(e.pars[j], e.pt, e.base)])
      cv == TLCEval(Curvature(4, 2, TLCEval(MetricJets(4, 2, Catalogue[i].g, e.pt, pr))))
      sc == TLCEval(QMax(Q1, Scale(cv)))
  IN R(s, << <<"Ricci tensor of the predefined spacetime", e.exc = "" /\ EqvSeq(e.ricci, [q \in 1..16 |-> cv.ricci[q][1]], P10(-12), sc)>> >>)
TStep(s, e) ==
  CASE e.op = "find" -> FindOp(s, e)
    [] e.op = "spacetime" -> SpacetimeOp(s, e)
    [] e.op = "law" -> LawOp(s, e)
    [] OTHER -> R(s, << <<"unknown event " \o e.op, FALSE>> >>)
=============================================================================
