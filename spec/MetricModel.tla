----------------------------- MODULE MetricModel -----------------------------
(***************************************************************************)
(* Call histories on a metric tensor and everything obtained from it: inv(), *)
(* lower_config(), change_config(x), a Lorentz transformation or an in-place   *)
(* simplification of any object seen so far.  The exact components are part of  *)
(* the state, and the covariant metric each object belongs to.                *)
(***************************************************************************)
EXTENDS Geometry, Json
CONSTANTS MAXLEN
VARIABLES home, objs, path
mvars == <<home, objs, path>>
n == 2
G == <<QI(-2), Q(1, 3), Q(1, 3), QI(5)>>
Inv(v) == NumInv(n, v)
Val(g, c) == IF c = "ll" THEN g ELSE Inv(g)
L == <<Q1, QI(2), Q(1, 2), Q(-1, 1)>>
Mul2(a, b) == [q \in 1..4 |-> LET i == (q-1) \div 2  j == (q-1) % 2 IN NAdd(NMul(a[i*2+1], b[j+1]), NMul(a[i*2+2], b[j+3]))]
Tr(a) == <<a[1], a[3], a[2], a[4]>>
Opp(c) == IF c = "ll" THEN "uu" ELSE "ll"
MInit == home \in {"ll", "uu"} /\ objs = <<[cfg |-> home, val |-> Val(G, home), g |-> G]>> /\ path = <<>>
At(i) == objs[i]
InverseOf(o) == [o EXCEPT !.cfg = Opp(@), !.val = Inv(@)]
Moved(o) == LET li == Inv(L) IN
  [o EXCEPT !.g = Mul2(Tr(li), Mul2(@, li)), !.val = IF o.cfg = "uu" THEN Mul2(L, Mul2(@, Tr(L))) ELSE Mul2(Tr(li), Mul2(@, li))]
Targets == {"ll", "uu", "ul", "lu", "u", "xx", ""}
Result(op, i, to) ==
  CASE op = "inv" -> InverseOf(At(i))
    [] op = "lower" -> IF At(i).cfg = "ll" THEN At(i) ELSE InverseOf(At(i))
    [] op = "transform" -> Moved(At(i))
    [] op = "msimplify" -> At(i)
    [] op = "mchange" -> IF to = At(i).cfg \/ to \notin {"ll", "uu"} THEN At(i) ELSE InverseOf(At(i))
Act(op, i, to) ==
  /\ objs' = Append(objs, Result(op, i, to))
  /\ path' = Append(path, [op |-> op, on |-> i, to |-> to])
  /\ PrintT("BEH|" \o ToJson([home |-> home, path |-> path']))
  /\ UNCHANGED home
MNext == /\ Len(path) < MAXLEN
         /\ \E i \in 1..Len(objs) : Act("inv", i, "") \/ Act("lower", i, "") \/ Act("transform", i, "") \/ Act("msimplify", i, "") \/ \E to \in Targets : Act("mchange", i, to)
MSpec == MInit /\ [][MNext]_mvars
OnlyTwo == \A i \in 1..Len(objs) : objs[i].cfg \in {"ll", "uu"}
Consistent == \A i \in 1..Len(objs) : LET w == Val(objs[i].g, objs[i].cfg) IN \A k \in 1..n*n : IsZero(NSub(objs[i].val[k], w[k]))
=============================================================================
