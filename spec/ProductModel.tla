----------------------------- MODULE ProductModel -----------------------------
(***************************************************************************)
(* Products of two tensors of rank at most MAXRANK and MAXTOTAL indices in all: *)
(* every pair of index configurations and every choice of the contracted pair of positions        *)
(* (i = j = -1: none), with exact components.                                 *)
(***************************************************************************)
EXTENDS TensorTrace
CONSTANTS MAXRANK, MAXTOTAL
VARIABLES ca, cb, ii, jj
pvars == <<ca, cb, ii, jj>>
n0 == 2
A(c) == [cfg |-> c, val |-> [i \in 1..IPow(n0, Len(c)) |-> QI(i*i + 3*i + 1)]]
B(c) == [cfg |-> c, val |-> [i \in 1..IPow(n0, Len(c)) |-> QI(5*i - 7)]]
AllCfg == UNION {[1..r -> {"u", "l"}] : r \in 0..MAXRANK}
PInit == /\ ca \in AllCfg /\ cb \in AllCfg /\ Len(ca) + Len(cb) <= MAXTOTAL /\ ii = -2 /\ jj = -2
         /\ sid = 0 /\ pos = 0 /\ st = <<>>
Choose(i, j) == /\ ii' = i /\ jj' = j /\ UNCHANGED <<ca, cb, sid, pos, st>>
                /\ PrintT("BEH|" \o ToJson([a |-> ca, b |-> cb, i |-> i, j |-> j]))
PNext == ii = -2 /\ \/ Choose(-1, -1)
                    \/ \E i \in 0..Len(ca)-1 : \E j \in 0..Len(cb)-1 : Choose(i, j)
PSpec == PInit /\ [][PNext]_<<ca, cb, ii, jj, sid, pos, st>>
NoStep(s, e) == s
Res == IF ii = -1 THEN Outer(n0, A(ca), B(cb)) ELSE Contract(n0, A(ca), B(cb), ii+1, jj+1)
Shape == ii >= -1 => Len(Res) = IPow(n0, Len(ca) + Len(cb) - (IF ii = -1 THEN 0 ELSE 2))
(* the contraction is the partial trace of the outer product                  *)
IsPartialTrace == ii >= 0 =>
  LET o == Outer(n0, A(ca), B(cb))  r == Len(ca) + Len(cb)
      res == Res
      pI == ii + 1  pJ == Len(ca) + jj + 1
  IN \A p \in 1..Len(res) :
       LET ix == Idx(n0, r-2, p)
           full(m) == InsertAt(InsertAt(ix, pI, m), pJ, m)
       IN IsZero(NSub(res[p], NSum([m \in 1..n0 |-> o[Flat(n0, full(m-1))]])))
=============================================================================
