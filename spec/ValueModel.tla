----------------------------- MODULE ValueModel -----------------------------
(***************************************************************************)
(* C09: histories of substitution, simplification and lambdification of one  *)
(* tensor.  A component is a polynomial in a coordinate x and parameters a, b, *)
(* a list of monomials [k, ex]; substituting s := of + k (of a symbol or "")  *)
(* expands every power of s.  A list of substitutions is made one after the   *)
(* other, in the order given.  Whatever happened, an object's value is the     *)
(* original polynomial in the environment that its substitutions make, taken   *)
(* from the last to the first: the rule the trace specification applies to     *)
(* arbitrary expressions.                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MAXLEN
VARIABLES objs, path
vvars == <<objs, path>>
Syms == {"x", "a", "b"}
Env0 == [x |-> 3, a |-> 5, b |-> -2]
Mono(k, i, j, l) == [k |-> k, ex |-> [x |-> i, a |-> j, b |-> l]]
P0 == <<Mono(1,0,0,0), Mono(2,1,0,0), Mono(-1,0,1,0), Mono(4,0,0,1), Mono(3,0,1,1), Mono(7,2,1,0)>>
RECURSIVE Pw(_,_)
Pw(v, m) == IF m = 0 THEN 1 ELSE v * Pw(v, m-1)
RECURSIVE Bin(_,_)
Bin(m, r) == IF r = 0 \/ r = m THEN 1 ELSE Bin(m-1, r-1) + Bin(m-1, r)
RECURSIVE PVal(_,_)
PVal(p, e) == IF p = <<>> THEN 0 ELSE p[1].k * Pw(e.x, p[1].ex.x) * Pw(e.a, p[1].ex.a) * Pw(e.b, p[1].ex.b) + PVal(Tail(p), e)
SubM(m, s, of, k) ==
  LET d == m.ex[s]  rest == [m.ex EXCEPT ![s] = 0] IN
  IF of = "" THEN <<[k |-> m.k * Pw(k, d), ex |-> rest]>>
  ELSE [r \in 1..d+1 |-> [k |-> m.k * Bin(d, r-1) * Pw(k, d-r+1), ex |-> [rest EXCEPT ![of] = @ + r - 1]]]
RECURSIVE SubP(_,_)
SubP(p, b) == IF p = <<>> THEN <<>> ELSE SubM(p[1], b.s, b.of, b.k) \o SubP(Tail(p), b)
RECURSIVE SubAll(_,_)
SubAll(p, bs) == IF bs = <<>> THEN p ELSE SubAll(SubP(p, bs[1]), Tail(bs))
(* the environment that a list of substitutions makes of e                    *)
BVal(b, e) == b.k + (IF b.of = "" THEN 0 ELSE e[b.of])
RECURSIVE EnvBy(_,_)
EnvBy(bs, e) == IF bs = <<>> THEN e ELSE LET f == EnvBy(Tail(bs), e) IN [f EXCEPT ![bs[1].s] = BVal(bs[1], f)]
Obj0 == [p |-> P0, sb |-> <<>>]
Apply(o, bs) == [p |-> SubAll(o.p, bs), sb |-> o.sb \o bs]
N(s) == [s |-> s, of |-> "", k |-> IF s = "a" THEN 2 ELSE -4]
By(s, t) == [s |-> s, of |-> t, k |-> 1]
Next1 == [x |-> "a", a |-> "b", b |-> "x"]
Singles == {<<N(s)>> : s \in Syms} \cup {<<By(s, Next1[s])>> : s \in Syms} \cup {<<By("x", "x")>>}
Pairs == {<<f, g>> : f \in {N(s) : s \in Syms} \cup {By(s, Next1[s]) : s \in Syms}, g \in {N(s) : s \in Syms} \cup {By(s, Next1[s]) : s \in Syms}}
Lists == Singles \cup {q \in Pairs : q[1].s # q[2].s /\ (q[1].of = "" \/ q[2].of = "")}
Emit(p) == PrintT("BEH|" \o ToJson(p))
VInit == objs = <<Obj0>> /\ path = <<>>
Record(st) == path' = Append(path, st) /\ Emit(path')
VNext == /\ Len(path) < MAXLEN
         /\ \E i \in 1..Len(objs) :
              \/ \E bs \in Lists : objs' = Append(objs, Apply(objs[i], bs)) /\ Record([op |-> "subs", on |-> i, by |-> bs])
              \/ \E inplace \in BOOLEAN : objs' = objs /\ Record([op |-> "simplify", on |-> i, inplace |-> inplace])
              \/ i = 1 /\ \E args \in {"default", "listed", "permuted", "more"} : objs' = objs /\ Record([op |-> "lambdify", on |-> i, args |-> args])
VSpec == VInit /\ [][VNext]_vvars
ValuePreserved == \A i \in 1..Len(objs) : PVal(objs[i].p, Env0) = PVal(P0, EnvBy(objs[i].sb, Env0))
OriginalKept == objs[1] = Obj0
=============================================================================
