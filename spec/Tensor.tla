------------------------------- MODULE Tensor -------------------------------
(***************************************************************************)
(* Tensors over jets and the curvature pipeline of (pseudo-)Riemannian      *)
(* geometry.  A rank-r tensor in dimension n is the flat row-major sequence *)
(* of its n^r components; each component is a jet (Jet.tla).  VALUES of a    *)
(* tensor are the degree-0 coefficients.                                    *)
(***************************************************************************)
EXTENDS Jet

RECURSIVE IPow(_,_)
IPow(n, r) == IF r = 0 THEN 1 ELSE n * IPow(n, r-1)
(* digits (0-based indices) of flat position p in rank r *)
Idx(n, r, p) == [k \in 1..r |-> ((p-1) \div IPow(n, r-k)) % n]
RECURSIVE FlatI(_,_,_)
FlatI(n, ix, k) == IF k = 0 THEN 0 ELSE FlatI(n, ix, k-1) * n + ix[k]
Flat(n, ix) == 1 + FlatI(n, ix, Len(ix))

Values(t) == [i \in 1..Len(t) |-> t[i][1]]
MatAt(n, m, i, j) == m[(i-1)*n + j]          \* rank 2, 1-based

RECURSIVE JSum(_,_,_)
JSum(s, i, acc) == IF i > Len(s) THEN acc ELSE JSum(s, i+1, JAdd(acc, s[i]))
JSumSeq(s) == JSum(s, 2, s[1])

-----------------------------------------------------------------------------
(* inverse of a numeric matrix (flat, n x n) by Gauss-Jordan with pivoting   *)
RECURSIVE GJ(_,_,_)
GJ(n, rows, c) ==      \* rows: sequence of n rows of length 2n
  IF c > n THEN rows
  ELSE LET piv == CHOOSE r \in c..n : /\ ~IsZero(rows[r][c])
                                      /\ \A q \in c..n : QLe(QAbs(rows[q][c]), QAbs(rows[r][c]))
           sw == [r \in 1..n |-> IF r = c THEN rows[piv] ELSE IF r = piv THEN rows[c] ELSE rows[r]]
           pr == TLCEval([j \in 1..2*n |-> NDiv(sw[c][j], sw[c][c])])
           nw == TLCEval([r \in 1..n |-> IF r = c THEN pr
                     ELSE IF IsZero(sw[r][c]) THEN sw[r]
                     ELSE QLin(Q1, sw[r], QNeg(sw[r][c]), pr, 2*n, PREC)])
       IN GJ(n, nw, c+1)
NumInv(n, m) ==
  LET rows == TLCEval([r \in 1..n |-> TLCEval([j \in 1..2*n |->
                 IF j <= n THEN MatAt(n, m, r, j) ELSE IF j - n = r THEN Q1 ELSE Q0])])
      res == GJ(n, rows, 1)
  IN TLCEval([p \in 1..n*n |-> res[((p-1) \div n) + 1][n + ((p-1) % n) + 1]])

(* products of n x n matrices of jets *)
JMatMul(n, a, b) ==
  TLCEval([p \in 1..n*n |->
    LET i == ((p-1) \div n) + 1  j == ((p-1) % n) + 1
    IN JSumSeq([k \in 1..n |-> JMul(n, MatAt(n, a, i, k), MatAt(n, b, k, j))])])
JMatInv0(n, K, m, x) ==   \* one Newton step x(2 - m x)
  LET mx == JMatMul(n, m, x)
      t == TLCEval([p \in 1..n*n |-> IF (p-1) \div n = (p-1) % n
                   THEN JSub(TLCEval(JConst(n, K, Q2)), mx[p]) ELSE JNeg(mx[p])])
  IN JMatMul(n, x, t)
(* inverse of a matrix of jets of order K *)
JMatInv(n, K, m) ==
  LET v == NumInv(n, Values(m))
      x0 == TLCEval([p \in 1..n*n |-> TLCEval(JConst(n, K, v[p]))])
  IN IF K = 0 THEN x0
     ELSE LET x1 == JMatInv0(n, K, m, x0)
          IN IF K = 1 THEN x1 ELSE JMatInv0(n, K, m, x1)

(* metric of jets from n*n expression trees *)
MetricJets(n, K, comps, pt, pr) ==
  TLCEval([p \in 1..n*n |->
     LET i == ((p-1) \div n) + 1  j == ((p-1) % n) + 1
     IN IF j >= i THEN JEval(n, K, comps[p], pt, pr) ELSE JEval(n, K, comps[(j-1)*n + i], pt, pr)])

-----------------------------------------------------------------------------
(* Gamma^i_jk, jets one order lower; symmetric in j,k                        *)
DMetric(n, g) == TLCEval([w \in 1..n |-> TLCEval([p \in 1..n*n |-> JD(n, w, g[p])])])
LowerGamma(n, dg) ==      \* [ij,k] first kind with derivative index order: G_m,jk
  TLCEval([p \in 1..n*n*n |->
    LET ix == Idx(n, 3, p)  m == ix[1]+1  j == ix[2]+1  k == ix[3]+1
    IN JScale(QHalf, JSub(JAdd(MatAt(n, dg[k], m, j), MatAt(n, dg[j], m, k)), MatAt(n, dg[m], j, k)))])
Gamma(n, g, gi) ==
  LET lg == LowerGamma(n, DMetric(n, g))
  IN TLCEval([p \in 1..n*n*n |->
       LET ix == Idx(n, 3, p)  i == ix[1]+1  j == ix[2]  k == ix[3]
       IN JSumSeq([m \in 1..n |-> JMul(n, MatAt(n, gi, i, m), lg[Flat(n, <<m-1, j, k>>)])])])
G3(n, Gm, i, j, k) == Gm[((i*n) + j)*n + k + 1]
(* R^t_srm = d_r G^t_sm - d_m G^t_sr + G^p_sm G^t_pr - G^p_sr G^t_pm          *)
DGamma(n, Gm) == TLCEval([w \in 1..n |-> TLCEval([p \in 1..n*n*n |-> JD(n, w, Gm[p])])])
Riemann(n, Gm) ==
  LET dG == DGamma(n, Gm)
  IN TLCEval([q \in 1..n*n*n*n |->
      LET ix == Idx(n, 4, q)  t == ix[1]  s == ix[2]  r == ix[3]  m == ix[4]
          lin == JSub(G3(n, dG[r+1], t, s, m), G3(n, dG[m+1], t, s, r))
      IN IF r = m THEN JScale(Q0, lin)
         ELSE JAdd(lin, JSumSeq([p \in 1..n |->
                JSub(JMul(n, G3(n, Gm, p-1, s, m), G3(n, Gm, t, p-1, r)),
                     JMul(n, G3(n, Gm, p-1, s, r), G3(n, Gm, t, p-1, m)))]))])
Ricci(n, R) ==
  TLCEval([q \in 1..n*n |->
    LET ix == Idx(n, 2, q)  s == ix[1]  m == ix[2]
    IN JSumSeq([t \in 1..n |-> R[Flat(n, <<t-1, s, t-1, m>>)]])])
ScalarOf(n, gi, Ric) == JSumSeq([q \in 1..n*n |-> JMul(n, gi[q], Ric[q])])
Einstein(n, g, Ric, S) ==
  TLCEval([q \in 1..n*n |-> JSub(Ric[q], JScale(QHalf, JMul(n, S, g[q])))])
(* lower the first index of a rank r tensor with g *)
LowerFirst(n, r, g, t) ==
  TLCEval([q \in 1..IPow(n, r) |->
    LET ix == Idx(n, r, q)
    IN JSumSeq([a \in 1..n |-> JMul(n, MatAt(n, g, ix[1]+1, a), t[Flat(n, [ix EXCEPT ![1] = a-1])])])])
(* contract matrix m into index position k (1-based) of a rank r tensor      *)
ApplyAt(n, r, m, k, t) ==
  TLCEval([q \in 1..IPow(n, r) |->
    LET ix == Idx(n, r, q)
    IN JSumSeq([a \in 1..n |-> JMul(n, MatAt(n, m, ix[k]+1, a), t[Flat(n, [ix EXCEPT ![k] = a-1])])])])
Schouten(n, g, Ric, S) ==
  TLCEval([q \in 1..n*n |->
     JScale(Q(1, n-2), JSub(Ric[q], JScale(Q(1, 2*(n-1)), JMul(n, S, g[q]))))])
(* C_iklm = R_iklm - (g_il P_km + g_km P_il - g_im P_kl - g_kl P_im)          *)
Weyl(n, g, Rl, P) ==
  TLCEval([q \in 1..n*n*n*n |->
    LET ix == Idx(n, 4, q)  i == ix[1]+1  k == ix[2]+1  l == ix[3]+1  m == ix[4]+1
    IN JSub(Rl[q],
         JSub(JAdd(JMul(n, MatAt(n, g, i, l), MatAt(n, P, k, m)), JMul(n, MatAt(n, g, k, m), MatAt(n, P, i, l))),
              JAdd(JMul(n, MatAt(n, g, i, m), MatAt(n, P, k, l)), JMul(n, MatAt(n, g, k, l), MatAt(n, P, i, m)))))])

(* everything at once, for a metric given as jets of order K >= 2            *)
Curvature(n, K, g) ==
  LET gi == JMatInv(n, K, g)
      Gm == Gamma(n, g, gi)
      R == Riemann(n, Gm)
      Ric == Ricci(n, R)
      S == ScalarOf(n, gi, Ric)
  IN [g |-> g, gi |-> gi, gamma |-> Gm, riemann |-> R, ricci |-> Ric, scalar |-> S,
      einstein |-> Einstein(n, g, Ric, S)]
=============================================================================
