----------------------------- MODULE QPTheory -----------------------------
(* Convex quadratic programs over the integers, and exact certificates for their three possible verdicts:
     min 1/2 x'Hx + g'x   s.t.  lb <= x <= ub,  lbA <= Ax <= ubA
   A QP is a record [n,m,H,A,g,lb,ub,lbA,ubA]; +-INF stands for an absent limit.  *)
EXTENDS Integers, Sequences, TLC
INF == 1000000
Fin(v) == v < INF /\ v > -INF
Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
RECURSIVE SumTo(_, _)
SumTo(f, k) == IF k = 0 THEN 0 ELSE SumTo(f, k - 1) + f[k]
Sum(f) == SumTo(f, Len(f))
RECURSIVE DotTo(_, _, _)
DotTo(a, b, k) == IF k = 0 THEN 0 ELSE DotTo(a, b, k - 1) + a[k] * b[k]
Dot(a, b) == DotTo(a, b, Len(a))
Vec(n, Op(_)) == TLCEval([i \in 1..n |-> Op(i)])
Mat(r, c, Op(_,_)) == TLCEval([i \in 1..r |-> TLCEval([j \in 1..c |-> Op(i, j)])])
MulV(M, x) == TLCEval([i \in 1..Len(M) |-> Dot(M[i], x)])
RECURSIVE ColDotTo(_, _, _, _)
ColDotTo(M, y, j, k) == IF k = 0 THEN 0 ELSE ColDotTo(M, y, j, k - 1) + M[k][j] * y[k]
ColDot(M, y, j) == ColDotTo(M, y, j, Len(M))                 \* (M'y)_j
TMulV(M, n, y) == TLCEval([j \in 1..n |-> ColDot(M, y, j)])
RECURSIVE AbsSumTo(_, _)
AbsSumTo(a, k) == IF k = 0 THEN 0 ELSE AbsSumTo(a, k - 1) + Abs(a[k])
AbsSum(a) == AbsSumTo(a, Len(a))
AbsColSum(M, j) == AbsSum([k \in 1..Len(M) |-> M[k][j]])
LLt(L, n) == Mat(n, n, LAMBDA i, j : DotTo(L[i], L[j], n))
InBox(v, lo, hi) == lo <= v /\ v <= hi
Feasible(q, x) == /\ \A i \in 1..q.n : InBox(x[i], q.lb[i], q.ub[i])
                  /\ LET ax == MulV(q.A, x) IN \A i \in 1..q.m : InBox(ax[i], q.lbA[i], q.ubA[i])
SignOK(v, y, lo, hi) == \/ y = 0 \/ (y > 0 /\ v = lo) \/ (y < 0 /\ v = hi)
KKT(q, x, y) ==                                              \* sufficient and necessary for optimality of a convex QP
  /\ Feasible(q, x)
  /\ LET hx == MulV(q.H, x) IN \A j \in 1..q.n :
        hx[j] + q.g[j] = y[j] + ColDot(q.A, SubSeq(y, q.n + 1, q.n + q.m), j)
  /\ \A i \in 1..q.n : SignOK(x[i], y[i], q.lb[i], q.ub[i])
  /\ LET ax == MulV(q.A, x) IN \A i \in 1..q.m : SignOK(ax[i], y[q.n + i], q.lbA[i], q.ubA[i])
Farkas(q, y) ==                                              \* certifies emptiness of the feasible set
  LET yc == SubSeq(y, q.n + 1, q.n + q.m)
      used(v, lo, hi) == IF v > 0 THEN lo ELSE IF v < 0 THEN hi ELSE 0
      lim == [k \in 1..(q.n + q.m) |-> IF k <= q.n THEN used(y[k], q.lb[k], q.ub[k]) ELSE used(y[k], q.lbA[k - q.n], q.ubA[k - q.n])]
  IN /\ \A j \in 1..q.n : y[j] + ColDot(q.A, yc, j) = 0
     /\ \A k \in 1..(q.n + q.m) : Fin(lim[k])
     /\ DotTo(y, lim, q.n + q.m) > 0
Crossing(q) == (\E i \in 1..q.n : q.lb[i] > q.ub[i]) \/ (\E i \in 1..q.m : q.lbA[i] > q.ubA[i])
Ray(q, x, d) ==                                              \* x feasible and f -> -inf along x + t d
  /\ Feasible(q, x)
  /\ \A i \in 1..q.n : Dot(q.H[i], d) = 0
  /\ Dot(q.g, d) < 0
  /\ \A i \in 1..q.n : (d[i] > 0 => q.ub[i] >= INF) /\ (d[i] < 0 => q.lb[i] <= -INF)
  /\ LET ad == MulV(q.A, d) IN \A i \in 1..q.m : (ad[i] > 0 => q.ubA[i] >= INF) /\ (ad[i] < 0 => q.lbA[i] <= -INF)
Obj2(q, x) == Dot(x, MulV(q.H, x)) + 2 * Dot(q.g, x)         \* twice the objective, an integer
\* Linear independence of integer vectors, decided by elimination modulo a prime (independence mod P implies independence;
\* the converse may fail, which only makes the generator more cautious)
RECURSIVE ElimP(_, _, _)
ElimP(rows, cols, P) ==                                      \* rows: sequence of vectors over cols (sequence of columns)
  IF rows = <<>> THEN TRUE
  ELSE LET r == Head(rows) piv == {k \in 1..Len(cols) : r[cols[k]] % P # 0} IN
       IF piv = {} THEN FALSE
       ELSE LET c == cols[CHOOSE k \in piv : \A h \in piv : k <= h]
            IN ElimP(TLCEval([i \in 1..(Len(rows) - 1) |-> TLCEval([j \in DOMAIN r |-> (((rows[i + 1][j] % P) * (r[c] % P)) - ((r[j] % P) * (rows[i + 1][c] % P))) % P])]), cols, P)
Indep(rows, n, fixed) == ElimP(rows, SelectSeq([j \in 1..n |-> j], LAMBDA j : j \notin fixed), 10007)
CertOK(q) == CASE q.kind = "opt" -> KKT(q, q.xs, q.ys) /\ q.obj2 = Obj2(q, q.xs)
               [] q.kind = "sol" -> q.pd /\ Feasible(q, q.xs)
               [] q.kind = "inf" -> Crossing(q) \/ Farkas(q, q.ys)
               [] q.kind = "unb" -> Ray(q, q.xs, q.ds)
=============================================================================
