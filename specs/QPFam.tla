------------------------------- MODULE QPFam -------------------------------
(* Families of convex QPs sharing Hessian and constraint matrix, and QPs of a family built around a planted certificate:
   an optimal primal-dual pair, a Farkas multiplier, or a direction of unboundedness. *)
EXTENDS Rand, QPTheory, FiniteSets
Fam(s, p) ==
  LET n == Rnd(s, 1, p.nlo, p.nhi)
      hk == Pick(s, 3, p.hes)
      zero == [i \in 1..n |-> hk = "zero" \/ (hk = "semi" /\ (i = 1 + (Hash(s, 4) % n) \/ Chance(s, 60 + i, 35)))]
      L == Mat(n, n, LAMBDA i, j : IF zero[i] \/ j > i THEN 0
                 ELSE IF i = j THEN (IF hk = "id" THEN 1 ELSE Rnd(s, 100 + i, 1, 2))
                 ELSE IF hk \in {"pd", "semi", "indef"} /\ ~zero[j] THEN (IF Chance(s, 200 + 10 * i + j, 50) THEN Rnd(s, 300 + 10 * i + j, -1, 1) ELSE 0) ELSE 0)
      \* "semi" additionally gets genuinely rank deficient (not only zero rows) when the draw says so
      L2 == IF hk = "semi" /\ Chance(s, 5, 50) /\ n > 1
              THEN LET k == 2 + (Hash(s, 6) % (n - 1)) IN Mat(n, n, LAMBDA i, j : IF i = k THEN L[1 + (Hash(s, 7) % (k - 1))][j] ELSE L[i][j]) ELSE L
      m == Rnd(s, 2, p.mlo, p.mhi)
      base == Mat(m, n, LAMBDA i, j : IF Chance(s, 400 + 10 * i + j, 55) THEN Rnd(s, 600 + 10 * i + j, -p.amag, p.amag) ELSE 0)
      kind == [i \in 1..m |-> IF Chance(s, 790 + i, p.zrow) THEN 6 ELSE IF ~Chance(s, 800 + i, p.dep) THEN 0 ELSE Pick(s, 820 + i, IF i = 1 THEN <<5, 1>> ELSE IF i = 2 THEN <<1, 2, 3, 5>> ELSE <<1, 2, 2, 3, 4, 4, 5>>)]
      row1(i) == IF kind[i] = 0 THEN (IF \A j \in 1..n : base[i][j] = 0 THEN [j \in 1..n |-> IF j = 1 + (Hash(s, 840 + i) % n) THEN 1 ELSE 0] ELSE base[i])
                 ELSE [j \in 1..n |-> IF kind[i] = 1 /\ j = 1 + (Hash(s, 840 + i) % n) THEN 1 ELSE 0]
      b1 == TLCEval([i \in 1..m |-> TLCEval(row1(i))])
      A == Mat(m, n, LAMBDA i, j : LET a == 1 + (Hash(s, 860 + i) % Max2(1, i - 1)) b == 1 + (Hash(s, 880 + i) % Max2(1, i - 1)) IN
             CASE kind[i] = 6 -> 0 [] kind[i] = 2 -> b1[a][j] [] kind[i] = 3 -> -b1[a][j] [] kind[i] = 4 -> b1[a][j] + b1[b][j] [] OTHER -> b1[i][j])
  IN TLCEval([n |-> n, m |-> m, L |-> L2, H |-> IF hk # "indef" THEN LLt(L2, n) ELSE LET H0 == LLt(L2, n) k == 1 + (Hash(s, 21) % n) IN Mat(n, n, LAMBDA i, j : IF i = j /\ (i = k \/ Chance(s, 30 + i, 25)) THEN H0[i][j] - Rnd(s, 22 + i, 1, 6) ELSE H0[i][j]), A |-> A, hk |-> hk, flat |-> [i \in 1..n |-> zero[i] \/ L2[i][i] = 0 \/ (i > 1 /\ \E k \in 1..(i - 1) : L2[k] = L2[i])], pd |-> \A i \in 1..n : ~zero[i] /\ L2[i][i] # 0])

(* an optimal QP of the family with planted solution; roles: 0 both limits away, 1 no limit, 2 lower only, 3 upper only,
   4/5 active at lower/upper, 6 equality, 7/8 weakly active *)
Roles(p) == <<0, 0, 2, 3, 4, 4, 5, 5, 6>>
Role(s, k, p) == IF Chance(s, k, p.free) THEN 1 ELSE IF Chance(s, k + 500, p.deg) THEN Pick(s, k + 900, <<7, 8>>) ELSE Pick(s, k + 1200, Roles(p))
LoOf(r, v, s, k) == CASE r = 0 -> v - Rnd(s, k, 1, 5) [] r = 1 -> -INF [] r = 2 -> v - Rnd(s, k, 1, 5) [] r = 3 -> -INF [] r \in {4, 6, 7} -> v
                      [] r \in {5, 8} -> IF Chance(s, k, 50) THEN -INF ELSE v - Rnd(s, k + 1, 1, 6)
HiOf(r, v, s, k) == CASE r = 0 -> v + Rnd(s, k, 1, 5) [] r = 1 -> INF [] r = 3 -> v + Rnd(s, k, 1, 5) [] r = 2 -> INF [] r \in {5, 6, 8} -> v
                      [] r \in {4, 7} -> IF Chance(s, k, 50) THEN INF ELSE v + Rnd(s, k + 1, 1, 6)
DuOf(r, s, k) == CASE r = 4 -> Rnd(s, k, 1, 5) [] r = 5 -> -Rnd(s, k, 1, 5) [] r = 6 -> Rnd(s, k, -4, 4) [] OTHER -> 0
RECURSIVE LicqRoles(_, _, _, _, _, _, _)
LicqRoles(A, n, fixed, r0, i, acc, roles) ==           \* active limits stay linearly independent
  IF i > Len(A) THEN roles
  ELSE IF r0[i] < 4 THEN LicqRoles(A, n, fixed, r0, i + 1, acc, Append(roles, r0[i]))
  ELSE IF Indep(Append(acc, A[i]), n, fixed) THEN LicqRoles(A, n, fixed, r0, i + 1, Append(acc, A[i]), Append(roles, r0[i]))
  ELSE LicqRoles(A, n, fixed, r0, i + 1, acc, Append(roles, 0))
Parallel(a, b, n) == \A j, k \in 1..n : a[j] * b[k] = a[k] * b[j]
SlaterRole(r, t) == CASE r = 6 -> IF t = 0 THEN 6 ELSE IF t > 0 THEN 4 ELSE 5
                      [] r \in {4, 5} -> IF t = 0 THEN 0 ELSE IF t > 0 THEN 4 ELSE 5
                      [] r \in {7, 8} -> IF t = 0 THEN 0 ELSE IF t > 0 THEN 7 ELSE 8
                      [] OTHER -> r
(* omitted limit vectors: roles that need an omitted limit are mapped to roles that do not *)
NoLow(r) == CASE r \in {0, 4, 6, 7} -> 3 [] r = 2 -> 1 [] OTHER -> r
NoUp(r) == CASE r \in {0, 5, 6, 8} -> 2 [] r = 3 -> 1 [] OTHER -> r
Omit(r, lo, up) == LET a == IF lo THEN NoLow(r) ELSE r IN IF up THEN NoUp(a) ELSE a
MkOpt(f, s, p, far) ==
  LET n == f.n m == IF p.m0 THEN 0 ELSE f.m
      sc == IF far THEN 1000 ELSE 1
      x == Vec(n, LAMBDA i : sc * Rnd(s, i, -p.xsp, p.xsp))
      A == IF p.m0 THEN <<>> ELSE f.A
      ax == MulV(A, x)
      vertex == ~f.pd /\ (p.tame \/ Chance(s, 2200, 50))    \* flat directions are pinned by strictly active bounds
      pin(i) == vertex /\ f.flat[i]
      om == [k \in 1..4 |-> Chance(s, 2600, p.nulls) /\ (k > 2 \/ f.pd) /\ Chance(s, 2601 + k, 45)]
      rb0 == Vec(n, LAMBDA i : IF pin(i) THEN Pick(s, 2000 + i, <<4, 5>>) ELSE Role(s, 2000 + i, p))
      \* x + eps d is strictly feasible with respect to all inequalities: active sides follow the sign of d
      d == Vec(n, LAMBDA i : IF ~pin(i) /\ (rb0[i] = 6 \/ Chance(s, 2100 + i, 30)) THEN 0 ELSE Pick(s, 2150 + i, <<-2, -1, -1, 1, 1, 2>>))
      ad == MulV(A, d)
      rb == Vec(n, LAMBDA i : Omit(IF p.slater THEN SlaterRole(rb0[i], d[i]) ELSE rb0[i], om[1], om[2]))
      \* without ramping, coinciding limits (parallel rows, more active limits than variables) may stall the homotopy
      alone(i) == Cardinality({j \in 1..n : A[i][j] # 0}) > 1 /\ \A k \in 1..(i - 1) : ~Parallel(A[i], A[k], n) \/ \A j \in 1..n : A[k][j] = 0
      zr(i) == \A j \in 1..n : A[i][j] = 0                \* empty row: its limits must admit zero, its multiplier is zero
      rc0 == Vec(m, LAMBDA i : IF zr(i) THEN Omit(Pick(s, 2080 + i, IF p.tame THEN <<0, 1, 2, 3>> ELSE <<0, 1, 2, 3, 7, 8>>), om[3], om[4]) ELSE IF p.tame /\ ~alone(i) THEN 1 ELSE IF p.tame THEN Omit(Role(s, 2050 + i, p), om[3], om[4]) ELSE Role(s, 2050 + i, p))
      rc == IF p.tame THEN LicqRoles(A, n, {j \in 1..n : rb[j] >= 4}, rc0, 1, <<>>, <<>>)
            ELSE Vec(m, LAMBDA i : Omit(IF p.slater /\ ~zr(i) THEN SlaterRole(rc0[i], ad[i]) ELSE rc0[i], om[3], om[4]))
      y == Vec(n + m, LAMBDA k : IF k <= n THEN DuOf(rb[k], s, 3500 + k) ELSE DuOf(rc[k - n], s, 3500 + k))
      hx == MulV(f.H, x)
      g == Vec(n, LAMBDA j : y[j] + ColDot(A, SubSeq(y, n + 1, n + m), j) - hx[j])
      q == [n |-> n, m |-> m, H |-> f.H, A |-> A, g |-> g,
            \* without strict convexity the box is finite, so that the set of solutions is bounded
            lb |-> Vec(n, LAMBDA i : IF om[1] THEN -INF ELSE LET v == LoOf(rb[i], x[i], s, 3000 + 2 * i) IN IF ~f.pd /\ ~Fin(v) THEN x[i] - Rnd(s, 3400 + i, 2, 6) ELSE v),
            ub |-> Vec(n, LAMBDA i : IF om[2] THEN INF ELSE LET v == HiOf(rb[i], x[i], s, 3100 + 2 * i) IN IF ~f.pd /\ ~Fin(v) THEN x[i] + Rnd(s, 3450 + i, 2, 6) ELSE v),
            lbA |-> Vec(m, LAMBDA i : IF om[3] THEN -INF ELSE LoOf(rc[i], ax[i], s, 3200 + 2 * i)), ubA |-> Vec(m, LAMBDA i : IF om[4] THEN INF ELSE HiOf(rc[i], ax[i], s, 3300 + 2 * i)),
            kind |-> "opt", xs |-> x, ys |-> y, ds |-> <<>>, obj2 |-> 0, uniq |-> f.pd \/ vertex, deg |-> ~p.tame /\ ~p.slater, pd |-> f.pd, hk |-> f.hk]
  IN [q EXCEPT !.obj2 = Obj2(q, x)]
MkInf(f, s, p) ==
  LET q == MkOpt(f, s, p, FALSE) n == q.n m == q.m
      par == {ik \in (1..m) \X (1..m) : ik[1] < ik[2] /\ q.A[ik[1]] = q.A[ik[2]]}
      mode == IF par # {} /\ Chance(s, 5000, 50) THEN 2 ELSE 1
      r == 1 + (Hash(s, 5001) % Max2(1, m))
      up == Chance(s, 5002, 50)
      sup == SumTo([j \in 1..n |-> LET a == q.A[r][j] IN IF a = 0 THEN 0 ELSE IF up THEN a * (q.xs[j] + (IF a > 0 THEN 1 ELSE -1)) ELSE a * (q.xs[j] - (IF a > 0 THEN 1 ELSE -1))], n)
      gap == Rnd(s, 5003, 1, 3)
      slack == IF Chance(s, 5004, 50) THEN INF ELSE Rnd(s, 5005, 0, 3)
      ik == CHOOSE t \in par : TRUE
  IN IF m = 0 THEN LET i == 1 + (Hash(s, 5006) % n) IN [q EXCEPT !.kind = "inf", !.ys = [k \in 1..n |-> 0], !.lb[i] = q.xs[i] + gap, !.ub[i] = q.xs[i]]
     ELSE IF mode = 2 THEN [q EXCEPT !.kind = "inf", !.lbA[ik[1]] = Dot(q.A[1], q.xs) + gap, !.ubA[ik[1]] = IF slack = INF THEN INF ELSE Dot(q.A[1], q.xs) + gap + slack,
                                     !.ubA[ik[2]] = Dot(q.A[1], q.xs), !.lbA[ik[2]] = IF q.lbA[ik[2]] > Dot(q.A[1], q.xs) THEN -INF ELSE q.lbA[ik[2]],
                                     !.ys = [k \in 1..(n + m) |-> IF k = n + ik[1] THEN 1 ELSE IF k = n + ik[2] THEN -1 ELSE 0]]
     ELSE LET q1 == [q EXCEPT !.kind = "inf", !.lb = Vec(n, LAMBDA j : IF q.A[r][j] # 0 THEN q.xs[j] - 1 ELSE q.lb[j]), !.ub = Vec(n, LAMBDA j : IF q.A[r][j] # 0 THEN q.xs[j] + 1 ELSE q.ub[j])]
          IN IF up THEN [q1 EXCEPT !.lbA[r] = sup + gap, !.ubA[r] = IF slack = INF THEN INF ELSE sup + gap + slack,
                                   !.ys = [k \in 1..(n + m) |-> IF k = n + r THEN 1 ELSE IF k <= n THEN -q.A[r][k] ELSE 0]]
             ELSE [q1 EXCEPT !.ubA[r] = sup - gap, !.lbA[r] = IF slack = INF THEN -INF ELSE sup - gap - slack,
                                   !.ys = [k \in 1..(n + m) |-> IF k = n + r THEN -1 ELSE IF k <= n THEN q.A[r][k] ELSE 0]]
MkCross(f, s, p) ==
  LET q == MkOpt(f, s, p, FALSE) k == 1 + (Hash(s, 5010) % (q.n + q.m)) gap == Rnd(s, 5011, 1, 3) IN
  IF k <= q.n THEN [q EXCEPT !.kind = "inf", !.lb[k] = q.xs[k] + gap, !.ub[k] = q.xs[k], !.ys = [i \in 1..(q.n + q.m) |-> 0]]
  ELSE [q EXCEPT !.kind = "inf", !.lbA[k - q.n] = Dot(q.A[k - q.n], q.xs) + gap, !.ubA[k - q.n] = Dot(q.A[k - q.n], q.xs), !.ys = [i \in 1..(q.n + q.m) |-> 0]]
MkUnb(f, s, p) ==                                    \* falls back to an optimal QP if the family has no null direction
  LET q == MkOpt(f, s, p, FALSE) n == q.n
      nd == {j \in 1..n : \A i \in 1..n : q.H[i][j] = 0}
      pairs == {jk \in (1..n) \X (1..n) : jk[1] < jk[2] /\ f.L[jk[1]] = f.L[jk[2]]}
      usep == pairs # {} /\ (nd = {} \/ Chance(s, 5100, 40))
      j0 == 1 + (Hash(s, 5101) % n)
      j == IF j0 \in nd THEN j0 ELSE CHOOSE t \in nd : TRUE
      jk == CHOOSE t \in pairs : TRUE
      sg == IF Chance(s, 5102, 50) THEN 1 ELSE -1
      d == IF usep THEN [i \in 1..n |-> IF i = jk[1] THEN sg ELSE IF i = jk[2] THEN -sg ELSE 0] ELSE [i \in 1..n |-> IF i = j THEN sg ELSE 0]
      ad == MulV(q.A, d)
      gd == Dot(q.g, d) w == Rnd(s, 5103, 1, 3)
      k == IF usep THEN jk[1] ELSE j
  IN IF nd = {} /\ pairs = {} THEN q
     ELSE [q EXCEPT !.kind = "unb", !.ds = d,
             !.g[k] = IF gd < 0 THEN q.g[k] ELSE q.g[k] - d[k] * (gd + w),
             !.ub = Vec(n, LAMBDA i : IF d[i] > 0 THEN INF ELSE q.ub[i]), !.lb = Vec(n, LAMBDA i : IF d[i] < 0 THEN -INF ELSE q.lb[i]),
             !.ubA = Vec(q.m, LAMBDA i : IF ad[i] > 0 THEN INF ELSE q.ubA[i]), !.lbA = Vec(q.m, LAMBDA i : IF ad[i] < 0 THEN -INF ELSE q.lbA[i])]
(* q with one vector changed in one place (or another gradient) such that xs stays feasible: solvable, solution not known *)
Vary(q, s, tame) ==
  LET n == q.n m == q.m N == n + m
      v == [k \in 1..N |-> IF k <= n THEN q.xs[k] ELSE Dot(q.A[k - n], q.xs)]
      lo == q.lb \o q.lbA hi == q.ub \o q.ubA
      act == {k \in 1..N : lo[k] = v[k] \/ hi[k] = v[k]}
      k0 == 1 + (Hash(s, 5200) % N) nxt(S) == IF \E t \in S : t >= k0 THEN CHOOSE t \in S : t >= k0 /\ \A u \in S : u >= k0 => t <= u ELSE CHOOSE t \in S : \A u \in S : t <= u
      k == IF act # {} /\ Chance(s, 5201, 75) THEN nxt(act) ELSE k0
      up == IF hi[k] = v[k] /\ lo[k] # v[k] THEN Chance(s, 5202, 90) ELSE IF lo[k] = v[k] /\ hi[k] # v[k] THEN Chance(s, 5202, 10) ELSE Chance(s, 5202, 50)
      w == IF Chance(s, 5203, 30) THEN INF ELSE Rnd(s, 5204, 1, 6) nv == IF w = INF THEN IF up THEN INF ELSE -INF ELSE IF up THEN v[k] + w ELSE v[k] - w
      q1 == [q EXCEPT !.kind = "sol", !.ys = [i \in 1..N |-> 0], !.obj2 = 0, !.deg = tame \/ q.deg]
  IN IF Chance(s, 5205, 25) THEN [q1 EXCEPT !.g = Vec(n, LAMBDA j : IF Chance(s, 5210 + j, 50) THEN q.g[j] + Rnd(s, 5230 + j, -5, 5) ELSE q.g[j])]
     ELSE IF k <= n THEN IF up THEN [q1 EXCEPT !.ub[k] = nv] ELSE [q1 EXCEPT !.lb[k] = nv]
     ELSE IF up THEN [q1 EXCEPT !.ubA[k - n] = nv] ELSE [q1 EXCEPT !.lbA[k - n] = nv]
\* q with the Hessian of f2 and/or some entries of A changed such that xs stays feasible
VaryM(q, f2, s, tame) ==
  LET n == q.n m == q.m useH == m = 0 \/ Chance(s, 5250, 50)
      row(i) == [j \in 1..n |-> IF Chance(s, 5260 + 10 * i + j, 40) THEN Rnd(s, 5400 + 10 * i + j, -2, 2) ELSE q.A[i][j]]
      okrow(i) == LET v == Dot(row(i), q.xs) IN (~Fin(q.lbA[i]) \/ v >= q.lbA[i]) /\ (~Fin(q.ubA[i]) \/ v <= q.ubA[i]) /\ (q.lbA[i] < q.ubA[i] \/ row(i) = q.A[i]) /\ \E j \in 1..n : row(i)[j] # 0
      A2 == [i \in 1..m |-> IF okrow(i) THEN row(i) ELSE q.A[i]]
      q1 == [q EXCEPT !.kind = "sol", !.ys = [i \in 1..(n + m) |-> 0], !.obj2 = 0, !.deg = tame \/ q.deg \/ A2 # q.A]
  IN IF useH THEN [q1 EXCEPT !.H = f2.H, !.hk = f2.hk, !.deg = tame \/ q.deg] ELSE [q1 EXCEPT !.A = A2]
MkQP(f, s, p, kind) == LET q == CASE kind = "opt" -> MkOpt(f, s, p, FALSE) [] kind = "far" -> MkOpt(f, s, p, TRUE) [] kind = "inf" -> MkInf(f, s, p)
                                  [] kind = "cross" -> MkCross(f, s, p) [] kind = "unb" -> MkUnb(f, s, p)
                       IN IF CertOK(q) THEN q ELSE Assert(FALSE, <<"bad certificate", kind, q>>)
=============================================================================
