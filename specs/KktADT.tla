------------------------------- MODULE KktADT -------------------------------
(* Free functions of the library: residuals of the KKT conditions (with and without given working sets, any part of the data
   missing) and norms, in exact integer arithmetic. *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, Functions
KAbs(x) == IF x < 0 THEN -x ELSE x
KMax(x, y) == IF x > y THEN x ELSE y
KInf == 1000000
KBig == 9999999                     \* what the driver reports for anything beyond
KFin(v) == KAbs(v) < KInf
KCap(v) == IF v >= KBig THEN KBig ELSE v
KSup(S) == FoldSet(KMax, 0, S)
KSum(f) == FoldFunction(LAMBDA x, y : x + y, 0, f)
KNull(c, k) == k \in {c.nul[i] : i \in 1..Len(c.nul)}
(* the residual of one limit at value v with multiplier y: w is the working set entry (or 2: none given) *)
KViol(v, a, z, na, nz) == KMax(IF ~na /\ KFin(a) THEN a - v ELSE 0, IF ~nz /\ KFin(z) THEN v - z ELSE 0)
KProd(v, lim, y) == IF KFin(lim) THEN KAbs((v - lim) * y) ELSE IF y = 0 THEN 0 ELSE KBig
KCmp(v, y, w, a, z, na, nz) ==
  LET lo == ~na /\ (IF w = 2 THEN y > 0 ELSE w = -1) hi == ~nz /\ (IF w = 2 THEN y < 0 ELSE w = 1) IN
  IF hi THEN KProd(v, z, y) ELSE IF lo THEN KProd(v, a, y) ELSE 0
KKkt(c) ==
  LET n == c.n m == IF c.op = "violb" THEN 0 ELSE c.m nul(k) == KNull(c, k)
      hx(j) == IF nul("H") THEN (IF c.ident THEN c.x[j] ELSE 0) ELSE KSum([k \in 1..n |-> c.H[j][k] * c.x[k]])
      ay(j) == IF nul("A") \/ m = 0 THEN 0 ELSE KSum([k \in 1..m |-> c.A[k][j] * c.y[n + k]])
      ax(k) == IF nul("A") THEN 0 ELSE KSum([j \in 1..n |-> c.A[k][j] * c.x[j]])
      st == KSup({KAbs(hx(j) + (IF nul("g") THEN 0 ELSE c.g[j]) - c.y[j] - ay(j)) : j \in 1..n})
      fe == KSup({KViol(c.x[i], c.lb[i], c.ub[i], nul("lb"), nul("ub")) : i \in 1..n} \cup {KViol(ax(k), c.lbA[k], c.ubA[k], nul("lbA"), nul("ubA")) : k \in 1..m})
      cm == KSup({KCmp(c.x[i], c.y[i], IF nul("wb") THEN 2 ELSE c.wb[i], c.lb[i], c.ub[i], nul("lb"), nul("ub")) : i \in 1..n}
                 \cup {KCmp(ax(k), c.y[n + k], IF nul("wc") THEN 2 ELSE c.wc[k], c.lbA[k], c.ubA[k], nul("lbA"), nul("ubA")) : k \in 1..m})
  IN [st |-> KCap(st), fe |-> KCap(fe), cm |-> KCap(cm)]
(* norms: type 1 exact, type 2 bracketed by integers *)
KNormOK(c, o) == LET s1 == KSum([i \in 1..Len(c.x) |-> KAbs(c.x[i])]) s2 == KSum([i \in 1..Len(c.x) |-> c.x[i] * c.x[i]]) IN
  IF c.type = 1 THEN o.fl = s1 /\ o.exact ELSE o.fl * o.fl <= s2 /\ (o.fl + 1) * (o.fl + 1) > s2 /\ (o.exact <=> o.fl * o.fl = s2)
=============================================================================
