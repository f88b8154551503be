------------------------------ MODULE QPTrace ------------------------------
(* Trace specification: the recorded calls and observations of the real library (qpdriver) are checked step by step
   against the lifecycle model QPLife and the theory of the QPs that were passed (QPTheory: exact certificates planted by
   QPGen).  TLC has one initial state per recorded behaviour and one state per consumed event; every deviation is printed
   as a label  LBL|behaviour|event|...  and the walk continues from the observed state, so that all events are consumed. *)
EXTENDS QPTheory, QPLife, Json, FiniteSets, FiniteSetsExt, Functions
CONSTANTS File
VARIABLES b, l, last               \* behaviour, next event, and per slot the last event that observed it (0: no object)
Trace == ndJsonDeserialize(File)
Tol == 20                          \* micro units
Slots == 1..3
-------------------------------------------------------------------------------
(* numbers are pairs (h, lo): h + lo * 10^-6 *)
Small(v) == \A i \in 1..Len(v) : Abs(v[i]) < 20000
Near(h, lo, target, tol) == Abs(h - target) <= 1 /\ Abs((h - target) * 1000000 + lo) <= tol
Close(h1, l1, h2, l2, tol) == (h1 = h2 /\ Abs(l1 - l2) <= tol) \/ (Abs(h1 - h2) = 1 /\ Abs((h1 - h2) * 1000000 + l1 - l2) <= tol)
Resid(q, r, j) == LET yh == SubSeq(r.yh, q.n + 1, q.n + q.m) yl == SubSeq(r.yl, q.n + 1, q.n + q.m) IN
   <<Dot(q.H[j], r.xh) + q.g[j] - r.yh[j] - ColDot(q.A, yh, j), Dot(q.H[j], r.xl) - r.yl[j] - ColDot(q.A, yl, j)>>
Carry(h, lo) == h + lo \div 1000000
Rest(lo) == lo % 1000000
Zero(p, tol) == LET c == Carry(p[1], p[2]) IN Abs(c) <= 1 /\ Abs(c * 1000000 + Rest(p[2])) <= tol
Below(h, lo, lim, tol) == h - lim < -1 \/ (h - lim <= 1 /\ (h - lim) * 1000000 + lo <= tol)     \* value <= lim + tol
Above(h, lo, lim, tol) == h - lim > 1 \/ (h - lim >= -1 /\ (h - lim) * 1000000 + lo >= -tol)
InLim(h, lo, a, z, tol) == (Fin(z) => Below(h, lo, z, tol)) /\ (Fin(a) => Above(h, lo, a, tol))
SgnOK(h, lo, yh, yl, a, z, tol) ==
   \/ (yh = 0 /\ Abs(yl) <= Tol)
   \/ ((yh > 0 \/ (yh = 0 /\ yl > 0)) /\ Fin(a) /\ Near(h, lo, a, tol))
   \/ ((yh < 0 \/ (yh = 0 /\ yl < 0)) /\ Fin(z) /\ Near(h, lo, z, tol))
If(c, lab) == IF c THEN {} ELSE {lab}
MaxAbs(v) == FoldFunction(LAMBDA x, y : Max2(Abs(x), y), 0, v)
Scale(q) == LET a == MaxAbs(q.g) IN IF a <= 300 THEN 1 ELSE 1 + a \div 5     \* distant problems: the homotopy ends at a relative distance of 10^-6
TolS(q) == Tol * Scale(q)
TolX(q) == IF q.pd THEN TolS(q) ELSE 3000 + TolS(q)    \* singular Hessians are regularised
AxOf(q, r) == LET ah == MulV(q.A, r.xh) al == MulV(q.A, r.xl) IN TLCEval([i \in 1..q.m |-> <<Carry(ah[i], al[i]), Rest(al[i])>>])
-------------------------------------------------------------------------------
(* C01: optimality conditions of the QP passed in the call *)
KktFails(q, r) ==
  IF ~(Small(r.xh) /\ Small(r.yh)) THEN {"range"} ELSE
  LET ax == AxOf(q, r) t == TolX(q) IN
  If(\A i \in 1..q.n : InLim(r.xh[i], r.xl[i], q.lb[i], q.ub[i], t), "bnd")
  \cup If(\A i \in 1..q.m : InLim(ax[i][1], ax[i][2], q.lbA[i], q.ubA[i], t + AbsSum(q.A[i])), "con")
  \cup If(\A j \in 1..q.n : Zero(Resid(q, r, j), TolS(q) + AbsSum(q.H[j]) + AbsColSum(q.A, j)), "stat")
  \cup If(\A i \in 1..q.n : SgnOK(r.xh[i], r.xl[i], r.yh[i], r.yl[i], q.lb[i], q.ub[i], t), "cmpB")
  \cup If(\A i \in 1..q.m : SgnOK(ax[i][1], ax[i][2], r.yh[q.n + i], r.yl[q.n + i], q.lbA[i], q.ubA[i], t + AbsSum(q.A[i])), "cmpC")
(* C02: the unique solution and the optimal value do not depend on the history *)
XFails(q, r) == If(q.uniq => \A i \in 1..q.n : Near(r.xh[i], r.xl[i], q.xs[i], TolX(q)), "xstar")
ObjFails(q, r) == IF Abs(q.obj2) >= 400000 THEN {} ELSE
  If(Abs(r.objh) < 300000 /\ Abs(2 * r.objh - q.obj2) <= 1 /\ Abs((2 * r.objh - q.obj2) * 1000000 + 2 * r.objl) <= 50 * Tol, "obj")
  \cup If(Close(r.objh, r.objl, r.objxh, r.objxl, 2), "objx")
-------------------------------------------------------------------------------
(* C07: working set *)
RangeOf(f) == {f[i] : i \in DOMAIN f}
WsFails(r) ==                       \* in every state that holds a point
  LET n == r.nv m == r.nc IN
  If(/\ r.wr /\ r.w = r.wb \o r.wc /\ Len(r.wb) = n /\ Len(r.wc) = m
     /\ \A i \in 1..n : r.wb[i] \in {-1, 0, 1} /\ r.wb[i] = r.bs[i]
     /\ \A i \in 1..m : r.wc[i] \in {-1, 0, 1} /\ r.wc[i] = r.cs[i]
     /\ RangeOf(r.fr) = {i \in 1..n : r.wb[i] = 0} /\ RangeOf(r.fx) = {i \in 1..n : r.wb[i] # 0}
     /\ Len(r.fr) = Cardinality(RangeOf(r.fr)) /\ Len(r.fx) = Cardinality(RangeOf(r.fx))
     /\ RangeOf(r.ac) = {i \in 1..m : r.wc[i] # 0} /\ RangeOf(r.ia) = {i \in 1..m : r.wc[i] = 0}
     /\ Len(r.ac) = Cardinality(RangeOf(r.ac)) /\ Len(r.ia) = Cardinality(RangeOf(r.ia))
     /\ r.nfr = Len(r.fr) /\ r.nfx = Len(r.fx) /\ r.nac = Len(r.ac) /\ r.niac = Len(r.ia)
     /\ r.nfr + r.nfx = n /\ r.nac + r.niac = m /\ r.nz = r.nfr - r.nac /\ r.nz >= 0
     /\ r.nfv = Cardinality({i \in 1..n : r.bt[i] = 2}) /\ r.nec = Cardinality({i \in 1..m : r.ct[i] = 2}), "ws")
Indep2(rows, n, fixed) == ElimP(rows, SelectSeq([j \in 1..n |-> j], LAMBDA j : j \notin fixed), 10007) \/ ElimP(rows, SelectSeq([j \in 1..n |-> j], LAMBDA j : j \notin fixed), 9973)
WsSol(q, r) ==                       \* after a success on q
  IF ~(Small(r.xh) /\ Small(r.yh)) THEN {} ELSE
  LET ax == AxOf(q, r) t == TolX(q) n == q.n m == q.m
      at(w, h, lo, a, z, tol) == IF w = -1 THEN Fin(a) /\ Near(h, lo, a, tol) ELSE IF w = 1 THEN Fin(z) /\ Near(h, lo, z, tol) ELSE TRUE
      sg(w, yh, yl, a, z) == IF w = 0 THEN yh = 0 /\ Abs(yl) <= Tol ELSE IF a = z THEN TRUE ELSE IF w = -1 THEN yh > 0 \/ (yh = 0 /\ yl >= -Tol) ELSE yh < 0 \/ (yh = 0 /\ yl <= Tol)
  IN If(/\ \A i \in 1..n : at(r.wb[i], r.xh[i], r.xl[i], q.lb[i], q.ub[i], t)
        /\ \A i \in 1..m : at(r.wc[i], ax[i][1], ax[i][2], q.lbA[i], q.ubA[i], t + AbsSum(q.A[i])), "wsact")
     \cup If(/\ \A i \in 1..n : sg(r.wb[i], r.yh[i], r.yl[i], q.lb[i], q.ub[i])
             /\ \A i \in 1..m : sg(r.wc[i], r.yh[n + i], r.yl[n + i], q.lbA[i], q.ubA[i]), "wsdual")
     \cup If(Indep2([k \in 1..Len(r.ac) |-> q.A[r.ac[k]]], n, RangeOf(r.fx)), "wsli")
     \cup If(/\ \A i \in 1..n : r.bt[i] = 2 => q.lb[i] = q.ub[i]
             /\ \A i \in 1..m : r.ct[i] = 2 => q.lbA[i] = q.ubA[i]
             /\ \A i \in 1..n : r.bt[i] = 0 => ~Fin(q.lb[i]) /\ ~Fin(q.ub[i])
             /\ \A i \in 1..m : r.ct[i] = 0 => ~Fin(q.lbA[i]) /\ ~Fin(q.ubA[i]), "wstype")
-------------------------------------------------------------------------------
(* C05: queries agree with the state *)
GateFails(r) ==
  If(r.ini = IsInit(r.st) /\ r.sol = IsSolved(r.st) /\ ~(r.inf /\ r.unb), "query")
  \cup If(IF HoldsPoint(r.st) THEN r.xr = OK /\ r.yr = OK ELSE r.xr = "RET_QP_NOT_SOLVED" /\ r.xu /\ r.yr = "RET_QP_NOT_SOLVED", "gate")
  \cup If(~HoldsPoint(r.st) => r.objinf, "objinf")
  \cup If("objxh" \in DOMAIN r /\ Small(r.xh) => Close(r.objh, r.objl, r.objxh, r.objxl, 4), "objstate")        \* the value belongs to the iterate at hand
CoreKeys == {"st", "ini", "sol", "inf", "unb", "ht", "xr", "xu", "xh", "xl", "yr", "yh", "yl", "objinf", "objh", "objl", "objxh", "objxl", "cnt", "nfr", "nfx", "nfv", "nz", "nv", "nc",
             "nac", "niac", "nec", "wr", "w", "wb", "wc", "bs", "bt", "fr", "fx", "cs", "ct", "ac", "ia"}      \* what can be observed of an object
Core(r) == [k \in DOMAIN r \cap CoreKeys |-> r[k]]
Numeric == {"xh", "xl", "yh", "yl", "objh", "objl", "objxh", "objxl"}
CloseV(h1, l1, h2, l2) == Len(h1) = Len(h2) /\ \A i \in 1..Len(h1) : Close(h1[i], l1[i], h2[i], l2[i], 4)
Alike(r1, r2) ==                                    \* same abstract state, same numbers up to rounding
  /\ \A k \in DOMAIN Core(r1) \ (Numeric \cup {"cnt"}) : k \in DOMAIN r2 /\ r1[k] = r2[k]
  /\ ("xh" \in DOMAIN r1) = ("xh" \in DOMAIN r2) /\ ("xh" \in DOMAIN r1 => CloseV(r1.xh, r1.xl, r2.xh, r2.xl))
  /\ ("yh" \in DOMAIN r1) = ("yh" \in DOMAIN r2) /\ ("yh" \in DOMAIN r1 => CloseV(r1.yh, r1.yl, r2.yh, r2.yl))
  /\ Close(r1.objh, r1.objl, r2.objh, r2.objl, 4)
Frame(r1, r2) == Core(r1) = Core(r2)
-------------------------------------------------------------------------------
Has(c, k) == k \in DOMAIN c
Solving(c) == c.op \in {"init", "hot"}
LifeCall(c) ==
  IF Solving(c) THEN [op |-> IF c.op = "hot" /\ c.via \in {"mats", "matarr", "matfile"} THEN "mats" ELSE c.op, kind |-> c.qp.kind,
                      cut |-> c.budget < 1000 \/ (Has(c, "cpu") /\ c.cpu < 10000000) \/ Has(c, "bref"), bad |-> c.bad, reg |-> ~c.qp.pd, deg |-> c.qp.deg,
                      mix |-> c.qp.kind = "unb" /\ Cardinality({i \in 1..c.qp.n : c.qp.ds[i] # 0}) > 1]
  ELSE [op |-> IF c.op \in {"new", "reset"} THEN c.op ELSE "obs", kind |-> "opt", cut |-> FALSE, bad |-> "", reg |-> FALSE, deg |-> FALSE, mix |-> FALSE]
Res(r) == [ret |-> r.ret, st |-> r.st, inf |-> r.inf, unb |-> r.unb]
FarAway(r) == \E i \in 1..Len(r.xh) : Abs(r.xh[i]) > 900000
SolveFails(e, o, prev) ==            \* o: lifecycle state before; prev: previous observation of the object or <<>>
  LET c == e.c q == c.qp r == e.o lc == LifeCall(c) IN
  (IF c.bad = "?" THEN {} ELSE If(Allowed(o, lc, Res(r)), "life:" \o lc.op \o ":" \o q.kind \o ":" \o (IF q.deg THEN "deg:" ELSE "") \o (IF c.bad # "" THEN "bad:" ELSE "") \o o.st \o ">" \o r.ret \o ":" \o r.st \o (IF r.inf THEN ":inf" ELSE "") \o (IF r.unb THEN ":unb" ELSE "")))
  \cup (IF r.ret # OK THEN {}
        ELSE IF q.kind = "opt" THEN KktFails(q, r) \cup XFails(q, r) \cup ObjFails(q, r) \cup WsSol(q, r)
        ELSE IF q.kind = "unb" THEN If(FarAway(r), "unbpoint") ELSE KktFails(q, r))
  \cup If(Has(r, "nwsr") => (r.nwsr <= r.bud /\ r.nwsr >= 0) \/ r.bud < 0, "nwsr")
  \cup (IF Has(c, "bref") THEN LET base == Trace[b].ev[l - c.bref[1]].o IN
           IF base.ret \notin SolveCodes \ {BudgetCode} \/ q.deg THEN {}
           ELSE IF c.bref[2] = 0 THEN If((r.ret = BudgetCode \/ (base.inf /\ base.nwsr = 0 /\ r.ret = base.ret)) /\ r.nwsr = base.nwsr, "bref0") ELSE If(r.ret = base.ret /\ r.nwsr = base.nwsr, "bref1") ELSE {})
  \cup (IF c.bad # "" /\ c.bad # "?" /\ lc.op = "hot" /\ prev # <<>> /\ r.ret = c.bad THEN If(Frame(prev, r), "frame") ELSE {})
  \cup (IF lc.op # "init" /\ ~Usable(o.st) /\ prev # <<>> /\ r.ret = NotInitCode THEN If(Frame(prev, r), "frame") ELSE {})
  \cup (IF Has(c, "rep") /\ r.ret = OK /\ o.st = "SOLVED" THEN If(r.nwsr = 0, "rep") ELSE {})
(* C20: analyses of the solution held.  c.of: events back to the solve that gave it (only after a success on c's problem data) *)
Solved(c) == Has(c, "of") /\ LET e == Trace[b].ev[l - c.of] IN e.o.ret = OK /\ e.o.st = "SOLVED" /\ e.c.qp.kind \in {"opt", "far"}
QPOf(c) == Trace[b].ev[l - c.of].c.qp
ISum(d, Op(_)) == FoldFunction(LAMBDA x, y : x + y, 0, [k \in 1..d |-> Op(k)])
Nonneg(S) == FoldSet(Max2, 0, S)
(* residuals of the KKT conditions at integer points: stationarity, feasibility, complementarity on the working set *)
KktExp(q, r, dx, dy) ==
  LET n == q.n m == r.nc X == [i \in 1..n |-> r.xh[i] + dx[i]] Y == [i \in 1..(n + m) |-> r.yh[i] + dy[i]] YC == SubSeq(Y, n + 1, n + m) AX == MulV(q.A, X)
      viol(v, a, z) == Max2(IF Fin(a) THEN a - v ELSE 0, IF Fin(z) THEN v - z ELSE 0)
      cp(w, v, y, a, z) == IF w = -1 THEN Abs((v - a) * y) ELSE IF w = 1 THEN Abs((v - z) * y) ELSE 0
      st == Nonneg({Abs(Dot(q.H[j], X) + q.g[j] - Y[j] - (IF m = 0 THEN 0 ELSE ColDot(q.A, YC, j))) : j \in 1..n})
      fe == Nonneg({viol(X[i], q.lb[i], q.ub[i]) : i \in 1..n} \cup {viol(AX[i], q.lbA[i], q.ubA[i]) : i \in 1..m})
      cm == Nonneg({cp(r.w[i], X[i], Y[i], q.lb[i], q.ub[i]) : i \in 1..n} \cup {cp(r.w[n + i], AX[i], Y[n + i], q.lbA[i], q.ubA[i]) : i \in 1..m})
  IN [st |-> st, fe |-> fe, cm |-> cm]
Whole(v) == \A i \in 1..Len(v) : Abs(v[i]) <= 5
KktOpFails(c, r) ==
  IF ~Solved(c) THEN {} ELSE LET q == QPOf(c) IN
  IF ~(Whole(r.xl) /\ Whole(r.yl) /\ Small(r.xh) /\ Small(r.yh) /\ Scale(q) = 1) THEN {} ELSE
  LET k == KktExp(q, r, c.dx, c.dy) t == 3000 IN
  If(Near(r.kvh, r.kvl, Max2(k.st, Max2(k.fe, k.cm)), t), "kkt")
  \cup If(IF c.none THEN r.kah = -1 /\ r.kbh = -1 /\ r.kch = -1 ELSE Near(r.kah, r.kal, k.st, t) /\ Near(r.kbh, r.kbl, k.fe, t) /\ Near(r.kch, r.kcl, k.cm, t), "kktparts")
(* the equality-constrained QP of the working set, for each right-hand side *)
EqpOne(q, r, w, d, xh, xl, yh, yl) ==
  LET n == q.n m == q.m ych == SubSeq(yh, n + 1, n + m) ycl == SubSeq(yl, n + 1, n + m) ah == MulV(q.A, xh) al == MulV(q.A, xl)
      big == Max2(MaxAbs(xh), MaxAbs(yh)) t == Tol * (1 + big \div 20) IN
  IF big >= 9000000 THEN {"eqp:range"} ELSE IF big >= 20000 THEN {} ELSE      \* not finite, not written
  If(\A i \in 1..n : w[i] # 0 => Near(xh[i], xl[i], IF w[i] = -1 THEN d.lb[i] ELSE d.ub[i], t), "eqp:fixed")
  \cup If(\A i \in 1..m : w[n + i] # 0 => Zero(<<ah[i] - (IF w[n + i] = -1 THEN d.lbA[i] ELSE d.ubA[i]), al[i]>>, t + AbsSum(q.A[i])), "eqp:active")
  \cup If(\A i \in 1..(n + m) : w[i] = 0 => yh[i] = 0 /\ yl[i] = 0, "eqp:inactive")
  \cup If(\A j \in 1..n : Zero(<<Dot(q.H[j], xh) + d.g[j] - yh[j] - ColDot(q.A, ych, j), Dot(q.H[j], xl) - yl[j] - ColDot(q.A, ycl, j)>>, t + AbsSum(q.H[j]) + AbsColSum(q.A, j)), "eqp:stat")
EqpFails(c, r) ==
  IF ~Solved(c) THEN {} ELSE LET q == QPOf(c) n == q.n d == q.n + q.m IN
  IF ~q.pd THEN {} ELSE UNION {EqpOne(q, r, r.w, c.rhs[k], SubSeq(r.exh, (k - 1) * n + 1, k * n), SubSeq(r.exl, (k - 1) * n + 1, k * n), SubSeq(r.eyh, (k - 1) * d + 1, k * d), SubSeq(r.eyl, (k - 1) * d + 1, k * d)) : k \in 1..c.k}
(* covariance of the solution: with the linear map L(x, y) = (H x - yB - A'yC; x_i or yB_i; A_c x or yC_c) of the working set and D the part of the data
   the solution depends on, L P L' = D V D *)
LRow(q, w, i) == LET n == q.n m == q.m d == 2 * n + m unit(k) == [j \in 1..d |-> IF j = k THEN 1 ELSE 0] IN
  IF i <= n THEN [j \in 1..d |-> IF j <= n THEN q.H[i][j] ELSE IF j <= 2 * n THEN (IF j - n = i THEN -1 ELSE 0) ELSE -q.A[j - 2 * n][i]]
  ELSE IF i <= 2 * n THEN (IF w[i - n] # 0 THEN unit(i - n) ELSE unit(i))
  ELSE IF w[i - n] # 0 THEN [j \in 1..d |-> IF j <= n THEN q.A[i - 2 * n][j] ELSE 0] ELSE unit(i)
CovFails(c, r) ==
  IF ~Solved(c) THEN {} ELSE LET q == QPOf(c) n == q.n m == q.m d == 2 * n + m w == r.w IN
  IF ~q.pd \/ MaxAbs(r.Ph) >= 2000 THEN {} ELSE
  LET L == TLCEval([i \in 1..d |-> LRow(q, w, i)])
      D == [i \in 1..d |-> IF i <= n THEN -1 ELSE IF w[i - n] # 0 THEN 1 ELSE 0]
      LPh == TLCEval([i \in 1..d |-> [j \in 1..d |-> ISum(d, LAMBDA k : L[i][k] * r.Ph[(k - 1) * d + j])]])
      LPl == TLCEval([i \in 1..d |-> [j \in 1..d |-> ISum(d, LAMBDA k : L[i][k] * r.Pl[(k - 1) * d + j])]])
      h1 == TLCEval([i \in 1..d |-> [j \in 1..d |-> Carry(LPh[i][j], LPl[i][j])]]) l1 == TLCEval([i \in 1..d |-> [j \in 1..d |-> Rest(LPl[i][j])]])
  IN If(\A i \in 1..d, j \in 1..d : Abs(h1[i][j]) < 100000 =>
          Zero(<<ISum(d, LAMBDA k : h1[i][k] * L[j][k]) - D[i] * c.V[i][j] * D[j], ISum(d, LAMBDA k : l1[i][k] * L[j][k])>>, 5000 + MaxAbs(r.Ph)), "cov")
AnaFails(c, r) == CASE c.op = "kkt" -> KktOpFails(c, r) [] c.op = "eqp" -> EqpFails(c, r) [] c.op = "varcov" /\ r.ret = OK -> CovFails(c, r)
                    [] c.op = "objat" -> IF ~Solved(c) THEN {} ELSE LET v == Obj2(QPOf(c), c.X) IN If(Close(r.ovh, r.ovl, v \div 2, (v % 2) * 500000, 2), "objat")
                    [] c.op = "misc" /\ c.what = "freeflags" -> If(\A i \in 1..r.nv : (r.ff[i] = 1) = (r.w[i] = 0), "ff") [] OTHER -> {}
(* C15: the C interface answers as the C++ object that received the same calls (the call `of` events before) *)
Simple(ret) == CASE ret = OK -> 0 [] ret = BudgetCode -> 1 [] ret \in {InfCode("init"), InfCode("hot")} -> -2 [] ret \in {UnbCode("init"), UnbCode("hot")} -> -3 [] OTHER -> -1
CFails(c, r) ==
  IF ~Has(c, "of") THEN If(r.cret = c.exp, "cif:call:" \o c.what) \cup If(r.cxu /\ r.cyu /\ r.cou /\ r.cst = 77 /\ r.nwsr = 10, "cif:untouched")
  ELSE LET x == Trace[b].ev[l - c.of].o IN
    If(r.cret = 0, "cif:ret") \cup If(r.cst = Simple(x.ret), "cif:status") \cup If(r.nwsr = x.nwsr, "cif:nwsr") \cup If(r.cobjinf = x.objinf /\ Close(r.cobjh, r.cobjl, x.objh, x.objl, 4), "cif:obj")
    \cup (IF HoldsPoint(x.st) THEN If(CloseV(r.cxh, r.cxl, x.xh, x.xl), "cif:x") \cup If(CloseV(r.cyh, r.cyl, x.yh, x.yl), "cif:y") ELSE If(r.cxu, "cif:unsolved"))
(* sequences of QPs: the 2k events before are the same solves on a C++ object, each followed by its residuals *)
ReadCode == "RET_UNABLE_TO_READ_FILE"
NoFile(c) == c.badfile # "" /\ ~(c.m = 0 /\ c.badfile \in {"A", "lbA", "ubA"})      \* the file is needed and damaged
OqpFails(c, r) ==
  LET k == Len(c.qps) ev(i) == Trace[b].ev[l - 2 * (k - i + 1)] rs(i) == Trace[b].ev[l - 2 * (k - i + 1) + 1].o
      stops == {i \in 1..k : ev(i).o.ret \notin {OK, BudgetCode}} mx(F(_)) == FoldSet(Max2, 0, {F(i) : i \in 1..k})
      max(h, lo, H(_), Lo(_)) == (\E i \in 1..k : Close(h, lo, H(i), Lo(i), 200 + Abs(h))) /\ (\A i \in 1..k : H(i) <= h + 1 /\ (H(i) = h + 1 => Lo(i) - lo <= -1000000 + 200 + Abs(h)) /\ (H(i) = h => Lo(i) <= lo + 200 + Abs(h)))
  IN IF NoFile(c) THEN If(r.ret = "RET_UNABLE_TO_READ_BENCHMARK", "oqp:file")
     ELSE IF stops # {} THEN If(r.ret = ev(FoldSet(LAMBDA x, y : IF x < y THEN x ELSE y, 99, stops)).o.ret, "oqp:ret")
     ELSE If(r.ret = OK, "oqp:ret") \cup If(r.maxn = mx(LAMBDA i : ev(i).o.nwsr), "oqp:maxn") \cup If(r.sumn = -1 \/ r.sumn = FoldSet(LAMBDA i, a : a + ev(i).o.nwsr, 0, 1..k), "oqp:avgn") \cup If(r.cpuok, "oqp:cpu")
          \cup If(max(r.kah, r.kal, LAMBDA i : rs(i).kah, LAMBDA i : rs(i).kal), "oqp:stat") \cup If(max(r.kbh, r.kbl, LAMBDA i : rs(i).kbh, LAMBDA i : rs(i).kbl), "oqp:feas") \cup If(max(r.kch, r.kcl, LAMBDA i : rs(i).kch, LAMBDA i : rs(i).kcl), "oqp:compl")
Enc(v) == [i \in 1..Len(v) |-> IF v[i] >= 1000000 THEN 9999999 ELSE IF v[i] <= -1000000 THEN -9999999 ELSE v[i]]
RECURSIVE FlatSeq(_)
FlatSeq(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o FlatSeq(Tail(s))
Zeros(n) == [i \in 1..n |-> 0]
OqpReadFails(c, r) ==
  LET k == Len(c.qps) q == c.qps[1] nul == RangeOf(c.nulls) dims == <<k, q.n, q.m, c.nec>>
      dbad == c.badfile = "dims"
      got(key, v) == IF key \in nul THEN {} ELSE If(r[key \o "h"] = Enc(v) /\ r[key \o "l"] = Zeros(Len(v)), "oqp:read:" \o key)
      all(F(_)) == FlatSeq([i \in 1..k |-> F(c.qps[i])])
      exp == IF c.dims THEN IF ~dbad THEN OK ELSE IF c.badkind \in {"missing", "short", "text"} THEN ReadCode ELSE "RET_FILEDATA_INCONSISTENT"
             ELSE IF nul \cap {"H", "g", "lb", "ub"} # {} THEN "RET_INVALID_ARGUMENTS" ELSE IF dbad THEN ReadCode ELSE IF q.m > 0 /\ nul \cap {"A", "lbA", "ubA"} # {} THEN "RET_FILEDATA_INCONSISTENT"
             ELSE IF NoFile(c) /\ c.badfile \notin nul THEN ReadCode ELSE OK
  IN If(r.ret = exp, "oqp:readret") \cup (IF exp = OK /\ r.ret = OK THEN If(r.d = dims, "oqp:read:dims") ELSE {})
     \cup (IF exp # OK \/ r.ret # OK \/ c.dims THEN {} ELSE got("H", FlatSeq(q.H)) \cup got("A", FlatSeq(q.A)) \cup got("g", all(LAMBDA x : x.g)) \cup got("lb", all(LAMBDA x : x.lb)) \cup got("ub", all(LAMBDA x : x.ub))
           \cup got("lbA", all(LAMBDA x : x.lbA)) \cup got("ubA", all(LAMBDA x : x.ubA)) \cup got("x_opt", all(LAMBDA x : x.xs)) \cup got("y_opt", all(LAMBDA x : x.ys))
           \cup (IF "obj_opt" \in nul THEN {} ELSE If(Len(r.obj_opth) = k /\ \A i \in 1..k : Abs(2 * r.obj_opth[i] - c.qps[i].obj2) <= 1 /\ r.obj_optl[i] = (c.qps[i].obj2 - 2 * r.obj_opth[i]) * 500000, "oqp:read:obj")))
(* MAT files: the problem data held, the workspace *)
MatFails(c, r) ==
  IF c.badpath THEN If(r.ret = "RET_UNABLE_TO_OPEN_FILE", "matfile:ret") ELSE
  If(r.ret = OK, "matfile:ret") \cup If(r.fmt, "matfile:format") \cup (IF ~Solved(c) THEN {} ELSE
  LET q == QPOf(c) n == q.n m == r.nc names == {r.mats[i].name : i \in 1..Len(r.mats)} get(nm) == r.mats[CHOOSE i \in 1..Len(r.mats) : r.mats[i].name = nm]
      has(nm, nr, nc, P(_, _, _, _)) == IF nm \notin names THEN {"matfile:missing:" \o nm} ELSE LET e == get(nm) IN
           If(e.nr = nr /\ e.nc = nc /\ \A i \in 1..nr, j \in 1..nc : P(i, j, e.vh[(j - 1) * nr + i], e.vl[(j - 1) * nr + i]), "matfile:" \o nm)
      is(v, h, lo) == IF Fin(v) THEN Near(h, lo, v, Tol * Scale(q)) ELSE IF v > 0 THEN h >= 300000 ELSE h <= -300000
      idx(nm, v) == IF v = <<>> /\ nm \notin names THEN {} ELSE IF nm \notin names THEN {"matfile:missing:" \o nm} ELSE If(get(nm).vh = [i \in 1..Len(v) |-> v[i] - 1] /\ get(nm).nr = Len(v) /\ get(nm).nc = 1, "matfile:" \o nm)
      ax == AxOf(q, r)
  IN IF c.what = "data" THEN has("H", n, n, LAMBDA i, j, h, lo : Near(h, lo, q.H[i][j], 2)) \cup has("g", n, 1, LAMBDA i, j, h, lo : is(q.g[i], h, lo)) \cup has("lb", n, 1, LAMBDA i, j, h, lo : is(q.lb[i], h, lo)) \cup has("ub", n, 1, LAMBDA i, j, h, lo : is(q.ub[i], h, lo))
        \cup (IF m = 0 THEN {} ELSE has("A", m, n, LAMBDA i, j, h, lo : Near(h, lo, q.A[i][j], 2)) \cup has("lbA", m, 1, LAMBDA i, j, h, lo : is(q.lbA[i], h, lo)) \cup has("ubA", m, 1, LAMBDA i, j, h, lo : is(q.ubA[i], h, lo)))
     ELSE idx("FR_idx", r.fr) \cup idx("FX_idx", r.fx) \cup (IF m = 0 THEN {} ELSE idx("AC_idx", r.ac) \cup idx("IAC_idx", r.ia) \cup has("Ax", m, 1, LAMBDA i, j, h, lo : r.ct[i] = 0 \/ Close(h, lo, ax[i][1], ax[i][2], Tol * Scale(q) + AbsSum(q.A[i])))))
Abuses == {"ws0", "wsb0", "wsc0", "eqpx0", "eqpy0", "kkt0"}
AbuseCode(w) == IF w = "kkt0" THEN "INFTY" ELSE "RET_INVALID_ARGUMENTS"
OtherFails(e, o, prev, src) ==
  LET c == e.c r == e.o IN
  CASE c.op = "reset" /\ Has(c, "bad") -> If(r.ret = c.bad /\ Frame(prev, r), "ret:reset")
    [] c.op \in {"new", "reset"} -> If(Allowed(o, LifeCall(c), Res(r)), "life:" \o c.op) \cup (IF c.op = "reset" THEN If(r.ht = "UNKNOWN", "resetht") ELSE If(r.ht = c.ht, "newht") \cup If(r.nv = (IF Has(c, "def") THEN 0 ELSE c.n) /\ r.nc = (IF Has(c, "def") THEN 0 ELSE c.m), "newdim"))
    [] c.op \in {"copy", "assign"} -> If(r.ret = OK, "ret") \cup (IF src # <<>> THEN If(Frame(src, r), "copy") ELSE {})
    [] c.op \in {"oqp", "oqpread", "mat"} -> (CASE c.op = "oqp" -> OqpFails(c, r) [] c.op = "mat" -> MatFails(c, r) [] OTHER -> OqpReadFails(c, r)) \cup If(Frame(prev, r), "frame")
    [] c.op = "sethess" -> If(r.ret = OK /\ r.ht = c.ht, "sethess") \cup If(Frame([prev EXCEPT !.ht = r.ht], r), "frame")
    [] c.op = "misc" /\ c.what = "resetcnt" -> If(r.ret = OK /\ r.cnt = 0 /\ Frame([prev EXCEPT !.cnt = 0], r), "frame")
    [] c.op = "misc" /\ c.what \in Abuses -> If(r.ret = AbuseCode(c.what), "ret:" \o c.what) \cup If(Frame(prev, r), "frame")
    [] OTHER -> If(r.ret = (IF c.op = "varcov" /\ r.nc = 0 /\ Has(c, "noimp") THEN "RET_NOT_YET_IMPLEMENTED" ELSE OK), "ret:" \o c.op) \cup AnaFails(c, r) \cup (IF c.op = "ccall" THEN CFails(c, r) ELSE {}) \cup (IF prev # <<>> THEN If(Frame(prev, r), "frame") ELSE {})
Target(c) == IF c.op \in {"copy", "assign"} THEN c.to ELSE c.slot
Lifecycle(r) == [st |-> r.st, inf |-> r.inf, unb |-> r.unb]
Fails(e) ==
  LET c == e.c r == e.o t == Target(c) k == last[t]
      prev == IF k = 0 THEN <<>> ELSE Trace[b].ev[k].o
      src == IF c.op \in {"copy", "assign"} /\ last[c.slot] # 0 THEN Trace[b].ev[last[c.slot]].o ELSE <<>>
      o == IF prev = <<>> THEN Fresh ELSE Lifecycle(prev)
  IN If(~r.mod, "mod") \cup
     (IF c.op = "del" THEN {} ELSE
      GateFails(r) \cup (IF HoldsPoint(r.st) THEN WsFails(r) ELSE {})
      \cup (IF Solving(c) THEN SolveFails(e, o, prev) ELSE OtherFails(e, o, prev, src))
      \cup (IF Has(c, "same") THEN IF c.same = 0 THEN {} ELSE LET x == Trace[b].ev[l - c.same].o IN If(r.ret = x.ret /\ Alike(r, x) /\ r.nwsr = x.nwsr, "same") ELSE {}))
Emit(f) == IF f = {} THEN TRUE ELSE PrintT("LBL|" \o ToString(Trace[b].id) \o "|" \o ToString(l) \o "|" \o FoldSet(LAMBDA x, y : x \o " " \o y, "", f))
Init == b \in 1..Len(Trace) /\ l = 1 /\ last = [s \in Slots |-> 0]
Consume == /\ l <= Len(Trace[b].ev)
           /\ LET e == Trace[b].ev[l] IN
              /\ Emit(Fails(e))
              /\ last' = [last EXCEPT ![Target(e.c)] = IF e.c.op = "del" THEN 0 ELSE l]
           /\ l' = l + 1 /\ b' = b
Finish == /\ l = Len(Trace[b].ev) + 1
          /\ Emit(If(Trace[b].end = "ok", "end:" \o Trace[b].end \o (IF Trace[b].end # "ok" THEN ":" \o Trace[b].next.op ELSE "")))
          /\ l' = l + 1 /\ UNCHANGED <<b, last>>
Next == Consume \/ Finish
\* acceptance: every event of every behaviour has been consumed (states: initial + one per event + final)
Expected == FoldSet(LAMBDA i, a : a + Len(Trace[i].ev) + 2, 0, 1..Len(Trace))
Accepted == TLCGet("stats").distinct = Expected \/ PrintT("NOTCONSUMED|" \o ToString(TLCGet("stats").distinct) \o "|" \o ToString(Expected))
=============================================================================
