------------------------------- MODULE ADTGen -------------------------------
(* Behaviours of the bookkeeping classes.  The generator walks the specification alongside, so that every call it chooses is
   inside the contract (or is one of the documented rejected calls). *)
EXTENDS Rand, LimitsADT, OptionsADT, MessageADT, MatrixADT, FileADT, Json
CONSTANTS Profile, Base, ChunkSize, Chunk, Out
VARIABLE done
GMerge(a, b) == [k \in DOMAIN a \cup DOMAIN b |-> IF k \in DOMAIN b THEN b[k] ELSE a[k]]
-------------------------------------------------------------------------------
(* index lists *)
Univ(s) == IF Chance(s, 500, 50) THEN <<0, 1, 2, 3, 4, 5, 6>> ELSE <<3, 0, 250, 12, 7, 8, 1, 100000, 31, 40, 2, 19>>
IdxCall(s, x, t, u) ==
  LET k == Pick(s, 2, u) k2 == Pick(s, 3, u) r == Rnd(s, 1, 1, 100)
      fresh == IF IMem(x.s, k) THEN IF IMem(x.s, k2) THEN -1 ELSE k2 ELSE k
      b == [adt |-> "idx", slot |-> t]
  IN CASE r <= 45 -> IF fresh >= 0 \/ Len(x.s) >= x.cap THEN GMerge(b, [op |-> "add", k |-> IF fresh >= 0 THEN fresh ELSE k]) ELSE GMerge(b, [op |-> "rem", k |-> k])
       [] r <= 68 -> GMerge(b, [op |-> "rem", k |-> IF Len(x.s) > 0 /\ Chance(s, 4, 70) THEN Pick(s, 5, x.s) ELSE k])
       [] r <= 88 -> GMerge(b, [op |-> "swap", a |-> IF Len(x.s) > 0 /\ Chance(s, 4, 80) THEN Pick(s, 5, x.s) ELSE k, b |-> IF Len(x.s) > 0 /\ Chance(s, 6, 80) THEN Pick(s, 7, x.s) ELSE k2])
       [] r <= 91 -> GMerge(b, [op |-> "init", n |-> Rnd(s, 8, -1, Len(u))])
       [] r <= 95 -> GMerge(b, [op |-> "copy", to |-> 3 - t])
       [] OTHER -> GMerge(b, [op |-> "assign", to |-> Pick(s, 9, <<t, 3 - t, 3 - t>>)])
RECURSIVE IdxWalk(_, _, _, _, _)
IdxWalk(i, s, sl, u, n) == IF i > n THEN <<>> ELSE
  LET h == Hash(s, 100 + i) t == IF Chance(h, 0, 75) THEN 1 ELSE 2 c == IdxCall(h, sl[t], t, u) IN
  <<c>> \o IdxWalk(i + 1, s, IF c.op \in {"copy", "assign"} THEN [sl EXCEPT ![c.to] = sl[t]] ELSE [sl EXCEPT ![t] = IApply(sl[t], c)[2]], u, n)
IdxB(s) == LET u == Univ(s) n1 == Rnd(s, 501, -1, Len(u)) n2 == Rnd(s, 502, 0, Len(u)) IN
  <<[adt |-> "idx", op |-> "new", slot |-> 1, n |-> n1, u |-> u], [adt |-> "idx", op |-> "new", slot |-> 2, n |-> n2, u |-> u]>> \o IdxWalk(1, s, <<IEmpty(n1), IEmpty(n2)>>, u, Rnd(s, 503, 8, 30))
\* every word over a small alphabet, numbered
IdxAlpha == <<[op |-> "add", k |-> 0], [op |-> "add", k |-> 1], [op |-> "add", k |-> 2], [op |-> "add", k |-> 3], [op |-> "rem", k |-> 0], [op |-> "rem", k |-> 1], [op |-> "rem", k |-> 2], [op |-> "rem", k |-> 3],
              [op |-> "swap", a |-> 0, b |-> 1], [op |-> "swap", a |-> 1, b |-> 2], [op |-> "swap", a |-> 2, b |-> 0], [op |-> "swap", a |-> 3, b |-> 1], [op |-> "swap", a |-> 2, b |-> 2]>>
RECURSIVE IdxWord(_, _, _)
IdxWord(v, k, x) == IF k = 0 THEN <<>> ELSE
  LET c0 == IdxAlpha[1 + (v % Len(IdxAlpha))]
      c == GMerge([adt |-> "idx", slot |-> 1], IF c0.op = "add" /\ IMem(x.s, c0.k) /\ Len(x.s) < x.cap THEN [op |-> "rem", k |-> c0.k] ELSE c0)
  IN <<c>> \o IdxWord(v \div Len(IdxAlpha), k - 1, IApply(x, c)[2])
IdxX(sd) == LET v == sd % 1000000 IN <<[adt |-> "idx", op |-> "new", slot |-> 1, n |-> 3, u |-> <<0, 1, 2, 3, 4>>]>> \o IdxWord(v, 5, IEmpty(3))
-------------------------------------------------------------------------------
(* bounds and constraints *)
Sts == <<"L", "I", "U">>
LimCall(s, x, t) ==
  LET r == Rnd(s, 1, 1, 100) i == IF x.n = 0 \/ Chance(s, 2, 6) THEN Pick(s, 3, <<-1, x.n, x.n + 3>>) ELSE Rnd(s, 3, 0, x.n - 1)
      j == IF x.n = 0 \/ Chance(s, 4, 6) THEN Pick(s, 5, <<-2, x.n>>) ELSE Rnd(s, 5, 0, x.n - 1)
      b == [adt |-> "lim", slot |-> t]  set == \A k \in 1..x.n : x.st[k] # "N"
      c == CASE r <= 22 -> [op |-> "setup", i |-> i, st |-> IF Chance(s, 6, 6) THEN "N" ELSE Pick(s, 7, Sts)]
             [] r <= 28 -> [op |-> "all", st |-> Pick(s, 7, Sts)]
             [] r <= 40 -> [op |-> "tofree", i |-> i]
             [] r <= 52 -> [op |-> "tofix", i |-> i, st |-> Pick(s, 7, <<"L", "U">>)]
             [] r <= 58 -> [op |-> "flip", i |-> i]
             [] r <= 66 -> [op |-> "swap", i |-> i, j |-> j]
             [] r <= 72 -> [op |-> "shift", i |-> Rnd(s, 8, -1, x.n)]
             [] r <= 79 -> [op |-> "rotate", i |-> Rnd(s, 8, -1, x.n + 1)]
             [] r <= 88 -> [op |-> "type", i |-> i, ty |-> Pick(s, 9, <<"U", "B", "B", "E", "D", "?">>)]
             [] r <= 90 -> [op |-> "status", i |-> i, st |-> Pick(s, 7, Sts)]
             [] r <= 92 -> [op |-> Pick(s, 9, <<"nolo", "noup">>), on |-> Chance(s, 10, 50)]
             [] r <= 94 -> [op |-> "copy", to |-> 3 - t]
             [] r <= 96 -> [op |-> "assign", to |-> Pick(s, 9, <<t, 3 - t>>)]
             [] r <= 97 -> [op |-> "print"]
             [] r <= 99 -> [op |-> "init", n |-> Rnd(s, 8, -1, 7)]
             [] OTHER -> [op |-> "obs"]
      d == IF x.n = 0 /\ ~LLegal(x, c) THEN [op |-> "obs"] ELSE IF LLegal(x, c) THEN c ELSE IF set THEN LET k == Rnd(s, 11, 0, x.n - 1) IN IF x.st[k + 1] = "I" THEN [op |-> "tofix", i |-> k, st |-> Pick(s, 12, <<"L", "U">>)] ELSE [op |-> "tofree", i |-> k]
           ELSE LET K == {k \in 1..x.n : x.st[k] = "N"} k == CHOOSE k \in K : TRUE IN [op |-> "setup", i |-> k - 1, st |-> Pick(s, 12, Sts)]
  IN GMerge(b, IF d.op = "tofix" /\ x.n = 0 THEN [op |-> "obs"] ELSE d)
RECURSIVE LimWalk(_, _, _, _)
LimWalk(i, s, sl, n) == IF i > n THEN <<>> ELSE
  LET h == Hash(s, 100 + i) t == IF Chance(h, 0, 80) THEN 1 ELSE 2 c == LimCall(h, sl[t], t) IN
  <<c>> \o LimWalk(i + 1, s, IF c.op \in {"copy", "assign"} THEN [sl EXCEPT ![c.to] = sl[t]] ELSE [sl EXCEPT ![t] = LApply(sl[t], c)[2]], n)
LimB(s) == LET cls == Pick(s, 500, <<"B", "C">>) n1 == Rnd(s, 501, -1, 8) n2 == Rnd(s, 502, 0, 6) IN
  <<[adt |-> "lim", op |-> "new", slot |-> 1, cls |-> cls, n |-> n1], [adt |-> "lim", op |-> "new", slot |-> 2, cls |-> cls, n |-> n2]>> \o LimWalk(1, s, <<LNew(cls, n1), LNew(cls, n2)>>, Rnd(s, 503, 10, 40))
-------------------------------------------------------------------------------
(* option sets *)
BoolF == <<"enableRamping", "enableFarBounds", "enableFlippingBounds", "enableRegularisation", "enableFullLITests", "enableNZCTests", "enableEqualities", "enableDropInfeasibles", "enableInertiaCorrection">>
IntF == <<"enableDriftCorrection", "enableCholeskyRefactorisation", "numRegularisationSteps", "numRefinementSteps", "dropBoundPriority", "dropEqConPriority", "dropIneqConPriority">>
RealF == <<"terminationTolerance", "boundTolerance", "boundRelaxation", "epsNum", "epsDen", "maxPrimalJump", "maxDualJump", "initialRamping", "finalRamping", "initialFarBounds", "growFarBounds", "epsFlipping", "epsRegularisation", "epsIterRef", "epsLITests", "epsNZCTests", "rcondSMin">>
RealV(s, f) == IF f = "boundRelaxation" THEN Pick(s, 20, <<M(10000000), M(50000000), M(0), M(-1000), E(7)>>)
  ELSE IF f = "initialFarBounds" THEN Pick(s, 20, <<M(10000000), M(1000000000), M(50000000), <<"G", 5>>, M(0), M(-2000), E(7), E(3)>>)
  ELSE IF f = "growFarBounds" THEN Pick(s, 20, <<M(1099), M(1100), M(1101), M(0), M(-1), M(5000), E(1), <<"G", 3>>>>)
  ELSE Pick(s, 20, <<E(1), E(2), E(-1), M(0), M(-3000), M(1), M(7250), E(12345), <<"G", 17>>, E(-12)>>)
ORow(s) == CASE Rnd(s, 21, 1, 10) <= 3 -> LET f == Pick(s, 22, BoolF) IN f :> Chance(s, 23, 50)
             [] Rnd(s, 21, 1, 10) <= 5 -> LET f == Pick(s, 22, IntF) IN f :> Rnd(s, 23, -2, 5)
             [] Rnd(s, 21, 1, 10) <= 9 -> LET f == Pick(s, 22, RealF) IN f :> RealV(s, f)
             [] OTHER -> IF Chance(s, 22, 50) THEN "printLevel" :> Rnd(s, 23, -2, 3) ELSE "initialStatusBounds" :> Pick(s, 23, Sts)
RECURSIVE ORows(_, _)
ORows(s, k) == IF k = 0 THEN <<>> ELSE GMerge(ORow(Hash(s, k)), ORows(s, k - 1))
\* slots 1, 2: option sets; 3, 4: problem objects
OptCall(s) ==
  LET r == Rnd(s, 1, 1, 100) t == Rnd(s, 2, 1, 2) p == Rnd(s, 3, 3, 4) b == [adt |-> "opt", slot |-> t] IN
  CASE r <= 35 -> GMerge(b, [op |-> "set", fields |-> ORows(Hash(s, 4), Rnd(s, 5, 1, 4))])
    [] r <= 45 -> GMerge(b, [op |-> "preset", what |-> Pick(s, 6, <<"default", "reliable", "mpc", "fast">>)])
    [] r <= 60 -> GMerge(b, [op |-> "ensure"])
    [] r <= 66 -> GMerge(b, [op |-> "copy", to |-> 3 - t])
    [] r <= 72 -> GMerge(b, [op |-> "assign", to |-> Pick(s, 6, <<t, 3 - t, 3 - t>>)])
    [] r <= 84 -> GMerge(b, [op |-> "toqp", to |-> p])
    [] r <= 90 -> GMerge([b EXCEPT !.slot = p], [op |-> "fromqp", to |-> t])
    [] r <= 93 -> GMerge([b EXCEPT !.slot = p], [op |-> "copyqp", to |-> 7 - p])
    [] r <= 96 -> GMerge([b EXCEPT !.slot = p], [op |-> "level", v |-> Rnd(s, 6, -2, 3)])
    [] r <= 98 -> GMerge([b EXCEPT !.slot = Pick(s, 6, <<t, p>>)], [op |-> "print"])
    [] OTHER -> GMerge([b EXCEPT !.slot = p], [op |-> "resetqp"])
OptB(s) == <<[adt |-> "opt", op |-> "new", slot |-> 1], [adt |-> "opt", op |-> "new", slot |-> 2], [adt |-> "opt", op |-> "newqp", slot |-> 3, cls |-> Pick(s, 1, <<"B", "Q", "S">>)],
             [adt |-> "opt", op |-> "newqp", slot |-> 4, cls |-> Pick(s, 2, <<"B", "Q", "S">>)]>> \o [i \in 1..Rnd(s, 3, 8, 25) |-> OptCall(Hash(s, 100 + i))]
-------------------------------------------------------------------------------
(* message handlers; slot 0 is the global one *)
MsgCode(s) == IF Chance(s, 30, 4) THEN "5000" ELSE IF Chance(s, 31, 4) THEN "-1" ELSE MsgTable[Rnd(s, 32, 1, Len(MsgTable))][1]
MsgCall(s) ==
  LET r == Rnd(s, 1, 1, 100) t == Rnd(s, 2, 0, 2) b == [adt |-> "msg", slot |-> t] w == Pick(s, 3, <<"E", "W", "I">>) IN
  CASE r <= 45 -> GMerge(b, [op |-> "throw", cls |-> w, code |-> MsgCode(s), vis |-> Chance(s, 4, 85), add |-> Pick(s, 5, <<"", "", "more", "17 of 3">>)])
    [] r <= 55 -> GMerge([b EXCEPT !.slot = 0], [op |-> "macro", cls |-> w, code |-> MsgCode(s)])
    [] r <= 67 -> GMerge(b, [op |-> "setvis", cls |-> w, vis |-> Chance(s, 4, 65)])
    [] r <= 74 -> GMerge(b, [op |-> "count", v |-> Pick(s, 4, <<-2, -1, -1, 0, 1, 7, 20, 21, 22, 400>>)])
    [] r <= 79 -> GMerge(b, [op |-> "reset"])
    [] r <= 84 -> IF Chance(s, 4, 50) THEN GMerge([b EXCEPT !.slot = 1], [op |-> "copy", to |-> 2]) ELSE GMerge(b, [op |-> "assign", to |-> Pick(s, 5, <<1, 2>>)])
    [] r <= 89 -> GMerge([b EXCEPT !.slot = 0], [op |-> "level", v |-> Rnd(s, 4, -2, 3)])
    [] r <= 95 -> GMerge(b, [op |-> "text", code |-> MsgCode(s)])
    [] r <= 96 -> GMerge(b, [op |-> "list"])
    [] r <= 98 -> GMerge([b EXCEPT !.slot = IF Chance(s, 4, 80) THEN 0 ELSE t], [op |-> "nofile", on |-> Chance(s, 5, 55)])
    [] OTHER -> GMerge([b EXCEPT !.slot = 0], [op |-> "simple", code |-> IF Chance(s, 4, 70) THEN Pick(s, 5, <<"SUCCESSFUL_RETURN", "RET_MAX_NWSR_REACHED", "RET_INIT_FAILED_INFEASIBILITY", "RET_HOTSTART_STOPPED_INFEASIBILITY", "RET_INIT_FAILED_UNBOUNDEDNESS", "RET_HOTSTART_STOPPED_UNBOUNDEDNESS", "RET_HOTSTART_FAILED">>) ELSE MsgTable[Rnd(s, 6, 1, Len(MsgTable))][1]])
MsgNew(s, k) == [adt |-> "msg", op |-> "new", slot |-> k, ctor |-> Pick(s, 1, <<"def", "file", "vis", "all">>), e |-> Chance(s, 2, 60), w |-> Chance(s, 3, 50), i |-> Chance(s, 4, 50)]
MsgB(s) == <<[adt |-> "msg", op |-> "obs", slot |-> 0], MsgNew(Hash(s, 1), 1), MsgNew(Hash(s, 2), 2)>> \o [i \in 1..Rnd(s, 3, 10, 30) |-> MsgCall(Hash(s, 100 + i))]
-------------------------------------------------------------------------------
(* matrices *)
RECURSIVE Draw(_, _, _)
Draw(s, L, k) == IF k = 0 \/ L = <<>> THEN <<>> ELSE LET i == Rnd(s, k, 1, Len(L)) IN <<L[i]>> \o Draw(Hash(s, 7), SubSeq(L, 1, i - 1) \o SubSeq(L, i + 1, Len(L)), k - 1)
IList(s, n) == LET k == IF Chance(s, 1, 25) THEN n ELSE Rnd(s, 2, 0, n) d == Draw(Hash(s, 3), [i \in 1..n |-> i - 1], k) IN d
MVal(s, k, dens) == IF Chance(s, 2 * k, dens) THEN IF Chance(s, 2 * k + 1, 3) THEN Rnd(s, 9999 + k, -2000, 2000) ELSE Rnd(s, 9999 + k, -4, 4) ELSE 0
MatNew(s, t) ==
  LET cls == Pick(s, 1, <<"D", "D", "SD", "C", "C", "C", "SC", "SC", "R", "R">>) sym == cls \in {"SD", "SC"} nr == Rnd(s, 2, 1, 5) nc == IF sym \/ Chance(s, 3, 30) THEN nr ELSE Rnd(s, 4, 1, 5)
      dens == Pick(s, 5, <<30, 50, 80, 100>>) dg == Chance(s, 6, 20)
      v(i, j) == LET a == IF sym /\ j > i THEN j ELSE i b == IF sym /\ j > i THEN i ELSE j IN IF dg /\ a # b THEN 0 ELSE MVal(Hash(s, 8), 10 * a + b, dens)
      src == IF Stored(cls) /\ Chance(s, 9, 60) THEN "arr" ELSE "dense" MM == [i \in 1..nr |-> [j \in 1..nc |-> v(i, j)]]
      zz == {p \in (0..nr - 1) \X (0..nc - 1) : MM[p[1] + 1][p[2] + 1] = 0 /\ Chance(s, 5000 + 10 * p[1] + p[2], IF p[1] = p[2] THEN 45 ELSE IF dg THEN 2 ELSE 15)}
  IN [adt |-> "mat", op |-> "new", slot |-> t, cls |-> cls, nr |-> nr, nc |-> nc, src |-> src, pad |-> IF src = "arr" THEN 0 ELSE Pick(s, 10, <<0, 0, 1, 3>>), own |-> Chance(s, 11, 50), M |-> MM, z |-> IF src = "arr" THEN SetToSeq(zz) ELSE <<>>]
Scal(s, k) == Pick(s, k, <<1, 1, -1, -1, 0, 2, -3>>)
VecX(s, len, xLD, xN, use) == [n \in 1..(xN * xLD) |-> IF ((n - 1) % xLD) \in use THEN IF Chance(s, 900 + n, 20) THEN 0 ELSE Rnd(s, n, -5, 5) ELSE Nan]
VecY(s, yLD, xN, beta) == [n \in 1..(xN * yLD) |-> IF beta = 0 /\ Chance(s, 900 + n, 60) THEN Nan ELSE Rnd(s, n, -6, 6)]
Vecs(s, b, lx, ly, use, beta) == LET xN == Pick(s, 41, <<1, 1, 2, 3>>) xLD == lx + Pick(s, 42, <<0, 0, 1, 2>>) yLD == ly + Pick(s, 43, <<0, 0, 1, 2>>) xl == IF xLD = 0 THEN 1 ELSE xLD yl == IF yLD = 0 THEN 1 ELSE yLD IN
  GMerge(b, [xN |-> xN, xLD |-> xl, yLD |-> yl, beta |-> beta, x |-> VecX(Hash(s, 44), lx, xl, xN, use), y |-> VecY(Hash(s, 45), yl, xN, beta)])
MatCall(s, x, t) ==
  LET r == Rnd(s, 1, 1, 120) b == [adt |-> "mat", slot |-> t] R == IList(Hash(s, 2), x.nr) C == IList(Hash(s, 3), x.nc) al == Scal(s, 4) be == Scal(s, 5)
      nullc == Chance(s, 6, 25) i == Rnd(s, 7, 0, x.nr - 1) j == Rnd(s, 8, 0, x.nc - 1) ty == Rnd(s, 9, 1, 2)
  IN CASE r <= 4 -> GMerge(b, [op |-> "full"])
       [] r <= 8 -> GMerge(b, [op |-> "diag", i |-> Rnd(s, 10, 0, (IF x.nr < x.nc THEN x.nr ELSE x.nc) - 1)])
       [] r <= 11 -> GMerge(b, [op |-> "isdiag"])
       [] r <= 13 -> GMerge(b, [op |-> "norm", type |-> ty])
       [] r <= 17 -> GMerge(b, [op |-> "rownorm", i |-> i, type |-> ty])
       [] r <= 20 -> GMerge(b, [op |-> "rownorms", type |-> ty])
       [] r <= 28 -> GMerge(b, [op |-> "getrow", i |-> i, cols |-> C, nullcols |-> nullc, alpha |-> al])
       [] r <= 35 -> GMerge(b, [op |-> "getcol", i |-> j, rows |-> R, nullrows |-> nullc /\ x.cls = "R", alpha |-> al])
       [] r <= 45 -> LET sq == x.cls \in {"SD", "SC"} low == sq /\ Chance(s, 10, 60) w == IF low THEN Pick(s, 11, <<"lists", "arrays">>) ELSE Pick(s, 11, <<"lists", "arrays", "col", "row">>)
                         rr == IF w = "row" THEN <<i>> ELSE IF low THEN C ELSE R cc == IF w = "col" THEN <<j>> ELSE C
                     IN GMerge(b, [op |-> "sub", how |-> w, low |-> low, rows |-> rr, cols |-> cc, ro |-> Rnd(s, 12, 0, 7), co |-> Rnd(s, 13, -1, 7)])
       [] r <= 46 -> GMerge(b, [op |-> "badsub", low |-> Chance(s, 10, 50) /\ x.cls \in {"SD", "SC"}])
       [] r <= 56 -> Vecs(s, GMerge(b, [op |-> "times", alpha |-> al]), x.nc, x.nr, 0..x.nc - 1, be)
       [] r <= 66 -> Vecs(s, GMerge(b, [op |-> "trans", alpha |-> al]), x.nr, x.nc, 0..x.nr - 1, be)
       [] r <= 84 -> LET lx == IF nullc THEN x.nc ELSE Len(C) compr == Chance(s, 10, 50) IN
                     Vecs(s, GMerge(b, [op |-> "rtimes", alpha |-> al, rows |-> R, cols |-> C, nullcols |-> nullc, compr |-> compr]), lx, IF compr THEN Len(R) ELSE x.nr, 0..lx - 1, be)
       [] r <= 96 -> Vecs(s, GMerge(b, [op |-> "rtrans", alpha |-> al, rows |-> R, cols |-> C]), Len(R), Len(C), 0..Len(R) - 1, be)
       [] r <= 102 -> GMerge(b, [op |-> "diaginfo"])
       [] r <= 110 -> GMerge(b, [op |-> "add", alpha |-> Pick(s, 10, <<1, -1, 5, 0, -2>>)])
       [] r <= 113 -> IF x.cls \in {"C", "SC"} THEN GMerge(b, [op |-> "setval", M |-> [p \in 1..x.nr |-> [q \in 1..x.nc |-> IF x.cls = "SC" /\ q > p THEN MVal(Hash(s, 12), 10 * q + p, 80) ELSE MVal(Hash(s, 12), 10 * p + q, 80)]]]) ELSE GMerge(b, [op |-> "full"])
       [] r <= 116 -> GMerge(b, [op |-> "dup", to |-> 3 - t, sym |-> x.cls \in {"SD", "SC"} /\ Chance(s, 10, 50)])
       [] r <= 117 -> GMerge(b, [op |-> "print"])
       [] OTHER -> MatNew(Hash(s, 13), t)
\* symmetric classes also evaluate quadratic forms
Bilin(s, x, t) == LET C == IList(Hash(s, 3), x.nc) v == Vecs(s, [adt |-> "mat", slot |-> t, op |-> "bilin", cols |-> C], x.nc, 3, {C[k] : k \in 1..Len(C)}, 0) IN v
MatCall2(s, x, t) == IF x.cls \in {"SD", "SC"} /\ Chance(s, 60, 18) THEN Bilin(Hash(s, 61), x, t) ELSE MatCall(s, x, t)
SymOK(x) == \A p \in x.st : <<p[2], p[1]>> \in x.st
RECURSIVE MatWalk(_, _, _, _)
MatWalk(i, s, sl, n) == IF i > n THEN <<>> ELSE
  LET h == Hash(s, 100 + i) t == IF Chance(h, 0, 70) THEN 1 ELSE 2 c0 == MatCall2(h, sl[t], t)
      c == IF c0.op = "setval" /\ sl[t].cls = "SC" /\ ~SymOK(sl[t]) THEN [adt |-> "mat", slot |-> t, op |-> "full"] ELSE c0 IN
  <<c>> \o MatWalk(i + 1, s, IF c.op = "dup" THEN [sl EXCEPT ![c.to] = sl[t]] ELSE IF c.op = "new" THEN [sl EXCEPT ![t] = XNew(c)] ELSE [sl EXCEPT ![t] = XApply(sl[t], c)[2]], n)
MatB(s) == LET c1 == MatNew(Hash(s, 1), 1) c2 == MatNew(Hash(s, 2), 2) IN <<c1, c2>> \o MatWalk(1, s, <<XNew(c1), XNew(c2)>>, Rnd(s, 3, 8, 20))
-------------------------------------------------------------------------------
(* residuals of KKT conditions and norms *)
FnLim(s, k) == LET r == Rnd(s, k, 1, 100) IN IF r <= 15 THEN -1000000 ELSE IF r <= 30 THEN 1000000 ELSE Rnd(s, 500 + k, -8, 8)
FnVec(s, len, zero, a) == [i \in 1..len |-> IF Chance(s, 300 + i, zero) THEN 0 ELSE Rnd(s, i, -a, a)]
FnLo(s, len) == [i \in 1..len |-> LET v == FnLim(s, i) IN IF v = 1000000 THEN -1000000 ELSE v]
FnHi(s, len) == [i \in 1..len |-> LET v == FnLim(s, i) IN IF v = -1000000 THEN 1000000 ELSE v]
FnCall(s) ==
  LET r == Rnd(s, 1, 1, 100) n == Rnd(s, 2, 1, 5) m == Rnd(s, 3, 0, 4) z == Pick(s, 4, <<0, 30, 70, 95>>) nms == <<"H", "g", "A", "lb", "ub", "lbA", "ubA", "wb", "wc">>
      ws(k, len, lo, hi) == [i \in 1..len |-> Rnd(s, k + i, -1, 1)] one == Chance(s, 9, 40) foc == Rnd(s, 10, 1, n + m)
      nul == SelectSeq(nms, LAMBDA a : Chance(s, 20 + Len(a) + (IF a \in {"lb", "lbA"} THEN 10 ELSE IF a = "g" THEN 20 ELSE IF a = "A" THEN 30 ELSE IF a \in {"wb", "wc"} THEN 40 ELSE 0), IF a \in {"wb", "wc"} THEN 45 ELSE 12))
  IN IF r <= 12 THEN [adt |-> "fn", op |-> "norm", slot |-> 1, type |-> Rnd(s, 5, 1, 2), x |-> IF Chance(s, 6, 30) THEN Pick(s, 7, <<<<3, -4>>, <<-6, 8, 0>>, <<2, -3, 6>>, <<5>>, <<1, 2, 2, 4>>, <<-12, 5>>>>) ELSE FnVec(Hash(s, 8), n, z, 9)]
     ELSE LET lb == FnLo(Hash(s, 31), n) ub == FnHi(Hash(s, 32), n) lbA == FnLo(Hash(s, 33), m) ubA == FnHi(Hash(s, 34), m)
              y0 == FnVec(Hash(s, 36), n + m, z, 5) y == IF one THEN [i \in 1..(n + m) |-> IF i = foc THEN y0[i] ELSE 0] ELSE y0 IN
          [adt |-> "fn", op |-> IF Chance(s, 5, 25) THEN "violb" ELSE "viol", slot |-> 1, n |-> n, m |-> m, ident |-> Chance(s, 6, 50), nul |-> nul,
           H |-> [i \in 1..n |-> FnVec(Hash(s, 400 + i), n, z, 5)], g |-> FnVec(Hash(s, 30), n, z, 9), A |-> [i \in 1..m |-> FnVec(Hash(s, 410 + i), n, z \div 2, 4)],
           lb |-> lb, ub |-> ub, lbA |-> lbA, ubA |-> ubA, x |-> FnVec(Hash(s, 35), n, z, 9), y |-> y, wb |-> ws(600, n, lb, ub), wc |-> ws(620, m, lbA, ubA)]
FnB(s) == [i \in 1..12 |-> FnCall(Hash(s, 100 + i))]
-------------------------------------------------------------------------------
(* the option structure of the C interface (slot 5), handed to option sets and problem objects *)
CIntF == <<"enableDriftCorrection", "enableCholeskyRefactorisation", "numRegularisationSteps", "numRefinementSteps", "dropBoundPriority", "dropEqConPriority", "dropIneqConPriority">>
COptCall(s) ==
  LET r == Rnd(s, 1, 1, 100) t == Rnd(s, 2, 1, 2) b == [adt |-> "opt", slot |-> 5] IN
  CASE r <= 18 -> GMerge(b, [op |-> "cnew", mode |-> Rnd(s, 3, 0, 2)])
    [] r <= 50 -> GMerge(b, [op |-> "cset", fields |-> ORows(Hash(s, 4), Rnd(s, 5, 1, 5))])
    [] r <= 82 -> GMerge(b, [op |-> "ctoopt", to |-> t])
    [] r <= 86 -> GMerge(b, [op |-> "cnull", what |-> Pick(s, 3, <<"init", "from", "to">>)])
    [] OTHER -> OptCall(Hash(s, 6))
COptB(s) == OptB(Hash(s, 9)) \o <<[adt |-> "opt", slot |-> 5, op |-> "consts"], [adt |-> "opt", slot |-> 5, op |-> "cnew", mode |-> Rnd(s, 3, 0, 2)]>> \o [i \in 1..Rnd(s, 4, 6, 16) |-> COptCall(Hash(s, 200 + i))]
-------------------------------------------------------------------------------
(* data files and MAT files *)
FTok(s, int) == IF int THEN <<"i", IF Chance(s, 2, 10) THEN Pick(s, 3, <<2000000000 \div 3, -123456, 999999>>) ELSE Rnd(s, 4, -30, 30)>>
  ELSE CASE Rnd(s, 1, 1, 10) <= 4 -> <<"i", Rnd(s, 4, -99, 99)>> [] Rnd(s, 1, 1, 10) <= 6 -> <<"e", 2 * Rnd(s, 5, -40, 40) + 1>> [] Rnd(s, 1, 1, 10) = 7 -> <<"t", 5 * Rnd(s, 5, -9, 9) + 1>>
         [] Rnd(s, 1, 1, 10) = 8 -> <<"v", 7 * Rnd(s, 5, -9, 9) + 3>> [] Rnd(s, 1, 1, 10) = 9 -> <<"m", 3 * Rnd(s, 5, 1, 20)>> [] OTHER -> <<"h", Pick(s, 5, <<1, -1, 7>>)>>
FToks(s, n, int) == [i \in 1..n |-> FTok(Hash(s, i), int)]
FileCall(s, fs) ==
  LET r == Rnd(s, 1, 1, 100) f == IF Chance(s, 2, 4) THEN -1 ELSE Rnd(s, 3, 0, 2) b == [adt |-> "file", slot |-> 1, f |-> f] R == Rnd(s, 4, 0, 3) C == Rnd(s, 5, 0, 4)
      have == IF f < 0 \/ fs[f] = FNone THEN 0 ELSE Len(FFlat(fs[f]))
      want == IF Chance(s, 6, 60) THEN have ELSE Rnd(s, 7, 0, have + 2)
      divs == {d \in 1..6 : want % d = 0} d == IF want = 0 THEN 1 ELSE CHOOSE d \in divs : \A q \in divs : Rnd(Hash(s, 70 + d), 1, 1, 1000) * 10 + d >= Rnd(Hash(s, 70 + q), 1, 1, 1000) * 10 + q
  IN CASE r <= 16 -> GMerge(b, [op |-> "wreal", vec |-> FALSE, r |-> R, c |-> C, app |-> Chance(s, 8, 50), d |-> FToks(Hash(s, 9), R * C, FALSE)])
       [] r <= 26 -> GMerge(b, [op |-> "wreal", vec |-> TRUE, r |-> 1, c |-> C, app |-> Chance(s, 8, 50), d |-> FToks(Hash(s, 9), C, FALSE)])
       [] r <= 40 -> GMerge(b, [op |-> "wint", app |-> Chance(s, 8, 50), d |-> FToks(Hash(s, 9), C, TRUE)])
       [] r <= 47 -> GMerge([b EXCEPT !.f = IF f < 0 THEN 0 ELSE f], [op |-> "text", lines |-> [i \in 1..R |-> LET L == FToks(Hash(s, 9 + i), Rnd(s, 10 + i, 0, 4), Chance(s, 8, 50)) IN IF Chance(s, 20 + i, 20) /\ Len(L) > 0 THEN [L EXCEPT ![Rnd(s, 30 + i, 1, Len(L))] = <<"w", 0>>] ELSE L]])
       [] r <= 49 -> GMerge([b EXCEPT !.f = IF f < 0 THEN 0 ELSE f], [op |-> "unlink"])
       [] r <= 68 -> GMerge(b, [op |-> "rreal", vec |-> Chance(s, 8, 40), r |-> want \div d, c |-> d])
       [] r <= 80 -> LET c == GMerge(b, [op |-> "rint", c |-> want]) IN IF FVague(fs, c) THEN GMerge(b, [op |-> "rreal", vec |-> TRUE, r |-> 1, c |-> want]) ELSE c
       [] OTHER -> LET int == Chance(s, 8, 40) bad == IF Chance(s, 12, 15) THEN Pick(s, 13, <<"file", "data", "name", "rows", "cols">>) ELSE "" IN
                   GMerge(b, [op |-> "mat", f |-> 0, int |-> int, bad |-> bad, r |-> IF bad = "rows" THEN -1 ELSE R, c |-> IF bad = "cols" THEN -2 ELSE C, name |-> Pick(s, 14, <<"H", "lbA", "a", "IAC_idx", "ubAlong">>), d |-> FToks(Hash(s, 9), R * C, int)])
RECURSIVE FileWalk(_, _, _, _)
FileWalk(i, s, fs, n) == IF i > n THEN <<>> ELSE LET c == FileCall(Hash(s, 100 + i), fs) IN <<c>> \o FileWalk(i + 1, s, FWrite(fs, c)[2], n)
FileB(s) == FileWalk(1, s, FNew, Rnd(s, 3, 8, 20))
-------------------------------------------------------------------------------
Behaviour(sd) == LET s == Hash(sd, 1) IN
  [id |-> sd, steps |-> CASE Profile = "idx" -> IdxB(s) [] Profile = "idxall" -> IdxX(sd) [] Profile = "lim" -> LimB(s) [] Profile = "opt" -> OptB(s) [] Profile = "mat" -> MatB(s) [] Profile = "fn" -> FnB(s) [] Profile = "copt" -> COptB(s) [] Profile = "file" -> FileB(s) [] OTHER -> MsgB(s)]
Init == done = FALSE
Next == ~done /\ done' = TRUE
Emitted == done => ndJsonSerialize(Out, [i \in 1..ChunkSize |-> Behaviour(Base + Chunk * ChunkSize + i)])
=============================================================================
