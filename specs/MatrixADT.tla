----------------------------- MODULE MatrixADT -----------------------------
(* Matrices, independent of their storage: a value is its entries plus what the storage format makes observable (which entries
   are stored, and whether the positions of the diagonal are known).  Entries, scalars and vectors are integers, so that the
   floating-point results of the code are exact and have to match exactly.  Nan marks array positions the code must not read
   (and, in results, positions it must not write). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, FiniteSetsExt, SequencesExt
XOK == "SUCCESSFUL_RETURN"
Nan == 9999998
XBig == 9999999
XSum(f(_), K) == FoldSet(LAMBDA k, a : a + f(k), 0, K)
At(x, i, j) == x.M[i + 1][j + 1]
Stored(cls) == cls \in {"C", "SC", "R"}
DiagPos(x) == {k \in 0..x.nr - 1 : k < x.nc}
\* src: "dense" entries given as an array (sparse classes also store the whole diagonal), "arr" compressed arrays with the extra stored zeros z
XNew(c) == LET nz == {<<i, j>> \in (0..c.nr - 1) \X (0..c.nc - 1) : c.M[i + 1][j + 1] # 0} IN
  [cls |-> c.cls, nr |-> c.nr, nc |-> c.nc, M |-> c.M, jd |-> FALSE,
   st |-> IF ~Stored(c.cls) THEN {} ELSE IF c.src = "arr" THEN nz \cup {<<p[1], p[2]>> : p \in {c.z[k] : k \in 1..Len(c.z)}} ELSE nz \cup {<<k, k>> : k \in {k \in 0..c.nr - 1 : k < c.nc}}]
Rows(c, x) == IF c.nullrows THEN [k \in 1..x.nr |-> k - 1] ELSE c.rows
Cols(c, x) == IF c.nullcols THEN [k \in 1..x.nc |-> k - 1] ELSE c.cols
Pos(L, v) == CHOOSE k \in 1..Len(L) : L[k] = v
\* a vector operation writes positions P (0-based, within a column of y) with value V(p, k) for right-hand side k
Put(y, yLD, xN, P, V(_, _), beta) ==
  [n \in 1..Len(y) |-> LET k == (n - 1) \div yLD p == (n - 1) % yLD IN
     IF k < xN /\ p \in P THEN V(p, k) + (IF beta = 0 THEN 0 ELSE beta * y[n]) ELSE y[n]]
Xat(c, p, k) == c.x[k * c.xLD + p + 1]
XTimes(x, c) == LET V(p, k) == c.alpha * XSum(LAMBDA j : At(x, p, j) * Xat(c, j, k), 0..x.nc - 1) IN Put(c.y, c.yLD, c.xN, 0..x.nr - 1, V, c.beta)
XTrans(x, c) == LET V(p, k) == c.alpha * XSum(LAMBDA i : At(x, i, p) * Xat(c, i, k), 0..x.nr - 1) IN Put(c.y, c.yLD, c.xN, 0..x.nc - 1, V, c.beta)
XRTimes(x, c) ==
  LET R == c.rows C == Cols(c, x)
      W(i, k) == c.alpha * XSum(LAMBDA q : At(x, i, C[q]) * Xat(c, q - 1, k), 1..Len(C))
      V(p, k) == IF c.compr THEN W(R[p + 1], k) ELSE W(p, k)
  IN Put(c.y, c.yLD, c.xN, IF c.compr THEN 0..Len(R) - 1 ELSE {R[q] : q \in 1..Len(R)}, V, c.beta)
XRTrans(x, c) ==
  LET R == c.rows C == c.cols V(p, k) == c.alpha * XSum(LAMBDA q : At(x, R[q], C[p + 1]) * Xat(c, q - 1, k), 1..Len(R))
  IN Put(c.y, c.yLD, c.xN, 0..Len(C) - 1, V, c.beta)
XBilin(x, c) ==
  LET C == {c.cols[q] : q \in 1..Len(c.cols)}
      V(p, k) == XSum(LAMBDA i : Xat(c, i, k) * XSum(LAMBDA j : At(x, i, j) * Xat(c, j, p), C), C)
  IN Put(c.y, c.yLD, c.xN, 0..c.xN - 1, V, 0)
XNorm(S, t, v(_)) == XSum(LAMBDA s : IF t = 1 THEN IF v(s) < 0 THEN -v(s) ELSE v(s) ELSE v(s) * v(s), S)
XSub(x, c) == LET R == c.rows C == c.cols E == {<<p, q>> \in (1..Len(R)) \X (1..Len(C)) : (c.low => q <= p) /\ At(x, R[p], C[q]) # 0}
  IN {<<p - 1 + c.ro, q - 1 + c.co, At(x, R[p], C[q])>> : <<p, q>> \in E}
XSubStored(x, c) == LET R == c.rows C == c.cols IN Cardinality({<<p, q>> \in (1..Len(R)) \X (1..Len(C)) : (c.low => q <= p) /\ IF Stored(x.cls) THEN <<R[p], C[q]>> \in x.st ELSE At(x, R[p], C[q]) # 0})
SetSeq(f(_, _), x) == [i \in 1..x.nr |-> [j \in 1..x.nc |-> f(i - 1, j - 1)]]
\* what a call returns (a record of observations) and the matrix after it
XApply(x, c) ==
  LET noJd == Stored(x.cls) /\ ~x.jd nod == "RET_DIAGONAL_NOT_INITIALISED" IN
  CASE c.op = "full" -> <<XOK, x, <<>>>>
    [] c.op = "diag" -> <<XOK, x, [v |-> IF noJd THEN XBig ELSE At(x, c.i, c.i)]>>
    [] c.op = "isdiag" -> <<XOK, x, IF Stored(x.cls) /\ \E p \in x.st : p[1] # p[2] /\ At(x, p[1], p[2]) = 0 THEN <<>> ELSE
                              [b |-> x.nr = x.nc /\ \A i \in 0..x.nr - 1, j \in 0..x.nc - 1 : i # j => At(x, i, j) = 0]>>
    [] c.op = "norm" -> <<XOK, x, [v |-> XNorm((0..x.nr - 1) \X (0..x.nc - 1), c.type, LAMBDA p : At(x, p[1], p[2]))]>>
    [] c.op = "rownorm" -> <<XOK, x, [v |-> XNorm(0..x.nc - 1, c.type, LAMBDA j : At(x, c.i, j))]>>
    [] c.op = "rownorms" -> <<XOK, x, [y |-> [i \in 1..x.nr |-> XNorm(0..x.nc - 1, c.type, LAMBDA j : At(x, i - 1, j))]]>>
    [] c.op = "getrow" -> LET C == Cols(c, x) IN <<XOK, x, [y |-> [k \in 1..Len(C) |-> c.alpha * At(x, c.i, C[k])]]>>
    [] c.op = "getcol" -> LET R == Rows(c, x) IN <<XOK, x, [y |-> [k \in 1..Len(R) |-> c.alpha * At(x, R[k], c.i)]]>>
    [] c.op = "sub" -> IF x.cls = "R" THEN <<"RET_NOT_YET_IMPLEMENTED", x, <<>>>> ELSE <<XOK, x, [tri |-> XSub(x, c), cnt |-> XSubStored(x, c), n |-> XSubStored(x, c)]>>
    [] c.op = "badsub" -> <<IF x.cls = "R" THEN "RET_NOT_YET_IMPLEMENTED" ELSE "RET_INVALID_ARGUMENTS", x, <<>>>>
    [] c.op = "times" -> <<XOK, x, [y |-> XTimes(x, c)]>>
    [] c.op = "trans" -> <<XOK, x, [y |-> XTrans(x, c)]>>
    [] c.op = "rtimes" -> <<XOK, x, [y |-> XRTimes(x, c)]>>
    [] c.op = "rtrans" -> <<XOK, x, [y |-> XRTrans(x, c)]>>
    [] c.op = "bilin" -> IF noJd THEN <<nod, x, [y |-> c.y]>> ELSE <<XOK, x, [y |-> XBilin(x, c)]>>
    [] c.op = "diaginfo" -> <<XOK, [x EXCEPT !.jd = Stored(x.cls)], <<>>>>
    [] c.op = "add" -> IF ~Stored(x.cls) THEN <<XOK, [x EXCEPT !.M = SetSeq(LAMBDA i, j : At(x, i, j) + (IF i = j THEN c.alpha ELSE 0), x)], <<>>>>
                       ELSE IF ~x.jd THEN <<nod, x, <<>>>>
                       ELSE IF c.alpha # 0 /\ \E k \in DiagPos(x) : <<k, k>> \notin x.st THEN <<"RET_NO_DIAGONAL_AVAILABLE", x, <<>>>>
                       ELSE <<XOK, [x EXCEPT !.M = SetSeq(LAMBDA i, j : At(x, i, j) + (IF i = j THEN c.alpha ELSE 0), x)], <<>>>>
    [] c.op = "setval" -> <<XOK, [x EXCEPT !.M = SetSeq(LAMBDA i, j : IF <<i, j>> \in x.st THEN c.M[i + 1][j + 1] ELSE 0, x)], <<>>>>
    [] OTHER -> <<XOK, x, <<>>>>
============================================================================
