------------------------------- MODULE MatMC -------------------------------
(* Exhaustive exploration of the matrix specification on small matrices, with the algebraic laws users rely on as invariants. *)
EXTENDS MatrixADT
VARIABLES x, d
Vals == {-1, 0, 2}
Mats(r, c) == [1..r -> [1..c -> Vals]]
New(cls, r, c, M) == XNew([cls |-> cls, nr |-> r, nc |-> c, M |-> M, src |-> "arr", z |-> <<>>])
Init == d = 0 /\ \E cls \in {"D", "C", "SD"}, c \in 1..2 : (cls = "SD" => c = 2) /\ \E M \in Mats(2, c) : (cls = "SD" => M[1][2] = M[2][1]) /\ x = New(cls, 2, c, M)
Next == d < 2 /\ d' = d + 1 /\ \E c \in {[op |-> "diaginfo"], [op |-> "add", alpha |-> 1], [op |-> "add", alpha |-> -2]} : x' = XApply(x, c)[2]
Vec(n) == [1..n -> {-1, 2}]
Arg(v, n, y, yl, be, al) == [x |-> v, xLD |-> n, xN |-> 1, y |-> y, yLD |-> yl, beta |-> be, alpha |-> al]
Ext(a, b) == [k \in DOMAIN a \cup DOMAIN b |-> IF k \in DOMAIN b THEN b[k] ELSE a[k]]
Z(n) == [k \in 1..n |-> 0]
Dot(a, b) == XSum(LAMBDA k : a[k] * b[k], DOMAIN a)
Lists(n) == {<<>>} \cup {<<k>> : k \in 0..n - 1} \cup {<<p[1], p[2]>> : p \in {q \in (0..n - 1) \X (0..n - 1) : q[1] # q[2]}}
T(v, al) == XTimes(x, Arg(v, x.nc, Z(x.nr), x.nr, 0, al))
Tr(v) == XTrans(x, Arg(v, x.nr, Z(x.nc), x.nc, 0, 1))
\* transposed product: w'(A v) = (A'w)'v; the scalar factors act linearly on both arguments
Adjoint == \A v \in Vec(x.nc), w \in Vec(x.nr) : Dot(w, T(v, 1)) = Dot(Tr(w), v)
Linear == \A v \in Vec(x.nc), y \in Vec(x.nr), al, be \in {-1, 0, 3} : \A i \in 1..x.nr : XTimes(x, Arg(v, x.nc, y, x.nr, be, al))[i] = be * y[i] + al * T(v, 1)[i]
\* submatrix products: the same as the product with the submatrix; uncompressed results are the compressed ones put in place, everything else untouched
Restricted == \A R \in Lists(x.nr), C \in Lists(x.nc) : \A v \in Vec(Len(C)) :
  LET a(compr, y) == Ext(Arg(v, Len(C), y, Len(y), -1, 3), [rows |-> R, cols |-> C, nullcols |-> FALSE, compr |-> compr])
      f == XRTimes(x, a(FALSE, [k \in 1..x.nr |-> 10 + k]))
      g == IF R = <<>> THEN <<>> ELSE XRTimes(x, a(TRUE, [k \in 1..Len(R) |-> 11 + R[k]]))
  IN /\ \A k \in 1..Len(R) : f[R[k] + 1] = g[k] /\ g[k] = 3 * XSum(LAMBDA q : At(x, R[k], C[q]) * v[q], 1..Len(C)) - (11 + R[k])
     /\ \A i \in 0..x.nr - 1 : (\A k \in 1..Len(R) : R[k] # i) => f[i + 1] = 11 + i
\* the triples of a submatrix are its nonzeros
Triples == \A R \in Lists(x.nr), C \in Lists(x.nc) : LET t == XSub(x, [rows |-> R, cols |-> C, low |-> FALSE, ro |-> 1, co |-> 5]) IN
  \A p \in 1..Len(R), q \in 1..Len(C) : LET h == {e \in t : e[1] = p /\ e[2] = q + 4} IN (At(x, R[p], C[q]) = 0 /\ h = {}) \/ h = {<<p, q + 4, At(x, R[p], C[q])>>}
Quad == x.cls = "SD" => \A v \in Vec(2) : XBilin(x, [x |-> v, xLD |-> 2, xN |-> 1, y |-> <<0>>, yLD |-> 1, cols |-> <<1, 0>>])[1] = Dot(v, T(v, 1))
Shift == LET s == XApply(x, [op |-> "add", alpha |-> 2]) IN (s[1] # XOK => s[2] = x) /\ (s[1] = XOK => XApply(s[2], [op |-> "add", alpha |-> -2])[2] = x)
=============================================================================
