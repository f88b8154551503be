----------------------------- MODULE IndexADT -----------------------------
(* Index lists: a finite sequence of pairwise different numbers with a capacity, searched through a sorted view.
   A slot holds [cap, s]; Apply gives the return code and the new value of every call, Obs everything that can be queried. *)
EXTENDS Integers, Sequences, FiniteSets
IOK == "SUCCESSFUL_RETURN"
IEmpty(n) == [cap |-> IF n < 0 THEN 0 ELSE n, s |-> <<>>]
IMem(s, k) == \E i \in 1..Len(s) : s[i] = k
IPos(s, k) == CHOOSE i \in 1..Len(s) : s[i] = k
IRemove(s, k) == IF IMem(s, k) THEN LET p == IPos(s, k) IN SubSeq(s, 1, p - 1) \o SubSeq(s, p + 1, Len(s)) ELSE s
ISwap(s, a, b) == [s EXCEPT ![IPos(s, a)] = b, ![IPos(s, b)] = a]
IApply(x, c) ==
  CASE c.op = "init" -> IF c.n < 0 THEN <<"RET_INVALID_ARGUMENTS", x>> ELSE <<IOK, IEmpty(c.n)>>
    [] c.op = "add" -> IF Len(x.s) >= x.cap THEN <<"RET_INDEXLIST_EXCEEDS_MAX_LENGTH", x>> ELSE <<IOK, [x EXCEPT !.s = Append(@, c.k)]>>
    [] c.op = "rem" -> <<IOK, [x EXCEPT !.s = IRemove(@, c.k)]>>
    [] c.op = "swap" -> IF IMem(x.s, c.a) /\ IMem(x.s, c.b) THEN <<IOK, [x EXCEPT !.s = ISwap(@, c.a, c.b)]>> ELSE <<"RET_INDEXLIST_CORRUPTED", x>>
    [] OTHER -> <<IOK, x>>
ISorted(s) == LET n == Len(s) rank(i) == Cardinality({j \in 1..n : s[j] < s[i]}) IN [r \in 1..n |-> (CHOOSE i \in 1..n : rank(i) = r - 1) - 1]
IObs(x, u) == LET n == Len(x.s) IN
  [len |-> n, num |-> <<-1>> \o x.s \o <<-1>>, arr |-> x.s, isort |-> ISorted(x.s), last |-> IF n > 0 THEN x.s[n] ELSE -1,
   idx |-> [i \in 1..Len(u) |-> IF IMem(x.s, u[i]) THEN IPos(x.s, u[i]) - 1 ELSE -1], mem |-> [i \in 1..Len(u) |-> IF IMem(x.s, u[i]) THEN 1 ELSE 0]]
IInv(x) == Len(x.s) <= x.cap /\ \A i, j \in 1..Len(x.s) : x.s[i] = x.s[j] => i = j
=============================================================================
