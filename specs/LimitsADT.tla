----------------------------- MODULE LimitsADT -----------------------------
(* Bounds and constraints: every index has a type and a status; the free (inactive) and the fixed (active) indices form two
   ordered lists.  Slot: [cls, n, ty, st, fr, fx, nolo, noup].  Statuses L, I, U, N (not set up), types U(nbounded), B(ounded),
   E(quality), D(isabled), ? (unknown). *)
EXTENDS IndexADT
LNew(cls, k) == LET n == IF k < 0 THEN 0 ELSE k IN [cls |-> cls, n |-> n, ty |-> [i \in 1..n |-> "?"], st |-> [i \in 1..n |-> "N"], fr |-> <<>>, fx |-> <<>>, nolo |-> TRUE, noup |-> TRUE]
LIn(x, i) == i >= 0 /\ i < x.n
LSetup(x, i, st) == IF st = "I" THEN [x EXCEPT !.st[i + 1] = st, !.fr = Append(@, i)] ELSE [x EXCEPT !.st[i + 1] = st, !.fx = Append(@, i)]
LFail(x, t) == "RET_" \o t \o (IF x.cls = "B" THEN "_BOUND_FAILED" ELSE "_CONSTRAINT_FAILED")
Oob == "RET_INDEX_OUT_OF_BOUNDS"
RECURSIVE LSel(_, _, _)
LSel(x, S, i) == IF i > x.n THEN <<>> ELSE (IF x.ty[i] \in S THEN <<i - 1>> ELSE <<>>) \o LSel(x, S, i + 1)
LAllOrder(x) == LSel(x, {"U"}, 1) \o LSel(x, {"B"}, 1) \o LSel(x, {"E"}, 1) \o LSel(x, {"?", "D"}, 1)
LStat(x, S) == LET RECURSIVE G(_) G(i) == IF i > x.n THEN <<>> ELSE (IF x.st[i] \in S THEN <<i - 1>> ELSE <<>>) \o G(i + 1) IN G(1)
LRebuild(x) == [x EXCEPT !.fr = LStat(x, {"I"}), !.fx = LStat(x, {"L", "U"})]
LShift(x, k) == LRebuild([x EXCEPT !.ty = [i \in 1..x.n |-> IF i <= x.n - k THEN x.ty[i + k] ELSE x.ty[i]], !.st = [i \in 1..x.n |-> IF i <= x.n - k THEN x.st[i + k] ELSE x.st[i]]])
LRotate(x, k) == LET s(i) == IF i + k > x.n THEN i + k - x.n ELSE i + k IN LRebuild([x EXCEPT !.ty = [i \in 1..x.n |-> x.ty[s(i)]], !.st = [i \in 1..x.n |-> x.st[s(i)]]])
LApply(x, c) ==
  CASE c.op = "init" -> IF c.n < 0 THEN <<"RET_INVALID_ARGUMENTS", x>> ELSE <<IOK, LNew(x.cls, c.n)>>
    [] c.op = "setup" -> IF ~LIn(x, c.i) THEN <<Oob, x>> ELSE IF c.st = "N" THEN <<"RET_INVALID_ARGUMENTS", x>>
                         ELSE IF x.st[c.i + 1] = c.st THEN <<LFail(x, "SETUP"), x>> ELSE <<IOK, LSetup(x, c.i, c.st)>>
    [] c.op = "all" -> <<IOK, [x EXCEPT !.st = [i \in 1..x.n |-> c.st], !.fr = IF c.st = "I" THEN LAllOrder(x) ELSE @, !.fx = IF c.st = "I" THEN @ ELSE LAllOrder(x)]>>
    [] c.op = "tofree" -> IF ~LIn(x, c.i) THEN <<Oob, x>> ELSE <<IOK, [x EXCEPT !.st[c.i + 1] = "I", !.fx = IRemove(@, c.i), !.fr = Append(@, c.i)]>>
    [] c.op = "tofix" -> IF ~LIn(x, c.i) THEN <<Oob, x>> ELSE <<IOK, [x EXCEPT !.st[c.i + 1] = c.st, !.fr = IRemove(@, c.i), !.fx = Append(@, c.i)]>>
    [] c.op = "flip" -> IF ~LIn(x, c.i) THEN <<Oob, x>> ELSE IF x.st[c.i + 1] \notin {"L", "U"} THEN <<LFail(x, "MOVING"), x>>
                        ELSE <<IOK, [x EXCEPT !.st[c.i + 1] = IF @ = "L" THEN "U" ELSE "L"]>>
    [] c.op = "swap" -> IF ~LIn(x, c.i) \/ ~LIn(x, c.j) THEN <<Oob, x>> ELSE IF x.st[c.i + 1] # x.st[c.j + 1] THEN <<"RET_SWAPINDEX_FAILED", x>>
                        ELSE IF c.i = c.j THEN <<IOK, x>> ELSE IF IMem(x.fr, c.i) /\ IMem(x.fr, c.j) THEN <<IOK, [x EXCEPT !.fr = ISwap(@, c.i, c.j)]>> ELSE <<"RET_SWAPINDEX_FAILED", x>>
    [] c.op = "shift" -> IF c.i = 0 \/ x.n <= 1 THEN <<IOK, x>> ELSE IF c.i < 0 \/ c.i > x.n \div 2 THEN <<Oob, x>> ELSE IF x.n % c.i # 0 THEN <<"RET_INVALID_ARGUMENTS", x>> ELSE <<IOK, LShift(x, c.i)>>
    [] c.op = "rotate" -> IF c.i = 0 \/ c.i = x.n \/ x.n <= 1 THEN <<IOK, x>> ELSE IF c.i < 0 \/ c.i > x.n THEN <<Oob, x>> ELSE <<IOK, LRotate(x, c.i)>>
    [] c.op = "type" -> IF ~LIn(x, c.i) THEN <<Oob, x>> ELSE <<IOK, [x EXCEPT !.ty[c.i + 1] = c.ty]>>
    [] c.op = "status" -> IF ~LIn(x, c.i) THEN <<Oob, x>> ELSE <<IOK, [x EXCEPT !.st[c.i + 1] = c.st]>>
    [] c.op = "nolo" -> <<IOK, [x EXCEPT !.nolo = c.on]>>
    [] c.op = "noup" -> <<IOK, [x EXCEPT !.noup = c.on]>>
    [] OTHER -> <<IOK, x>>
LCount(x, t) == Cardinality({i \in 1..x.n : x.ty[i] = t})
LObs(x) == [n |-> x.n, type |-> <<"?">> \o x.ty \o <<"?">>, st |-> <<"N">> \o x.st \o <<"N">>, nolo |-> x.nolo, noup |-> x.noup,
            neq |-> LCount(x, "E"), nbd |-> LCount(x, "B"), nun |-> LCount(x, "U"), nfr |-> Len(x.fr), nfx |-> Len(x.fx), fr |-> x.fr, fx |-> x.fx]
LInv(x) == /\ \A i \in 1..x.n : (x.st[i] = "I") = IMem(x.fr, i - 1) /\ (x.st[i] \in {"L", "U"}) = IMem(x.fx, i - 1)
           /\ Len(x.fr) + Len(x.fx) = Cardinality({i \in 1..x.n : x.st[i] # "N"})
\* calls that keep to the contract: no index is put into a list twice
LLegal(x, c) ==
  CASE c.op = "setup" -> ~LIn(x, c.i) \/ x.st[c.i + 1] = "N" \/ c.st \in {"N", x.st[c.i + 1]}
    [] c.op = "all" -> \A i \in 1..x.n : x.st[i] = "N"
    [] c.op = "tofree" -> ~LIn(x, c.i) \/ x.st[c.i + 1] \in {"L", "U"}
    [] c.op = "tofix" -> ~LIn(x, c.i) \/ (x.st[c.i + 1] = "I" /\ c.st \in {"L", "U"})
    [] c.op = "swap" -> x.cls = "B" /\ (LIn(x, c.i) /\ LIn(x, c.j) => x.st[c.i + 1] # "N")
    [] c.op = "shift" -> \A i \in 1..x.n : x.st[i] # "N"
    [] c.op = "rotate" -> \A i \in 1..x.n : x.st[i] # "N"
    [] c.op = "status" -> ~LIn(x, c.i) \/ (x.st[c.i + 1] \in {"L", "U"} /\ c.st \in {"L", "U"}) \/ (x.st[c.i + 1] = "I" /\ c.st = "I")
    [] OTHER -> TRUE
=============================================================================
