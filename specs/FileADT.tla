------------------------------ MODULE FileADT ------------------------------
(* Data files: numbered files hold lines of tokens <<kind, value, integer text?>>; numbers are exact pairs: <<"i", k>> = k,
   <<"e", k>> = k/8, <<"t", k>> = k/10, <<"v", k>> = k/7, <<"m", k>> = k/10^12, <<"h", k>> = k 10^20, <<"w", 0>> = a word.
   MAT files are sequences of variables, stored column by column. *)
EXTENDS Integers, Sequences, TLC
FOK == "SUCCESSFUL_RETURN"
FNone == <<<<<<"none", 0, FALSE>>>>>>                       \* no such file
FNew == [f \in 0..3 |-> FNone]
Toks(ts, int) == [i \in 1..Len(ts) |-> <<ts[i][1], ts[i][2], int \/ FALSE>>]
RECURSIVE FFlat(_)
FFlat(ls) == IF ls = <<>> THEN <<>> ELSE Head(ls) \o FFlat(Tail(ls))
FLine(d, i, c) == [j \in 1..c |-> d[(i - 1) * c + j]]
FHas(fs, f) == f >= 0 /\ fs[f] # FNone
FPut(fs, f, app, ls) == IF f < 0 THEN <<"RET_UNABLE_TO_OPEN_FILE", fs>> ELSE <<FOK, [fs EXCEPT ![f] = IF app /\ @ # FNone THEN @ \o ls ELSE ls]>>
FNum(t) == t[1] # "w"
FWrite(fs, c) == CASE c.op = "wreal" -> FPut(fs, c.f, c.app, IF c.vec THEN <<Toks(c.d, FALSE)>> ELSE [i \in 1..c.r |-> Toks(FLine(c.d, i, c.c), FALSE)])
                   [] c.op = "wint" -> FPut(fs, c.f, c.app, [i \in 1..Len(c.d) |-> Toks(<<c.d[i]>>, TRUE)])
                   [] c.op = "text" -> FPut(fs, c.f, FALSE, [i \in 1..Len(c.lines) |-> [j \in 1..Len(c.lines[i]) |-> <<c.lines[i][j][1], c.lines[i][j][2], c.lines[i][j][1] = "i">>]])
                   [] c.op = "unlink" -> <<FOK, [fs EXCEPT ![c.f] = FNone]>>
                   [] OTHER -> <<FOK, fs>>
\* reading the first n numbers; an integer reader facing the text of a real number is unspecified
FPrefix(fs, c) == FFlat(fs[c.f])
FCount(c) == IF c.op = "rint" THEN c.c ELSE c.r * c.c
FVague(fs, c) == c.op = "rint" /\ FHas(fs, c.f) /\ \E i \in 1..FCount(c) : i <= Len(FPrefix(fs, c)) /\ FNum(FPrefix(fs, c)[i]) /\ ~FPrefix(fs, c)[i][3]
FRead(fs, c) == IF ~FHas(fs, c.f) THEN <<"RET_UNABLE_TO_OPEN_FILE", <<>>>>
  ELSE LET ts == FPrefix(fs, c) n == FCount(c) IN
       IF Len(ts) < n \/ \E i \in 1..n : ~FNum(ts[i]) THEN <<"RET_UNABLE_TO_READ_FILE", <<>>>> ELSE <<FOK, [i \in 1..n |-> <<ts[i][1], ts[i][2]>>]>>
FObs(fs, f) == IF ~FHas(fs, f) THEN <<<<<<"none", 0>>>>>> ELSE [i \in 1..Len(fs[f]) |-> [j \in 1..Len(fs[f][i]) |-> <<fs[f][i][j][1], fs[f][i][j][2]>>]]
FMat(vs, c) == IF c.bad # "" THEN <<"RET_INVALID_ARGUMENTS", vs>>
  ELSE <<FOK, Append(vs, <<c.name, 0, c.r, c.c, 0, 1, [k \in 1..c.r * c.c |-> c.d[((k - 1) % c.r) * c.c + ((k - 1) \div c.r) + 1]]>>)>>
=============================================================================
