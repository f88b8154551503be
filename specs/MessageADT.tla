---------------------------- MODULE MessageADT ----------------------------
(* Message handlers: visibility of errors, warnings and infos, the error counter that indents messages, and exactly which lines
   a thrown message prints.  Slot: [e, w, i, cnt, fil]: what is shown, the error counter, and where output goes (cap, std or null). *)
EXTENDS Integers, Sequences, MsgTable
MOK == "SUCCESSFUL_RETURN"
MState(e, w, i, f) == [e |-> e, w |-> w, i |-> i, cnt |-> 0, fil |-> f]
MKnown(c) == \E k \in 1..Len(MsgTable) : MsgTable[k][1] = c
MEntry(c) == MsgTable[CHOOSE k \in 1..Len(MsgTable) : MsgTable[k][1] = c]
MNum(c) == (CHOOSE k \in 1..Len(MsgTable) : MsgTable[k][1] = c) - 1
RECURSIVE Blanks(_)
Blanks(k) == IF k <= 0 THEN "" ELSE " " \o Blanks(k - 1)
Indent(cnt) == LET k == (cnt - 1) * 2 IN IF k < 0 THEN 0 ELSE IF k > 40 THEN 40 ELSE k
MCls(w) == CASE w = "E" -> "ERROR" [] w = "W" -> "WARNING" [] OTHER -> "INFO"
MVis(x, w) == CASE w = "E" -> x.e [] w = "W" -> x.w [] OTHER -> x.i
\* prints one message: <<new state, lines>>
MPrint(x, c, add, vis, w) ==
  LET m == MEntry(c) IN
  IF ~(m[3] /\ vis) THEN <<x, <<>>>> ELSE
  LET l1 == IF x.cnt < 0 THEN <<"">> ELSE <<>>
      l2 == (IF x.cnt > 0 THEN Blanks(Indent(x.cnt)) \o "->" ELSE "") \o MCls(w) \o ":  " \o m[2] \o (IF add = "" THEN "" ELSE " " \o add)
      cnt0 == IF x.cnt < 0 THEN 0 ELSE x.cnt
  IN IF w = "E" THEN <<[x EXCEPT !.cnt = cnt0 + 1], Append(l1, l2)>> ELSE <<[x EXCEPT !.cnt = 0], Append(l1, l2) \o (IF cnt0 > 0 THEN <<"">> ELSE <<>>)>>
RECURSIVE MThrow(_, _, _, _, _)
MThrow(x, c, add, vis, w) ==        \* <<return code, new state, lines>>
  LET low == IF w = "I" THEN c = "-1" ELSE c \in {"-1", "SUCCESSFUL_RETURN"} IN
  IF low THEN MThrow(x, CASE w = "E" -> "RET_ERROR_UNDEFINED" [] w = "W" -> "RET_WARNING_UNDEFINED" [] OTHER -> "RET_INFO_UNDEFINED", "", TRUE, "E")
  ELSE IF ~MVis(x, w) THEN <<c, x, <<>>>>
  ELSE IF ~MKnown(c) THEN LET r == MThrow(x, "RET_EWI_UNDEFINED", "", TRUE, "E") IN <<c, r[2], r[3]>>
  ELSE LET p == MPrint(x, c, add, vis, w) IN <<c, p[1], p[2]>>
MSimple(c) == CASE c = "SUCCESSFUL_RETURN" -> 0 [] c = "RET_MAX_NWSR_REACHED" -> 1 [] c \in {"RET_INIT_FAILED_INFEASIBILITY", "RET_HOTSTART_STOPPED_INFEASIBILITY"} -> -2
                [] c \in {"RET_INIT_FAILED_UNBOUNDEDNESS", "RET_HOTSTART_STOPPED_UNBOUNDEDNESS"} -> -3 [] OTHER -> -1
MSimpleCode(s) == CASE s = 0 -> "RET_SIMPLE_STATUS_P0" [] s = 1 -> "RET_SIMPLE_STATUS_P1" [] s = -1 -> "RET_SIMPLE_STATUS_M1" [] s = -2 -> "RET_SIMPLE_STATUS_M2" [] OTHER -> "RET_SIMPLE_STATUS_M3"
=============================================================================
