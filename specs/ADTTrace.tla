------------------------------ MODULE ADTTrace ------------------------------
(* Recorded calls of the bookkeeping classes against their specifications: the model walks along (mod: slot -> model value) and
   predicts the return code and every observation of every call. *)
EXTENDS LimitsADT, OptionsADT, MessageADT, MatrixADT, KktADT, FileADT, Json
CONSTANTS File
VARIABLES b, l, mod, u
Trace == ndJsonDeserialize(File)
None == [none |-> TRUE]
Differ(pre, exp, o) == {pre \o k : k \in {f \in DOMAIN exp : f \notin DOMAIN o \/ o[f] # exp[f]}}
Ret(c, o, r) == IF o.ret = r THEN {} ELSE {"ret:" \o c.adt \o ":" \o c.op}
Target(c) == IF c.op \in {"copy", "assign", "toqp", "fromqp", "copyqp", "dup", "ctoopt"} THEN c.to ELSE c.slot
\* each step: <<labels, new value of the target slot>>
IdxStep(c, o) ==
  LET x == mod[c.slot] a == IF c.op = "new" THEN <<IOK, IEmpty(c.n)>> ELSE IF c.op \in {"copy", "assign"} THEN <<IOK, x>> ELSE IApply(x, c)
      uu == IF c.op = "new" THEN c.u ELSE u IN <<Ret(c, o, a[1]) \cup Differ("idx:", IObs(a[2], uu), o), a[2]>>
LimStep(c, o) ==
  LET x == mod[c.slot] a == IF c.op = "new" THEN <<IOK, LNew(c.cls, c.n)>> ELSE IF c.op \in {"copy", "assign"} THEN <<IOK, x>> ELSE LApply(x, c)
  IN <<Ret(c, o, a[1]) \cup Differ("lim:", LObs(a[2]), o) \cup (IF LInv(a[2]) THEN {} ELSE {"spec"}), a[2]>>
OptStep(c, o) ==
  LET x == mod[c.slot]
      a == CASE c.op \in {"new", "newqp"} -> <<OOK, ODefault>>
             [] c.op = "preset" -> <<OOK, OPreset(c.what)>>
             [] c.op = "set" -> <<OOK, OSet(x, c.fields)>>
             [] c.op = "cnew" -> <<OOK, OPreset(<<"default", "reliable", "mpc">>[c.mode + 1])>>
             [] c.op = "cset" -> <<OOK, OSet(x, c.fields)>>
             [] c.op = "ensure" -> OEnsure(x)
             [] c.op = "toqp" -> <<OOK, ORepair(x)>>
             [] c.op = "level" -> <<OOK, [x EXCEPT !.printLevel = c.v]>>
             [] OTHER -> <<OOK, x>>
      vis == IF c.op \in {"toqp", "level", "newqp"} THEN Differ("opt:", [vis |-> OVis(a[2].printLevel), pl |-> a[2].printLevel], o) ELSE {}
      call == IF c.op \in {"cnew", "ctoopt", "cset"} THEN Differ("opt:c:", [cret |-> 0], o) ELSE IF c.op = "cnull" THEN Differ("opt:c:", [cret |-> -1], o) ELSE {}
  IN IF c.op = "consts" THEN <<Ret(c, o, OOK) \cup {"opt:c:const:" \o k : k \in {f \in DOMAIN o \ {"ret"} : ~o[f]}}, None>>
     ELSE <<Ret(c, o, a[1]) \cup Differ(IF c.slot = 5 THEN "opt:c:" ELSE "opt:", a[2], o) \cup vis \cup call, a[2]>>
MsgOf(x) == [e |-> x.e, w |-> x.w, i |-> x.i, cnt |-> x.cnt, fil |-> x.fil]
MsgStep(c, o) ==
  LET x == mod[c.slot]
      p == CASE c.op = "new" -> <<MOK, CASE c.ctor = "def" -> MState(TRUE, TRUE, TRUE, "std") [] c.ctor = "file" -> MState(TRUE, FALSE, FALSE, "cap")
                                        [] c.ctor = "vis" -> MState(c.e, c.w, c.i, "std") [] OTHER -> MState(c.e, c.w, c.i, "cap"), <<>>>>
             [] c.op = "throw" -> MThrow(x, c.code, c.add, c.vis, c.cls)
             [] c.op = "macro" -> MThrow(x, c.code, "", TRUE, c.cls)
             [] c.op = "setvis" -> <<MOK, CASE c.cls = "E" -> [x EXCEPT !.e = c.vis] [] c.cls = "W" -> [x EXCEPT !.w = c.vis] [] OTHER -> [x EXCEPT !.i = c.vis], <<>>>>
             [] c.op = "count" -> IF c.v >= -1 THEN <<MOK, [x EXCEPT !.cnt = c.v], <<>>>> ELSE <<"RET_INVALID_ARGUMENTS", x, <<>>>>
             [] c.op = "reset" -> <<MOK, MState(TRUE, FALSE, FALSE, "cap"), <<>>>>
             [] c.op = "level" -> LET v == OVis(c.v) IN <<MOK, MState(v[1] = 1, v[2] = 1, v[3] = 1, x.fil), <<>>>>
             [] c.op = "nofile" -> <<MOK, [x EXCEPT !.fil = IF c.on THEN "null" ELSE "cap"], <<>>>>
             [] c.op = "list" -> <<MOK, x, [k \in 1..Len(MsgTable) |-> " " \o ToString(k - 1) \o " - " \o MsgTable[k][2] \o " "]>>
             [] c.op = "simple" -> LET r == MThrow([x EXCEPT !.i = TRUE, !.cnt = -1], MSimpleCode(MSimple(c.code)), "", TRUE, "I") IN <<MOK, [r[2] EXCEPT !.i = x.i], r[3]>>
             [] c.op = "obs" -> <<MOK, MsgOf(o), o.out>>
             [] OTHER -> <<MOK, x, <<>>>>
      code == IF p[1] = "5000" THEN "CODE5000" ELSE IF p[1] = "-1" THEN "CODE-1" ELSE p[1]
      lines == IF c.op # "obs" /\ (IF c.slot = 0 THEN x.fil ELSE mod[0].fil) = "null" THEN <<>> ELSE p[3]      \* every handler writes to the global handler's file
      more == CASE c.op = "text" -> Differ("msg:", [text |-> IF MKnown(c.code) THEN MEntry(c.code)[2] ELSE "Unknown error code"], o)
                [] c.op = "simple" -> Differ("msg:", [simple |-> MSimple(c.code)], o)
                [] c.op = "reset" -> Differ("msg:", [wasstd |-> TRUE], o)
                [] OTHER -> {}
  IN <<Ret(c, o, code) \cup Differ("msg:", MsgOf(p[2]), o) \cup Differ("msg:", [out |-> lines], o) \cup more, p[2]>>
MatStep(c, o) ==
  LET x == mod[c.slot] a == IF c.op = "new" THEN <<XOK, XNew(c), <<>>>> ELSE XApply(x, c) e == a[3]
      tri == IF "tri" \in DOMAIN e THEN IF {p \in {o.tri[k] : k \in 1..Len(o.tri)} : p[3] # 0} = e.tri /\ Len(o.tri) = e.n /\ Cardinality({<<o.tri[k][1], o.tri[k][2]>> : k \in 1..Len(o.tri)}) = e.n THEN {} ELSE {"mat:tri"} ELSE {}
      rest == [f \in DOMAIN e \ {"tri"} |-> e[f]] v == a[2]
  IN <<Ret(c, o, a[1]) \cup tri \cup Differ("mat:" \o c.op \o ":", rest, o) \cup Differ("mat:" \o c.op \o ":", [m |-> v.M, cls |-> v.cls, leak |-> 0], o), v>>
FnStep(c, o) == <<Ret(c, o, "SUCCESSFUL_RETURN") \cup (IF c.op = "norm" THEN IF KNormOK(c, o) THEN {} ELSE {"fn:norm"} ELSE Differ("fn:", KKkt(c), o)), None>>
\* files: the model value of slot 1 is [fs |-> files, vs |-> variables of the MAT file]
FileStep(c, o) ==
  LET x == IF "none" \in DOMAIN mod[1] THEN [fs |-> FNew, vs |-> <<>>] ELSE mod[1] IN
  IF c.op = "mat" THEN LET a == FMat(x.vs, c) IN <<Ret(c, o, a[1]) \cup Differ("file:mat:", [vars |-> a[2]], o), [x EXCEPT !.vs = a[2]]>>
  ELSE LET w == FWrite(x.fs, c) rd == c.op \in {"rreal", "rint"} a == IF rd THEN FRead(x.fs, c) ELSE <<w[1], <<>>>> vague == rd /\ FVague(x.fs, c) y == [x EXCEPT !.fs = w[2]] IN
       <<(IF vague THEN {} ELSE Ret(c, o, a[1])) \cup Differ("file:" \o c.op \o ":", [file |-> FObs(y.fs, c.f)], o) \cup (IF rd THEN Differ("file:" \o c.op \o ":", [over |-> FALSE], o) ELSE {})
         \cup (IF rd /\ ~vague /\ a[1] = FOK THEN Differ("file:" \o c.op \o ":", [d |-> a[2]], o) ELSE {}), y>>
Step(c, o) == CASE c.adt = "file" -> FileStep(c, o) [] c.adt = "fn" -> FnStep(c, o) [] c.adt = "idx" -> IdxStep(c, o) [] c.adt = "lim" -> LimStep(c, o) [] c.adt = "opt" -> OptStep(c, o) [] c.adt = "mat" -> MatStep(c, o) [] OTHER -> MsgStep(c, o)
Emit(f) == IF f = {} THEN TRUE ELSE PrintT("LBL|" \o ToString(Trace[b].id) \o "|" \o ToString(l) \o "|" \o FoldSet(LAMBDA x, y : x \o " " \o y, "", f))
Init == b \in 1..Len(Trace) /\ l = 1 /\ mod = [s \in 0..5 |-> None] /\ u = <<>>
Consume == /\ l <= Len(Trace[b].ev)
           /\ LET e == Trace[b].ev[l] r == Step(e.c, e.o) IN
              /\ Emit(r[1])
              /\ mod' = [mod EXCEPT ![Target(e.c)] = r[2]]
              /\ u' = IF e.c.op = "new" /\ "u" \in DOMAIN e.c THEN e.c.u ELSE u
           /\ l' = l + 1 /\ b' = b
Finish == /\ l = Len(Trace[b].ev) + 1
          /\ Emit(IF Trace[b].end = "ok" THEN {} ELSE {"end:" \o Trace[b].end \o ":" \o Trace[b].next.op})
          /\ l' = l + 1 /\ UNCHANGED <<b, mod, u>>
Next == Consume \/ Finish
Expected == FoldSet(LAMBDA i, a : a + Len(Trace[i].ev) + 2, 0, 1..Len(Trace))
Accepted == TLCGet("stats").distinct = Expected \/ PrintT("NOTCONSUMED|" \o ToString(TLCGet("stats").distinct) \o "|" \o ToString(Expected))
=============================================================================
