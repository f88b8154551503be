----------------------------- MODULE QPLifeMC -----------------------------
(* Exhaustive exploration of the lifecycle of one object under every call class and every allowed answer.
   Properties of a single step are checked for every state, reachable or not (so they are inductive). *)
EXTENDS QPLife, FiniteSets
VARIABLE o
Bool == {TRUE, FALSE}
Objects == {ob \in [st : Status, inf : Bool, unb : Bool] : ~(ob.inf /\ ob.unb)}
Calls == [op : {"init", "hot", "mats"}, kind : {"opt", "sol", "inf", "unb"}, cut : Bool, bad : {"", "RET_INVALID_ARGUMENTS"}, reg : Bool, deg : {FALSE}, mix : Bool]
         \cup [op : {"new", "reset", "obs"}, kind : {"opt"}, cut : {FALSE}, bad : {""}, reg : {FALSE}, deg : {FALSE}, mix : {FALSE}]
Results == [ret : SolveCodes \cup {NotInitCode, "RET_INVALID_ARGUMENTS", "RET_OTHER_FAILURE"}, st : Status, inf : Bool, unb : Bool]
Obj(r) == [st |-> r.st, inf |-> r.inf, unb |-> r.unb]
Init == o = Fresh
Next == \E c \in Calls, r \in Results : Allowed(o, c, r) /\ o' = Obj(r)
TypeOK == o \in Objects
FlagsExclusive == o.st = "SOLVED" => ~o.inf /\ ~o.unb
UninitClean == o.st = "NOTINIT" => ~o.inf /\ ~o.unb
\* properties C02-C06, C14 at the level of the lifecycle
StepOK(ob, c, r) ==
  LET solve == c.op \in {"init", "hot", "mats"} IN
  solve =>
  /\ (r.ret = OK => r.st = "SOLVED" /\ ~r.inf /\ ~r.unb /\ c.kind # "inf")
  /\ (r.ret \in {InfCode("init"), InfCode("hot")} => c.kind = "inf" /\ r.inf)
  /\ (r.ret \in {UnbCode("init"), UnbCode("hot")} => c.kind = "unb" /\ r.unb)
  /\ (r.ret = BudgetCode => Usable(r.st) /\ c.cut)
  /\ (c.op # "init" /\ ~Usable(ob.st) => r.ret # OK /\ Same(ob, r))
  /\ (c.bad # "" => Same(ob, r) \/ ~Usable(r.st))
ASSUME \A ob \in Objects : \A c \in Calls :
         LET A == {r \in Results : Allowed(ob, c, r)} IN
         /\ A # {}                                                            \* every call has an answer in every state
         /\ \A r \in A : StepOK(ob, c, r)
         /\ (c = [op |-> "init", kind |-> "opt", cut |-> FALSE, bad |-> "", reg |-> FALSE, deg |-> FALSE, mix |-> FALSE]
              => \A r \in A : r.ret = OK /\ r.st = "SOLVED")                  \* an initial solve recovers from every state
=============================================================================
