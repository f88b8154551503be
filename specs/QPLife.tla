------------------------------ MODULE QPLife ------------------------------
(* Lifecycle of one problem object, abstracted from its numerical data: which answers a call may give in which state,
   and what it does to the state.  Shared by the exhaustive model QPLifeMC and by the trace specification QPTrace.
   Object  o: [st, inf, unb]
   Call    c: [op, kind, cut, bad, reg, deg, mix]   op in {"init","hot","mats",...};  kind: exact verdict of the QP passed
              ("opt"/"sol"/"inf"/"unb");  cut: iteration or time budget may run out;  bad: expected rejection code or "";
              reg: regularisation may be in effect;  deg: problem is degenerate, the library may give up on it
              mix: unbounded along a direction that mixes variables
   Result  r: [ret, st, inf, unb]                                                                                  *)
EXTENDS Naturals
Status == {"NOTINIT", "PREPAUX", "AUXSOLVED", "HOMOTOPY", "HOMSOLVED", "SOLVED"}
OK == "SUCCESSFUL_RETURN"
Usable(st) == st \in {"AUXSOLVED", "HOMSOLVED", "SOLVED"}        \* holds a point; may be hotstarted
Fresh == [st |-> "NOTINIT", inf |-> FALSE, unb |-> FALSE]
IsInit(st) == st # "NOTINIT"
IsSolved(st) == st = "SOLVED"
HoldsPoint(st) == Usable(st)
InfCode(op) == IF op = "init" THEN "RET_INIT_FAILED_INFEASIBILITY" ELSE "RET_HOTSTART_STOPPED_INFEASIBILITY"
UnbCode(op) == IF op = "init" THEN "RET_INIT_FAILED_UNBOUNDEDNESS" ELSE "RET_HOTSTART_STOPPED_UNBOUNDEDNESS"
BudgetCode == "RET_MAX_NWSR_REACHED"
NotInitCode == "RET_HOTSTART_FAILED_AS_QP_NOT_INITIALISED"
SolveCodes == {OK, "RET_INIT_FAILED_INFEASIBILITY", "RET_HOTSTART_STOPPED_INFEASIBILITY", "RET_INIT_FAILED_UNBOUNDEDNESS",
               "RET_HOTSTART_STOPPED_UNBOUNDEDNESS", BudgetCode}
Same(o, r) == r.st = o.st /\ r.inf = o.inf /\ r.unb = o.unb
\* the verdict of a completed solve
Verdict(c, r) ==
  CASE c.kind = "opt" -> r.ret = OK /\ r.st = "SOLVED" /\ ~r.inf /\ ~r.unb
    [] c.kind = "sol" -> r.ret = OK /\ r.st = "SOLVED" /\ ~r.inf /\ ~r.unb         \* solvable, the solution is not known
    [] c.kind = "inf" -> r.ret = InfCode(c.op) /\ r.st \in {"AUXSOLVED", "HOMSOLVED"} /\ r.inf /\ ~r.unb
    [] c.kind = "unb" -> r.ret = UnbCode(c.op) /\ r.st \in {"HOMSOLVED", "HOMOTOPY"} /\ ~r.inf /\ r.unb
\* the budget ran out before the verdict.  An iteration-free call leaves the status as it was.
Cut(o, c, r) == /\ c.cut /\ r.ret = BudgetCode /\ ~r.inf /\ ~r.unb
                /\ IF c.op = "init" THEN r.st \in {"AUXSOLVED", "HOMSOLVED"} ELSE r.st \in {"AUXSOLVED", "HOMSOLVED"} \cup {o.st}
\* degenerate problems: the library may give up, but what it claims has to be consistent
GiveUp(c, r) == /\ c.deg /\ r.ret # OK
                /\ (r.ret = InfCode(c.op) => r.inf) /\ (r.ret = UnbCode(c.op) => r.unb)
                /\ r.st # "SOLVED"
Solve(o, c, r) == Verdict(c, r) \/ Cut(o, c, r) \/ GiveUp(c, r)
Allowed(o, c, r) ==
  CASE c.op = "new" -> r.ret = OK /\ Same(Fresh, r)
    [] c.op = "init" -> IF c.bad # "" THEN r.ret = c.bad /\ (Same(Fresh, r) \/ (o.st = "NOTINIT" /\ Same(o, r))) ELSE Solve(o, c, r)
    [] c.op = "hot" -> IF ~Usable(o.st) THEN r.ret \in {NotInitCode, c.bad} \ {""} /\ Same(o, r) /\ (c.bad = "" => r.ret = NotInitCode)
                       ELSE IF c.bad # "" THEN r.ret = c.bad /\ Same(o, r)
                       ELSE Solve(o, c, r)
    [] c.op = "mats" -> IF ~Usable(o.st) THEN r.ret \in {NotInitCode, c.bad} \ {""} /\ Same(o, r) /\ (c.bad = "" => r.ret = NotInitCode)
                        ELSE IF c.bad # "" THEN r.ret = c.bad /\ r.inf = o.inf /\ r.unb = o.unb /\ r.st \in {"PREPAUX", o.st}       \* has to be initialised anew
                        ELSE Solve(o, [c EXCEPT !.op = "hot"], r)
    [] c.op = "reset" -> r.ret = OK /\ Same(Fresh, r)
    [] OTHER -> r.ret = OK /\ Same(o, r)             \* queries, options, printing, analysis, use as source of a copy
=============================================================================
