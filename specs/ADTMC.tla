------------------------------- MODULE ADTMC -------------------------------
(* Exhaustive exploration of the bookkeeping specifications on small universes, with the laws users rely on as invariants. *)
EXTENDS LimitsADT, OptionsADT, MessageADT
VARIABLES m, v, d
K == 0..3
IdxOps == {[op |-> "add", k |-> k] : k \in K} \cup {[op |-> "rem", k |-> k] : k \in K} \cup {[op |-> "swap", a |-> a, b |-> b] : a, b \in K}
LimOps == {[op |-> "setup", i |-> i, st |-> s] : i \in -1..3, s \in {"L", "I", "U", "N"}} \cup {[op |-> "all", st |-> s] : s \in {"L", "I", "U"}}
  \cup {[op |-> "tofree", i |-> i] : i \in -1..3} \cup {[op |-> "tofix", i |-> i, st |-> s] : i \in -1..3, s \in {"L", "U"}} \cup {[op |-> "flip", i |-> i] : i \in -1..3}
  \cup {[op |-> "swap", i |-> i, j |-> j] : i, j \in 0..2} \cup {[op |-> "shift", i |-> i] : i \in -1..3} \cup {[op |-> "rotate", i |-> i] : i \in -1..3}
  \cup {[op |-> "type", i |-> i, ty |-> t] : i \in 0..2, t \in {"U", "B", "E"}}
BF == {"enableRamping", "enableEqualities"}
RF == {"terminationTolerance", "boundRelaxation", "initialFarBounds", "growFarBounds", "initialRamping", "finalRamping", "epsLITests", "epsNZCTests", "epsFlipping", "maxPrimalJump"}
IF_ == {"enableDriftCorrection", "enableCholeskyRefactorisation", "numRegularisationSteps", "numRefinementSteps"}
RV == {E(1), E(-1), M(0), M(-1000), M(1099), M(1100), M(10000000), M(1000000000), E(12), <<"G", 7>>}
Codes == {"RET_QP_NOT_SOLVED", "RET_QP_SOLVED", "5000", "-1"}
MsgOps == {[op |-> "throw", code |-> c, cls |-> w, vis |-> s] : c \in Codes, w \in {"E", "W", "I"}, s \in BOOLEAN} \cup {[op |-> "count", v |-> k] : k \in {-1, 0, 3}}
  \cup {[op |-> "setvis", cls |-> w, vis |-> s] : w \in {"E", "W", "I"}, s \in BOOLEAN}
MApply(x, c) == CASE c.op = "throw" -> MThrow(x, c.code, "", c.vis, c.cls)[2] [] c.op = "count" -> [x EXCEPT !.cnt = c.v]
                  [] OTHER -> (CASE c.cls = "E" -> [x EXCEPT !.e = c.vis] [] c.cls = "W" -> [x EXCEPT !.w = c.vis] [] OTHER -> [x EXCEPT !.i = c.vis])
Init == /\ d = 0
        /\ \/ m = "idx" /\ \E n \in 0..3 : v = IEmpty(n)
           \/ m = "lim" /\ \E n \in 0..3, k \in {"B", "C"} : v = LNew(k, n)
           \/ m = "opt" /\ \E p \in {"default", "reliable", "mpc"} : v = OPreset(p)
           \/ m = "msg" /\ v = MState(TRUE, FALSE, FALSE, "cap")
Next == /\ m' = m
        /\ \/ m = "idx" /\ d' = 0 /\ \E c \in IdxOps : (c.op = "add" => ~IMem(v.s, c.k)) /\ v' = IApply(v, c)[2]
           \/ m = "lim" /\ d' = 0 /\ \E c \in {a \in LimOps : LLegal(v, a)} : v' = LApply(v, c)[2]
           \/ m = "opt" /\ d < 2 /\ d' = d + 1 /\ ((\E f \in BF, b \in BOOLEAN : v' = [v EXCEPT ![f] = b]) \/ (\E f \in RF, r \in RV : (f = "boundRelaxation" => r[1] # "G") /\ v' = [v EXCEPT ![f] = r]) \/ (\E f \in IF_, k \in {-3, 2} : v' = [v EXCEPT ![f] = k]))
           \/ m = "msg" /\ d' = 0 /\ v.cnt < 5 /\ \E c \in MsgOps : v' = MApply(v, c)
\* index lists: no number twice, never above capacity; the sorted view lists all positions in ascending order of their numbers
IdxLaws == m = "idx" => /\ IInv(v)
   /\ (LET s == ISorted(v.s) IN \A r \in 1..Len(s) - 1 : v.s[s[r] + 1] < v.s[s[r + 1] + 1])
   /\ (\A k \in K : IMem(v.s, k) => v.s[IPos(v.s, k)] = k)
   /\ (\A a, b \in K : LET x == IApply(v, [op |-> "swap", a |-> a, b |-> b]) IN IApply(x[2], [op |-> "swap", a |-> a, b |-> b]) = <<x[1], v>>)
   /\ \A k \in K : ~IMem(IApply(v, [op |-> "rem", k |-> k])[2].s, k)
\* bounds/constraints: status and lists agree, every index at most once; flips and full rotations undo themselves; errors change nothing
Full == m = "lim" /\ \A i \in 1..v.n : v.st[i] # "N"
LimLaws == m = "lim" =>
   /\ LInv(v) /\ IInv([cap |-> v.n, s |-> v.fr]) /\ IInv([cap |-> v.n, s |-> v.fx])
   /\ LCount(v, "E") + LCount(v, "B") + LCount(v, "U") + LCount(v, "?") + LCount(v, "D") = v.n
   /\ (\A c \in LimOps : LET r == LApply(v, c) IN r[1] # IOK => r[2] = v)
   /\ (\A i \in 0..v.n - 1 : LET f == LApply(v, [op |-> "flip", i |-> i]) IN f[1] = IOK => LApply(f[2], [op |-> "flip", i |-> i])[2] = v)
   /\ Full => \A k \in 1..v.n - 1 : LET r == LApply(LApply(v, [op |-> "rotate", i |-> k])[2], [op |-> "rotate", i |-> v.n - k])[2] IN r.ty = v.ty /\ r.st = v.st
\* options: presets are consistent, repair yields consistent options, and repairing leaves consistent options alone
OptLaws == m = "opt" => /\ (d = 0 => OConsistent(v)) /\ OConsistent(ORepair(v)) /\ OEnsure(ORepair(v)) = <<OOK, ORepair(v)>>
   /\ ORepair(v).growFarBounds[2] > 0 /\ ~LeqR(ORepair(v).initialFarBounds, ORepair(v).boundRelaxation)
\* messages: hidden ones change nothing and print nothing; the code handed in is handed back; indentation is bounded
MsgLaws == m = "msg" => /\ v.cnt >= -1
   /\ \A c \in MsgOps : c.op = "throw" => LET r == MThrow(v, c.code, "", c.vis, c.cls) IN
        /\ (c.code # "-1" => r[1] = c.code)
        /\ (~MVis(v, c.cls) /\ c.code # "-1" => r[2] = v /\ r[3] = <<>>)
        /\ (r[3] = <<>> => r[2] = v)
        /\ Len(r[3]) <= 3
   /\ Indent(v.cnt) <= 40
=============================================================================
