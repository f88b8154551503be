---------------------------- MODULE OptionsADT ----------------------------
(* Option sets: presets, consistency repair, copying, handing over to problem objects.  Reals are pairs: <<"E", k>> = k machine
   epsilons, <<"M", k>> = k/1000, <<"G", k>> = k millions (only above 2 millions), <<"R", 1>> = 1e-14, <<"P", k>> = just above k/1000. *)
EXTENDS Integers, Sequences, TLC
OOK == "SUCCESSFUL_RETURN"
E(k) == <<"E", k>>
M(k) == <<"M", k>>
ODefault == [printLevel |-> 2, enableRamping |-> TRUE, enableFarBounds |-> TRUE, enableFlippingBounds |-> TRUE, enableRegularisation |-> FALSE,
  enableFullLITests |-> FALSE, enableNZCTests |-> TRUE, enableDriftCorrection |-> 1, enableCholeskyRefactorisation |-> 0, enableEqualities |-> FALSE,
  terminationTolerance |-> E(5000000), boundTolerance |-> E(1000000), boundRelaxation |-> M(10000000), epsNum |-> E(-1000), epsDen |-> E(1000),
  maxPrimalJump |-> <<"G", 100>>, maxDualJump |-> <<"G", 100>>, initialRamping |-> M(500), finalRamping |-> M(1000), initialFarBounds |-> M(1000000000),
  growFarBounds |-> M(1000000), initialStatusBounds |-> "L", epsFlipping |-> E(1000), numRegularisationSteps |-> 0, epsRegularisation |-> E(1000),
  numRefinementSteps |-> 1, epsIterRef |-> E(100), epsLITests |-> E(100000), epsNZCTests |-> E(3000), enableDropInfeasibles |-> FALSE,
  dropBoundPriority |-> 1, dropEqConPriority |-> 1, dropIneqConPriority |-> 1, enableInertiaCorrection |-> TRUE, rcondSMin |-> <<"R", 1>>]
OReliable == [ODefault EXCEPT !.enableFullLITests = TRUE, !.enableCholeskyRefactorisation = 1, !.numRefinementSteps = 2]
OMpc == [ODefault EXCEPT !.enableRamping = FALSE, !.enableFarBounds = TRUE, !.enableFlippingBounds = FALSE, !.enableRegularisation = TRUE,
  !.enableNZCTests = FALSE, !.enableDriftCorrection = 0, !.enableEqualities = TRUE, !.terminationTolerance = E(1000000000), !.initialStatusBounds = "I",
  !.numRegularisationSteps = 1, !.numRefinementSteps = 0]
OPreset(w) == CASE w = "default" -> ODefault [] w = "reliable" -> OReliable [] OTHER -> OMpc
OFields == DOMAIN ODefault
Neg(v) == v[2] < 0
Leq0(v) == v[2] <= 0
LeqR(a, b) == IF a[1] = "P" \/ b[1] = "P" THEN (IF a[1] = b[1] \/ a[1] = "M" THEN a[2] <= b[2] ELSE IF b[1] = "M" THEN a[2] < b[2] ELSE a[1] \in {"E", "R"}) ELSE IF a[1] = b[1] THEN a[2] <= b[2] ELSE IF a[2] <= 0 /\ b[2] > 0 THEN TRUE ELSE IF a[2] > 0 /\ b[2] <= 0 THEN FALSE ELSE IF a[2] = 0 /\ b[2] = 0 THEN TRUE
              ELSE (a[1] \in {"E", "R"}) \/ (a[1] = "M" /\ b[1] = "G")
PlusEps(v) == IF v[1] = "E" THEN E(v[2] + 1) ELSE <<"P", v[2]>>            \* the next number above
ORepair(o) ==
  LET nn(v) == IF v < 0 THEN 0 ELSE v   pos(v) == IF Leq0(v) THEN E(1) ELSE v   nneg(v, d) == IF Neg(v) THEN d ELSE v
      r == [o EXCEPT !.enableDriftCorrection = nn(@), !.enableCholeskyRefactorisation = nn(@), !.terminationTolerance = pos(@), !.epsIterRef = pos(@),
            !.epsRegularisation = pos(@), !.boundTolerance = pos(@), !.boundRelaxation = pos(@), !.maxPrimalJump = pos(@), !.maxDualJump = pos(@),
            !.initialRamping = nneg(@, M(0)), !.finalRamping = nneg(@, M(0)), !.growFarBounds = IF LeqR(M(1100), @) THEN @ ELSE M(1100), !.epsFlipping = pos(@),
            !.numRegularisationSteps = nn(@), !.numRefinementSteps = nn(@), !.epsLITests = nneg(@, E(1)), !.epsNZCTests = nneg(@, E(1))]
  IN [r EXCEPT !.initialFarBounds = IF LeqR(@, r.boundRelaxation) THEN PlusEps(r.boundRelaxation) ELSE @]
OConsistent(o) == ORepair(o) = o
OEnsure(o) == LET r == ORepair(o) IN <<IF r = o THEN OOK ELSE "RET_OPTIONS_ADJUSTED", r>>
OSet(o, f) == [k \in OFields |-> IF k \in DOMAIN f THEN f[k] ELSE o[k]]
OVis(pl) == CASE pl = 0 -> <<0, 0, 0>> [] pl \in {-1, 1} -> <<1, 0, 0>> [] pl \in {-2, 2} -> <<1, 1, 0>> [] OTHER -> <<1, 1, 1>>
\* slots: [kind |-> "o" or "p", o |-> options]
=============================================================================
