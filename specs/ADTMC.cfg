INIT Init
NEXT Next
INVARIANTS IdxLaws LimLaws OptLaws MsgLaws
CHECK_DEADLOCK FALSE
