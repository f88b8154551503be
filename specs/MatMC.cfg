INIT Init
NEXT Next
INVARIANTS Adjoint Linear Restricted Triples Quad Shift
CHECK_DEADLOCK FALSE
