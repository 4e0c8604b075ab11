SPECIFICATION Spec
CONSTANTS Reach = 3
 Turns = 3
 Values = 3
INVARIANTS Kept Real EmitAll
