SPECIFICATION Spec
CONSTANTS Reach = 9
 Turns = 7
 Values = 5
INVARIANTS Kept Real EmitAll
