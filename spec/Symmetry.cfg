SPECIFICATION Spec
CONSTANT Reach = 25
CONSTANT Reach3 = 5
INVARIANT Similar
INVARIANT Neighbours
INVARIANT Positive
INVARIANT EmitAll
