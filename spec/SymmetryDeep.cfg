SPECIFICATION Spec
CONSTANT Reach = 125
CONSTANT Reach3 = 25
INVARIANT Similar
INVARIANT Neighbours
INVARIANT Positive
INVARIANT EmitAll
