SPECIFICATION Spec
CONSTANT Depth = 16
INVARIANTS Consecutive FlagsAreLast Shares EmitDone
