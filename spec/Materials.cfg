SPECIFICATION Spec
CONSTANT MaxQ = 12
INVARIANTS Inverts Symmetric Stiff EmitDone
