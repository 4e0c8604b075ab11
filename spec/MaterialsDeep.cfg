SPECIFICATION Spec
CONSTANT MaxQ = 40
INVARIANTS Inverts Symmetric Stiff EmitDone
