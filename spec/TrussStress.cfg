SPECIFICATION Spec
INVARIANTS Reversible RigidFree Tension EmitDone
