SPECIFICATION Spec
INVARIANTS Regular Placed EmitDone
