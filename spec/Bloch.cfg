SPECIFICATION Spec
INVARIANTS NoGaps Ordered Tied EmitDone
