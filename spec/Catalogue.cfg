SPECIFICATION Spec
CONSTANTS Below = 12
 Highest = 130
INVARIANTS Agree Distinct EmitDone
