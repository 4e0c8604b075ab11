SPECIFICATION Spec
CONSTANT Reach = 7
INVARIANTS Counts Tiles Fills Conforming EmitDone EmitRow
