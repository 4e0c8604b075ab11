SPECIFICATION Spec
CONSTANT Reach = 24
INVARIANTS Counts Tiles Fills Conforming EmitDone EmitRow
