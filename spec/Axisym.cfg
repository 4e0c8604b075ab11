SPECIFICATION Spec
CONSTANT Fams = {"quad9"}
INVARIANTS Symmetric AxialFree HoopResists TotalMass EmitDone
