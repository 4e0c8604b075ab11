SPECIFICATION Spec
CONSTANT Fams = {"quad4", "quad9"}
INVARIANTS Straight Resultants Work Supported Numbered EmitDone
