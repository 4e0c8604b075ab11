SPECIFICATION Spec
INVARIANTS Whole Conforming Reproduces Covers Kept EmitDone
