SPECIFICATION Spec
INVARIANTS Supported Sound Numbered Balanced Rigid Energy EmitDone
