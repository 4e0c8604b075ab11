SPECIFICATION Spec
CONSTANTS MaxBits = 12
          MaxDof = 6
INVARIANTS Injective Onto Monotone Marked Counted Agree EmitDone
PROPERTIES ConsKept Termination
