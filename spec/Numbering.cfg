SPECIFICATION Spec
CONSTANTS MaxBits = 8
          MaxDof = 4
INVARIANTS Injective Onto Monotone Marked Counted Agree EmitDone
PROPERTIES ConsKept
