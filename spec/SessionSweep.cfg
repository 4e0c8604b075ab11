SPECIFICATION Sweep
CONSTANTS Depth = 160 Window = 6
INVARIANTS Pure Untouched EmitSweep
