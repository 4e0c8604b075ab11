SPECIFICATION Spec
CONSTANTS NN = 4
          ND = 1
          NE = 3
INVARIANTS OwnRow Independent Untouched EmitDone
