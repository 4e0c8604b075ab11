SPECIFICATION Spec
CONSTANTS NN = 3
          ND = 2
          NE = 2
INVARIANTS OwnRow Independent Untouched EmitDone
