SPECIFICATION Spec
CONSTANTS NN = 3
          ND = 1
          NE = 3
INVARIANTS SumOfElements EmitDone
