SPECIFICATION Spec
CONSTANTS NN = 3
          ND = 1
          NE = 2
INVARIANTS SumOfElements EmitDone
