SPECIFICATION Spec
CONSTANTS NN = 2
          ND = 2
          NR = 2
          Values = {0, 1, 5}
INVARIANTS SumOfRows EmitDone
