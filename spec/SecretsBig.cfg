SPECIFICATION Spec
CONSTANTS Keys = {1, 2, 3, 4}
          Ids = {1, 2, 3, 4}
          MaxLen = 3
INVARIANTS Complete Rotate Drop Sealed Never
CHECK_DEADLOCK FALSE
