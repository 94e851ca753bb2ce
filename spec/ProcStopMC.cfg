SPECIFICATION Spec
CONSTANTS Patience <- P
          MaxLag = 3
INVARIANTS InOrder Gone
CHECK_DEADLOCK FALSE
