SPECIFICATION Spec
CONSTANTS Clusters = {"c1", "c2"}
          Workers = {"w1", "w2", "w3"}
          OwnerOf <- Split
          MaxStops = 4
          Isolated = TRUE
          ByCluster = TRUE
INVARIANTS OneEach Tied Where NoOrphan Apart
PROPERTY Own
CHECK_DEADLOCK FALSE
