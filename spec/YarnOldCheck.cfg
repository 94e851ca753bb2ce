SPECIFICATION Spec
CONSTANTS Clusters = {"c1", "c2"}
          Workers = {"w1", "w2"}
          OwnerOf <- Split
          MaxStops = 3
          Isolated = FALSE
          ByCluster = TRUE
INVARIANTS OneEach Tied Where NoOrphan Apart
PROPERTY Own
CHECK_DEADLOCK FALSE
