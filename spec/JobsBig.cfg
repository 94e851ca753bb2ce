SPECIFICATION Spec
CONSTANTS Objs = {1, 2, 3}
          MaxJobs = 3
          Clean = TRUE
          Always = TRUE
INVARIANTS OneEach Tied Own NoOrphan Cleaned NeverDead
CHECK_DEADLOCK FALSE
