SPECIFICATION Spec
CONSTANTS Objs = {1, 2}
          MaxJobs = 2
          Clean = TRUE
          Always = TRUE
INVARIANTS OneEach Tied Own NoOrphan Cleaned NeverDead
CHECK_DEADLOCK FALSE
