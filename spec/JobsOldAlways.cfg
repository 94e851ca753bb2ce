SPECIFICATION Spec
CONSTANTS Objs = {1, 2}
          MaxJobs = 2
          Clean = TRUE
          Always = FALSE
INVARIANTS OneEach Tied Own NoOrphan Cleaned NeverDead
CHECK_DEADLOCK FALSE
