SPECIFICATION Spec
CONSTANTS
  Clusters = {"c1"}
  Par = 1
  Bulk = TRUE
  Limit = 2
  MaxCount = 2
  MaxWorkers = 2
  HbBudget = 1
  ErrBudget = 1
  FireBudget = 0
  ChkBudget = 1
  CrashBudget = 0
INVARIANT Inv
PROPERTIES StatusForward TerminalFinal UserStopWins NoRestart Grow 
CHECK_DEADLOCK FALSE
