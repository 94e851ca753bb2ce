SPECIFICATION Spec
CONSTANTS
  Clusters = {"c1"}
  Par = 2
  Bulk = FALSE
  Limit = 2
  MaxCount = 1
  MaxWorkers = 1
  HbBudget = 2
  ErrBudget = 0
  FireBudget = 1
  ChkBudget = 0
  CrashBudget = 1
INVARIANT Inv
PROPERTIES StatusForward TerminalFinal UserStopWins NoRestart Grow 
CHECK_DEADLOCK FALSE
