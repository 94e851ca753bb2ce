SPECIFICATION Spec
CONSTANTS
  Clusters = {"c1"}
  Par = 2
  Bulk = FALSE
  Limit = 2
  MaxCount = 1
  MaxWorkers = 1
  HbBudget = 1
  ErrBudget = 1
  FireBudget = 1
  ChkBudget = 0
  CrashBudget = 0
INVARIANT Inv
PROPERTIES StatusForward TerminalFinal UserStopWins NoRestart Grow Converges ShutdownCompletes
CHECK_DEADLOCK FALSE
