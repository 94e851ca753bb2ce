SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Own=FALSE Attached=TRUE Closers={a,b} Once=TRUE Patient=TRUE Lasting=TRUE MaxFail=2
INVARIANTS AtMostOnce OnlyIfDecided
PROPERTIES Stopped UpIsRunning Answered
