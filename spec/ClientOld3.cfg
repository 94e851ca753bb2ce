SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Own=TRUE Attached=FALSE Closers={a,b} Once=TRUE Patient=TRUE Lasting=FALSE MaxFail=2
INVARIANTS AtMostOnce OnlyIfDecided
PROPERTIES Stopped UpIsRunning Answered
