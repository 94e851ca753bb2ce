SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Own=TRUE Attached=FALSE Closers={a,b} Once=TRUE Patient=FALSE Lasting=TRUE MaxFail=2
INVARIANTS AtMostOnce OnlyIfDecided
PROPERTIES Stopped UpIsRunning Answered
