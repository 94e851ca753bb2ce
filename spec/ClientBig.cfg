SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Own=TRUE Attached=FALSE Closers={a,b,c} Once=TRUE Patient=TRUE Lasting=TRUE MaxFail=3
INVARIANTS AtMostOnce OnlyIfDecided
PROPERTIES Stopped UpIsRunning Answered
