SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Own=TRUE Attached=FALSE Closers={a,b} Once=FALSE Patient=TRUE Lasting=TRUE MaxFail=2
INVARIANTS AtMostOnce OnlyIfDecided
PROPERTIES Stopped UpIsRunning Answered
