SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS MaxFail=5 MaxWait=6
INVARIANTS Ordered WithCreds AnswersWell
PROPERTIES Forward CatchesUp CatchesUpWhenOver Answered
