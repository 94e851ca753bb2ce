SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS MaxFail=2 MaxWait=3
INVARIANTS Ordered WithCreds AnswersWell
PROPERTIES Forward CatchesUp CatchesUpWhenOver Answered
