SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS MaxFault=2 MaxAge=3 Guarded=FALSE
INVARIANTS EndsRight
PROPERTIES Moves RunsRight DropsRight Ends
