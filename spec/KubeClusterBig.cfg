SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS MaxFault=4 MaxAge=4 Guarded=TRUE
INVARIANTS EndsRight
PROPERTIES Moves RunsRight DropsRight Ends
