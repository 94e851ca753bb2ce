SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Names={"a","b","c"} MaxVer=5 MaxFaults=3
INVARIANTS Valid
PROPERTIES Forward Lawful Converges
