SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Names={"a","b"} MaxVer=4 MaxFaults=3
INVARIANTS Valid
PROPERTIES Forward Lawful Converges
