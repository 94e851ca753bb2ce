----------------------------- MODULE ProcStopMC -----------------------------
EXTENDS ProcStop
P == <<6, 5, 5>>
=============================================================================
