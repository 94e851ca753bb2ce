SPECIFICATION Spec
INVARIANT Complete Bounded Exposed Unknown Emit
CHECK_DEADLOCK FALSE
