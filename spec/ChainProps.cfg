SPECIFICATION Spec
CONSTANT Deep = FALSE
INVARIANTS HeadIsLast AuditDecides OutcomeClear HeadersFit
PROPERTIES AuditEnds Unchanged
CHECK_DEADLOCK FALSE
