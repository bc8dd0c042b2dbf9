SPECIFICATION Spec
CONSTANT Deep = TRUE
INVARIANTS HeadIsLast AuditDecides OutcomeClear HeadersFit
PROPERTIES AuditEnds Unchanged
CHECK_DEADLOCK FALSE
