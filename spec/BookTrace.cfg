SPECIFICATION Spec
CONSTANTS MaxBook = 10000
 MaxList = 256
CHECK_DEADLOCK FALSE
