SPECIFICATION Spec
CONSTANTS Peers = {1, 2}
 Sends = 3
 Moves = 0
 Theme = "offences"
INVARIANTS InOrder Passed OwnRecord Culprit NothingAfter
PROPERTIES AllAnswered Spreads
CHECK_DEADLOCK FALSE
