SPECIFICATION Spec
CONSTANTS Peers = {1, 2}
 Sends = 2
 Moves = 2
 Theme = "answers"
INVARIANTS InOrder Passed OwnRecord Culprit NothingAfter
PROPERTIES AllAnswered Spreads
CHECK_DEADLOCK FALSE
