CONSTANTS
  Vals = {2000, 9000}
  W = 4
  H = 4
  P = 10000
  B = 19000
INIT Init
NEXT Next
INVARIANTS Four Follow Return Light0 Same Keeps Place Aligned Centred Outline Axes
CHECK_DEADLOCK FALSE
