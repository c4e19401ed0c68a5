CONSTANTS
  N = 6
  P = 1800
  Sizes = {1900, 2300, 4500}
  Seeings = {3000, 6000}
INIT Init
NEXT Next
INVARIANTS MoreRows MoreError Enough Quadrature Best Sky
CHECK_DEADLOCK FALSE
