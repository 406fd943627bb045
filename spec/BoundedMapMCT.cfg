SPECIFICATION Spec
CONSTANTS
  InitCaps <- McCapsT
  InitSg <- McSgT
  Keys = {1, 2, 3}
  Values = {1, 2}
INVARIANTS WellFormed Ideal Lookups
CHECK_DEADLOCK FALSE
