CONSTANTS
Ids = {1, 2, 3, 4, 5}
MaxElems = 2
MaxSteps = 5
SPECIFICATION Spec
INVARIANTS Denotes Owned Wellformed Comparison
CHECK_DEADLOCK FALSE
