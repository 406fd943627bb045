CONSTANTS
Ids = {1, 2, 3, 4, 5, 6}
MaxElems = 2
MaxSteps = 6
SPECIFICATION Spec
INVARIANTS Denotes Owned Wellformed Comparison
CHECK_DEADLOCK FALSE
