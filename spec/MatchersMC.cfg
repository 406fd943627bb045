SPECIFICATION Spec
CONSTANTS MaxSteps = 4
INVARIANTS Ends Once
