SPECIFICATION Spec
CONSTANTS MaxSteps = 5
INVARIANTS Ends Once
