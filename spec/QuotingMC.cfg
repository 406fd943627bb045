SPECIFICATION Spec
CONSTANTS Alphabet = {34, 39, 92, 44, 46, 49}
 MaxLen = 4
 Options <- MCOptions
INVARIANTS InText StopsRight Plain RoundTrip OneAtATime
PROPERTIES Forward Ends
CHECK_DEADLOCK FALSE
