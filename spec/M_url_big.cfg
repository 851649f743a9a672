SPECIFICATION Spec
CONSTANT Depth = 5
INVARIANTS SameSplit RoundTripLaw PctLaw
CHECK_DEADLOCK FALSE
