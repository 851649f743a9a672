SPECIFICATION Spec
CONSTANT Depth = 4
INVARIANTS SameSplit RoundTripLaw PctLaw
CHECK_DEADLOCK FALSE
