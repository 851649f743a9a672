SPECIFICATION Spec
CONSTANTS Depth = 6
Octets = {0, 10, 13, 97}
INVARIANTS NothingLost MoreIsRight Stable
CHECK_DEADLOCK FALSE
