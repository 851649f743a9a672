SPECIFICATION Spec
CONSTANTS Depth = 4
Octets = {10, 13, 97}
INVARIANTS NothingLost MoreIsRight Stable
CHECK_DEADLOCK FALSE
