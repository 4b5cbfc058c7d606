SPECIFICATION Spec
PROPERTY Ends
INVARIANTS WindingKept Balanced SplitRight FillRight WalkRight Complete Directed Owned RegionRight
CHECK_DEADLOCK FALSE
