SPECIFICATION Spec
INVARIANTS Normal Content
PROPERTIES Untouched Keeps
CHECK_DEADLOCK FALSE
