SPECIFICATION Spec
CONSTANT Chunk = 25
CHECK_DEADLOCK FALSE
