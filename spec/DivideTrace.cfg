SPECIFICATION Spec
CONSTANT Chunk = 100
CHECK_DEADLOCK FALSE
