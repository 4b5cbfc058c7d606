SPECIFICATION Spec
CONSTANT Chunk = 10
CHECK_DEADLOCK FALSE
