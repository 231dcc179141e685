SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT Tab <- FullTable
CONSTANT Bound = 999
CONSTANT P = 46337
