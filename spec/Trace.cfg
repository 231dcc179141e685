SPECIFICATION Spec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
CONSTANT P = 46337
CONSTANT Tab <- FullTable
CONSTANT XTab <- XFullTable
CONSTANT XU = 16
