SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT XTab <- XFullTable
CONSTANT XU = 16
CONSTANT P = 46337
