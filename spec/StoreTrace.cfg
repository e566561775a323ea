SPECIFICATION Spec
CONSTANT NoKey = 0
VIEW View
CHECK_DEADLOCK FALSE
