SPECIFICATION Spec
VIEW View
CONSTRAINT Tried
CHECK_DEADLOCK FALSE
