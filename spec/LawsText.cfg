SPECIFICATION Spec
VIEW View
CONSTRAINT Shallow
INVARIANTS C12_Grammar C12_Dead C12_Tokens C05_Literals C17_Literals
CHECK_DEADLOCK FALSE
