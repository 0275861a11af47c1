SPECIFICATION Spec
CONSTANTS
  Types <- HdrTypes
  FoldTab <- HdrFold
  Sharing = FALSE
VIEW View
CONSTRAINT Bounded
CHECK_DEADLOCK FALSE
