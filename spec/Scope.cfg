SPECIFICATION Spec
CONSTANTS
  Types <- HdrTypes
  FoldTab <- HdrFold
  Sharing = FALSE
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
