SPECIFICATION Spec
CONSTANTS
  Types <- HdrTypes
  FoldTab <- HdrFold
  Sharing = FALSE
CHECK_DEADLOCK FALSE
