SPECIFICATION Spec
CONSTANTS
  Types <- HdrTypes
  FoldTab <- HdrFold
  Sharing = TRUE
CHECK_DEADLOCK FALSE
