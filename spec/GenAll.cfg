CONSTANTS
  Share = 10
  Objs <- GenObjs
  Scale <- GenScale
SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
INVARIANT Emit
