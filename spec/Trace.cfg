SPECIFICATION TraceSpec
CONSTANTS
  Objs <- LogObjs
  Scale <- LogScale
CHECK_DEADLOCK FALSE
