SPECIFICATION Spec
CONSTANTS Depth = 4
  Tags <- TagSet
  Ticks <- TickSet
INVARIANTS TimeMoves GapsDrop NeverTwoDropped FirstSent TicksMove TimeInWeek
CHECK_DEADLOCK FALSE
