SPECIFICATION Spec
CONSTANTS MaxLen = 6
  Alphabet = {0, 1, 2}
  Classify <- ToyClassify
  Rescan = FALSE
INVARIANTS OnlyFrames AllFrames NeverStuck
CHECK_DEADLOCK FALSE
