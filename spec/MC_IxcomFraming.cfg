SPECIFICATION Spec
CONSTANTS MaxLen = 5
  Alphabet = {1, 3, 4, 5}
  Classify <- ToyClassify
  Rescan = FALSE
INVARIANTS OnlyFrames AllFrames NeverStuck
CHECK_DEADLOCK FALSE
