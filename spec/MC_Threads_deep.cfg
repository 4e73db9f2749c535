SPECIFICATION Spec
CONSTANTS Thread = {1, 2}
          Designs = {"pure", "perthread", "locked"}
          Policies = {"safe_io", "fast"}
          Length = 2
          Starts <- TwoStarts
CHECK_DEADLOCK FALSE
INVARIANTS Independent NoRace
PROPERTIES Unmodified Ends
