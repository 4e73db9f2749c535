SPECIFICATION Spec
CONSTANTS Thread = {1, 2, 3}
          Designs = {"pure", "perthread", "locked"}
          Policies = {"safe"}
          Length = 1
          Starts <- OneStart
CHECK_DEADLOCK FALSE
INVARIANTS Independent NoRace
PROPERTIES Unmodified
